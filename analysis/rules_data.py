"""Foca::handle_data: what is rejected, what an accepted datagram does."""
from core import *
from proto import *

E = 'Foca::handle_data'
LISTED = {'Ping', 'Ack', 'PingReq', 'IndirectPing', 'IndirectAck', 'ForwardedAck', 'Announce', 'Feed', 'Gossip', 'TurnUndead'}


class In:
    """the recurring terms of one path"""
    def __init__(self, c, p):
        self.p = p
        self.data = c.param(E, 1)
        hs = [ev for ev in p.ev if is_call(ev, 'decode_header')]
        self.hdr = hs[0] if len(hs) == 1 else None
        self.many = len(hs) > 1
        self.h = self.R = None
        if self.hdr is not None:
            self.h = payload(eres(self.hdr), 'Ok')
            self.R = mk('after', evid_of(self.hdr), self.data)
            self.src, self.inc, self.dst, self.msg = (get(self.h, n) for n in ('src', 'src_incarnation', 'dst', 'message'))
            self.len = app('len', self.R)
        self.apply = [ev for ev in p.ev if is_call(ev, 'apply')]
        self.many_ev = [ev for ev in p.ev if is_call(ev, 'apply_many')]

    def after_many(self, name):
        ev = self.many_ev[0]
        return mk('after', evid_of(ev), cur(ev, name))


def errname(p):
    return vname(payload(p.ret, 'Err')) if vname(p.ret) == 'Err' else 'Ok' if vname(p.ret) == 'Ok' else None


def errval(p):
    return p.ret.a[3][0] if vname(p.ret) == 'Err' else None


@rule('D.gate', 'C02 C05 C06 C07 C09 C10 C17 C18 C19',
      'handle_data refuses exactly: larger than max_packet_size, undecodable header, own identity or address as source, one stray byte after the header, an Announce with payload, '
      'not addressed to us (identity, or address for Announce), undecodable members; whatever is refused changes nothing', floor=300)
def gate(c):
    data = c.param(E, 1)
    big = rel(app('len', data), nz(S('config', 'max_packet_size')), 4)
    for p in c.run(E, 'data'):
        x = In(c, p)
        c.ob(not x.many, E, 'the header is decoded once')
        if x.hdr is not None:
            c.ob(eargs(x.hdr)[0] is data and p.ev[0] is x.hdr, E, 'the header is decoded from the start of the datagram')
        dims = [c.d_bool(big)]
        if x.hdr is not None:
            dims += [c.d_var(eres(x.hdr), 'Result')]
        for combo, fs in c.tablef(p.f, dims):
            ok = set()
            if combo[0]:
                ok.add('DataTooBig')
            if x.hdr is not None and combo[1] == 'Err':
                ok.add('Decode')
            if ok or x.hdr is None:
                verdict(c, p, x, ok, 'oversized' if combo[0] else 'undecodable header' if ok else 'no header was decoded')
                continue
            d2 = [c.d_bool(c.eq(x.src, S('identity'))), c.d_bool(c.eq(app('addr', x.src), app('addr', S('identity')))),
                  [('0', [(rel(x.len, integer(0), 2), True)]), ('1', [(rel(x.len, integer(1), 2), True)]), ('>1', [(rel(x.len, integer(1), 4), True)])],
                  [('Announce', [(c.isv(x.msg, 'Message', 'Announce'), True)]), ('other', [(c.isv(x.msg, 'Message', 'Announce'), False)])],
                  c.d_bool(c.eq(x.dst, S('identity')))]
            for f in fs:
                for (own, owna, n, m, tome), fs2 in c.tablef(f, d2):
                    alts = [(None, fs2)]
                    if m == 'Announce' and not tome:
                        alts = [(combo2[0], fs3) for f2 in fs2 for combo2, fs3 in c.tablef(f2, [c.d_bool(c.eq(app('addr', x.dst), app('addr', S('identity'))))])]
                    for toaddr, _ in alts:
                        ok = set()
                        why = []
                        if own or owna:
                            ok.add('DataFromOurselves')
                            why.append('from our own identity' if own else 'from our own address')
                        if n == '1' or m == 'Announce' and n == '>1':
                            ok.add('MalformedPacket')
                            why.append('one stray byte' if n == '1' else 'Announce with payload')
                        if not tome and not toaddr:
                            ok.add('Ok')
                            why.append('not addressed to us')
                        verdict(c, p, x, ok, ', '.join(why) or 'acceptable')


def rejected(c, p):
    """nothing but scratch space is touched and nothing is emitted"""
    bad = [ev for s in c.segs(p) for ev in s.ev if is_effect(ev)]
    w = [ev for s in c.segs(p) for ev in own_writes(s)]
    return bad, w


def verdict(c, p, x, ok, why):
    if ok:
        c.ob(errname(p) in ok, E, why + ': refused as ' + ' or '.join(sorted(ok)))
        bad, w = rejected(c, p)
        c.ob(not bad and not w, E, why + ': no effect and no state change', c.site(p, (bad + w)[0]) if bad or w else None)
        return
    if x.hdr is None:
        c.ob(False, E, why)
        return
    # acceptable: goes on, unless the member list cannot be decoded
    if x.apply:
        c.ob(True, E, 'an acceptable datagram is processed')
        return
    tail = [ev for ev in p.ev if is_call(ev, 'decode_member')]
    und = any(c.ev(p, c.isv(eres(ev), 'Result', 'Err')) is True for ev in tail)
    c.ob(und and errname(p) == 'Decode', E, 'an acceptable datagram is processed')
    bad, w = rejected(c, p)
    c.ob(not bad and not w, E, 'undecodable members: no effect and no state change', c.site(p, (bad + w)[0]) if bad or w else None)


def member_section(c, p, x):
    """(listed, rest): the decoded member list and the bytes after it"""
    sec = [ev for ev in p.ev if is_call(ev, 'buf_get2') and eargs(ev)[0] is x.R]
    n = app('be_u16', x.R)
    start = mk('adv', x.R, integer(2))
    for ev in p.ev:
        if not is_loop(ev):
            continue
        its = []
        c._iters(p, ev, None, its)
        if not any(is_call(y, 'decode_member') for s in its for y in s.ev):
            continue
        cursor = vec = None
        for pr in ev.a[3].a[0]:
            if pr.a[1] is start:
                cursor = pr.a[0]
            elif pr.a[1].op == 'vempty':
                vec = pr.a[0]
        return (vec, cursor, n, ev, its), cursor, sec or [ev]
    if not sec:
        return None, x.R, []
    return (None, start, n, None, []), start, sec


def bounded(c, p, ev, its, n):
    """the loop runs exactly n times"""
    inits = {pr.a[0]: pr.a[1] for pr in ev.a[3].a[0]}
    ends = [k[1] for k, v in p.f.d.items() if k[0] == 'b' and v is True and k[1].op == 'itend']
    for t in ends:
        r, layers, _ = p.eng.models.layers(t.a[0])
        if any(l.a[0] not in ('map', 'enum', 'peek', 'fuse') for l in layers):
            continue
        if r.op == 'adt' and r.a[1] == 'Range' and get(r, 'start') is integer(0) and get(r, 'end') is n:
            return all(any(k[0] == 'rel' and k[1] is n and k[2].op == 'ix' and v == 4 or k[0] == 'rel' and k[2] is n and k[1].op == 'ix' and v == 1 for k, v in s.f.d.items()) for s in its)
    # a counter kept by hand
    for lv, i in inits.items():
        if i is n:
            return c.ev(p, rel(lv, integer(0), 2)) is True and all(dict(s.steps).get(lv) is add(lv, integer(-1)) or dict(s.steps).get(lv, lv).op in ('sat', 'wrap') and
                                                                dict(s.steps)[lv].a[0] is add(lv, integer(-1)) for s in its)
        if i is integer(0):
            if c.ev(p, rel(lv, n, 2)) is True or c.ev(p, rel(lv, n, 6)) is True:
                return all(c.ev(s, rel(lv, n, 1)) is True and base1(dict(s.steps).get(lv, lv)) is add(lv, integer(1)) for s in its)
    return False


def base1(v):
    return v.a[0] if v.op in ('sat', 'wrap') else v


@rule('D.members', 'C01 C02 C07 C15 C17 C20',
      'the member section is present iff two or more bytes follow the header of any kind but Broadcast; exactly the announced number of members is decoded, in order, each from where the previous ended, before anything is applied', floor=300)
def members(c):
    for p in c.run(E, 'data'):
        x = In(c, p)
        if x.hdr is None or not x.apply:
            continue
        sec, rest, evs = member_section(c, p, x)
        site = c.site(p, evs[0]) if evs else c.site(p, x.apply[0])
        dims = [[('Broadcast', [(c.isv(x.msg, 'Message', 'Broadcast'), True)]), ('other', [(c.isv(x.msg, 'Message', 'Broadcast'), False)])],
                [('<2', [(rel(x.len, integer(2), 1), True)]), ('>=2', [(rel(x.len, integer(2), 6), True)])]]
        for m, n in c.table(p.f, dims):
            has = m == 'other' and n == '>=2'
            c.ob((sec is not None) is has, E, '%s with %s bytes: member section %s' % (m, n, 'read' if has else 'not read'), site)
        if sec is not None:
            vec, cursor, n, lev, its = sec
            if lev is None:
                c.ob(False, E, 'the listed members are decoded', site)
                continue
            c.ob(vec is not None and cursor is not None, E, 'members are collected from the first one on', site)
            c.ob(bounded(c, p, lev, its, n), E, 'exactly the announced number of members is decoded', site)
            for s in its:
                ds = [ev for ev in s.ev if is_call(ev, 'decode_member')]
                st = dict(s.steps)
                good = len(ds) == 1 and eargs(ds[0])[0] is cursor
                c.ob(good, E, 'each member is decoded once, from where the previous one ended', site)
                if not good:
                    continue
                c.ob(st.get(cursor) is mk('after', evid_of(ds[0]), cursor), E, 'the next member is read right after', site)
                nv = st.get(vec)
                c.ob(nv is not None and nv.op == 'push' and nv.a[0] is vec and nv.a[1] is payload(eres(ds[0]), 'Ok'), E, 'every decoded member is collected, in order', site)
            c.ob(p.ev.index(lev) < p.ev.index(x.apply[0]), E, 'the whole list is decoded before the first change', site)


def sender_active(c, p, x):
    o = p.f.d.get(('out', evid_of(x.apply[0])))
    if o is None:
        return None, o
    act, okk, chg, conf = o
    return act and conf not in ('Lost', 'FailedCondition'), o


@rule('D.sender', 'C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C15 C17 C18',
      'an accepted datagram first asserts exactly (src, src_incarnation, Alive); the payload of a sender that is Down or superseded is discarded and answered by at most one TurnUndead, never by TurnUndead when we were just told the same and cannot rejoin', floor=400)
def sender(c):
    for p in c.run(E, 'data'):
        x = In(c, p)
        if x.hdr is None or not x.apply:
            continue
        a = x.apply[0]
        site = c.site(p, a)
        eff = effects(c, p)
        c.ob(eff and eff[0] is a, E, 'the first effect is learning that the sender is alive', site)
        c.ob(len(x.apply) == 1, E, 'the sender is recorded once', site)
        U = applied(a)
        c.ob(get(U, 'id') is x.src and get(U, 'incarnation') is x.inc and vname(get(U, 'state')) == 'Alive', E, 'the sender is recorded as Alive at exactly its header incarnation', site)
        act, o = sender_active(c, p, x)
        if o is None:
            c.ob(False, E, 'the outcome of recording the sender is known', site)
            continue
        cut = [i for i, y in enumerate(eff) if y in x.many_ev]
        aborted = encode_failed(c, p)
        ws, _ = post_wants(c, c.segs(p, False)[0], a, True, aborted)
        first = Want('the sender is recorded', lambda y: y is a)
        if aborted:
            c.ob(errname(p) == 'Encode', E, 'a failed encoding is reported', site)
            expect(c, E, 'encoding the sender failed', eff, [first] + ws, site, p)
            continue
        if act:
            c.ob(bool(x.many_ev), E, 'active sender: its updates are applied', site)
            if cut:
                expect(c, E, 'active sender', eff[:cut[0]], [first] + ws, site, p)
                rename_first(c, E, 'active sender', eff[:cut[0]], site)
            continue
        # discarded payload
        c.ob(not x.many_ev and not c.calls(p, 'receive_item', 'receive_ack', 'receive_indirect_ack'), E, 'inactive sender: the payload is discarded', site)
        rename_first(c, E, 'inactive sender', eff, site)
        inactive(c, p, x, eff, [first] + ws, site)


def encode_failed(c, p):
    return any(c.ev(p, c.isv(eres(ev), 'Result', 'Err')) is True for ev in p.ev if is_call(ev, 'encode_member'))


def inactive(c, p, x, eff, ws, site):
    told = [('told', [(c.isv(x.msg, 'Message', 'TurnUndead'), True)]), ('not told', [(c.isv(x.msg, 'Message', 'TurnUndead'), False)])]
    dd, new = death_dims(c, S('identity'))
    notify = S('config', 'notify_down_members')
    fin = c.final(p)
    for (t,), fs in c.tablef(p.f, [told]):
        for f in fs:
            rows = c.tablef(f, [c.d_bool(notify)]) if t == 'not told' else c.tablef(f, dd + [c.d_bool(notify)])
            for combo, fs2 in rows:
                nd = combo[-1]
                wants = list(ws)
                label = 'inactive sender'
                before = {'conn': S('connection_state'), 'token': S('timer_token'), 'probe': S('probe')}
                bounce = False
                failed = None
                if t == 'told':
                    kind, dw = death_wants(c, combo[:3], new)
                    label += ' that says we are down: ' + kind
                    ci = [y for y in eff if not isinstance(y, (Fan, tuple)) and is_call(y, 'change_identity')]
                    if kind == 'rejoin' and ci and vname(p.ret) == 'Err' and errval(p).op == 'res' and errval(p).a[0] is evid_of(ci[0]):
                        failed = ci[0]
                        dw = dw[:1]
                    wants += dw
                    bounce = kind == 'defunct'
                    if kind == 'defunct':
                        check_conn(c, E, label, p, f, before, 'Undead', fin, site)
                        c.ob(kept(c, p, 'identity') and kept(c, p, 'incarnation'), E, label + ': identity and incarnation are kept', site)
                else:
                    check_conn(c, E, label, p, f, before, 'same', fin, site)
                    c.ob(kept(c, p, 'identity') and kept(c, p, 'incarnation'), E, label + ': identity and incarnation are kept', site)
                if nd and not bounce and failed is None:
                    wants.append(w_send('the sender is told with one TurnUndead', x.src, 'TurnUndead'))
                expect(c, E, label + (', notify_down_members' if nd else ', no notify_down_members'), eff, wants, site, p)
                sends = [w.hit for w in wants if w.hit is not None and not isinstance(w.hit, (Fan, tuple)) and is_call(w.hit, 'send')]
                result(c, E, label, p, sends, failed, site)


def result(c, E, label, p, sends, failed=None, site=None, okret=None):
    """Ok unless a send (or an identity change) failed, whose error is returned"""
    r = p.ret
    if vname(r) == 'Err' and errval(p).op == 'res':
        bad = [evid_of(y) for y in sends] + ([evid_of(failed)] if failed is not None else [])
        c.ob(errval(p).a[0] in bad, E, label + ': only a failure to encode is reported as an error', site)
    elif okret is None:
        c.ob(vname(r) == 'Ok', E, label + ': succeeds', site)
    else:
        okret()


def custom_part(c, p, x):
    """(start cursor, loop event, its iterations, exit cursor, tail events)"""
    sec, rest, _ = member_section(c, p, x)
    if rest is None:
        return None
    i0 = p.ev.index(x.many_ev[0])
    loop, its, cursor = None, [], rest
    for ev in p.ev[i0 + 1:]:
        if is_loop(ev):
            segs = []
            c._iters(p, ev, None, segs)
            if any(is_call(y, 'receive_item', 'buf_get2') for s in segs for y in s.ev):
                loop, its = ev, segs
                for pr in ev.a[3].a[0]:
                    if pr.a[1] is rest:
                        cursor = pr.a[0]
                break
    j = p.ev.index(loop) if loop is not None else i0
    tail = [ev for ev in p.ev[j + 1:] if is_call(ev, 'buf_get2', 'receive_item')]
    return rest, loop, its, cursor, tail


def item(cursor):
    return mk('slice', mk('adv', cursor, integer(2)), integer(0), app('be_u16', cursor))


def custom_outcome(c, p, x):
    """name of the error the custom section ends with, 'Ok', or None when unclear (with a reason)"""
    cp = custom_part(c, p, x)
    if cp is None:
        return None, 'the member section is not understood'
    rest, loop, its, cursor, tail = cp
    n, L = app('len', cursor), app('be_u16', cursor)
    reads = [ev for ev in tail if is_call(ev, 'buf_get2')]
    given = [ev for ev in tail if not is_call(ev, 'buf_get2')]
    if len(reads) > 1 or any(eargs(ev)[0] is not cursor for ev in reads):
        return None, 'an item is not read from where the previous one ended'
    if len(given) > 1:
        return None, 'an item is handed over twice'
    size = [('0', [(rel(n, integer(0), 2), True)]), ('1-2', [(rel(n, integer(1), 6), True), (rel(n, integer(2), 3), True)]), ('>2', [(rel(n, integer(2), 4), True)])]
    outs = set()
    for (lbl,), fs in c.tablef(p.f, [size]):
        for f in fs:
            if lbl != '>2':
                outs.add(('Ok' if lbl == '0' else 'MalformedPacket') if not given else 'handed over without a whole item')
                continue
            for z, l in c.table(f, [c.d_bool(rel(L, integer(0), 2)), c.d_bool(rel(L, add(n, integer(-2)), 4))]):
                if z or l:
                    outs.add('MalformedPacket' if not given else 'handed over without a whole item')
                elif given:
                    outs.add('CustomBroadcast' if c.ev(p, c.isv(eres(given[0]), 'Result', 'Err')) is True else 'not the end')
                else:
                    outs.add('items are left unread')
    if len(outs) == 1 and outs <= {'Ok', 'MalformedPacket', 'CustomBroadcast'}:
        return outs.pop(), None
    return None, ', '.join(sorted(outs))


@rule('D.custom', 'C06 C07 C16 C17',
      'custom items: each is read once, whole, from where the previous ended, handed to the handler with the sender; accepted ones enter the backlog byte for byte under the returned key; empty, overlong or trailing framing is MalformedPacket', floor=300)
def custom(c):
    for p in c.run(E, 'data'):
        x = In(c, p)
        if x.hdr is None or not x.many_ev or many_failed(c, p, x):
            continue
        cp = custom_part(c, p, x)
        if cp is None:
            c.ob(False, E, 'the bytes after the member section are examined')
            continue
        rest, loop, its, cursor, tail = cp
        site = c.site(p, x.many_ev[0])
        what, why = custom_outcome(c, p, x)
        c.ob(what is not None, E, 'custom section: ends cleanly or is refused', site)
        if what is None:
            c.detail(E, 'custom section: ends cleanly or is refused', why)
        for s in its:
            gs = [ev for ev in s.ev if is_call(ev, 'buf_get2')]
            rs = [ev for ev in s.ev if is_call(ev, 'receive_item')]
            c.ob(len(gs) <= 1 and all(eargs(g)[0] is cursor for g in gs), E, 'custom section: one length per item, read where the previous item ended', site)
            c.ob(len(rs) == 1, E, 'custom section: every item is handed to the handler once', site)
            st = dict(s.steps)
            L = app('be_u16', cursor)
            c.ob(st.get(cursor) is mk('adv', cursor, add(L, integer(2))), E, 'custom section: the next item starts right after', site)
            c.ob(c.ev(s, rel(L, integer(0), 4)) is True and c.ev(s, rel(L, add(app('len', cursor), integer(-2)), 3)) is True, E, 'custom section: only whole, non-empty items are handed over', site)
            for r in rs:
                c.ob(eargs(r)[0] is item(cursor), E, 'custom section: exactly the item\'s bytes are handed over', c.site(p, r))
                snd = eargs(r)[1]
                c.ob(variant(snd, 'Some', x.src), E, 'custom section: handed over with the sender\'s identity', c.site(p, r))
                okv = payload(eres(r), 'Ok')
                adds = [ev for ev in s.ev if is_call(ev, 'backlog_add')]
                rows = c.table(s.f, [c.d_var(eres(r), 'Result'), c.d_var(okv, 'Option')])
                c.ob(all(a == 'Ok' for a, _ in rows), E, 'custom section: a handler error stops the processing', c.site(p, r))
                for a, b in rows:
                    if b == 'Some':
                        good = len(adds) == 1
                        if good:
                            w, key, data, tx = eargs(adds[0])[:4]
                            good = w is mk('k', 'custom_broadcasts') and key is payload(okv, 'Some') and data is item(cursor) and tx is nz(cur(adds[0], 'config', 'max_transmissions'))
                        c.ob(good, E, 'custom section: an accepted item enters the backlog byte for byte under its key', c.site(p, r))
                    else:
                        c.ob(not adds, E, 'custom section: a declined item is not kept', c.site(p, r))
            other = [ev for ev in s.ev if is_effect(ev) and not is_call(ev, 'receive_item', 'backlog_add')]
            c.ob(not other and not own_writes(s), E, 'custom section: nothing else happens', site)
        for r in tail:
            if is_call(r, 'receive_item'):
                c.ob(eargs(r)[0] is item(cursor) and variant(eargs(r)[1], 'Some', x.src), E, 'custom section: exactly the item\'s bytes are handed over', c.site(p, r))


def many_failed(c, p, x):
    return vname(p.ret) == 'Err' and errval(p) is mk('res', evid_of(x.many_ev[0]), 'err')


@rule('D.replies', 'C02 C03 C04 C05 C08 C10 C12 C13 C15 C17 C18 C19',
      'reply table: after its updates are applied with broadcasting on, and only while connected, each message kind causes exactly its documented reaction', floor=1000)
def replies(c):
    dummy = mk('sym', '?')
    for p in c.run(E, 'data'):
        x = In(c, p)
        if x.hdr is None or not x.many_ev:
            continue
        A = x.many_ev[0]
        site = c.site(p, A)
        c.ob(len(x.many_ev) == 1, E, 'updates are applied once', site)
        sec, rest, _ = member_section(c, p, x)
        lst = eargs(A)[0]
        if sec is None:
            c.ob(lst.op == 'vempty' or lst is S('updates_buf') and False, E, 'no member section: no updates are applied', site)
        else:
            c.ob(sec[0] is not None and lst is sec[0], E, 'exactly the decoded members are applied', site)
        c.ob(eargs(A)[1] is TRUE, E, 'learned updates are passed on', site)
        if many_failed(c, p, x):
            rest_eff = [y for y in effects(c, p) if y is not A][:0]
            i = p.ev.index(A)
            c.ob(not [y for y in p.ev[i + 1:] if is_effect(y)], E, 'a failed application ends the processing', site)
            continue
        eff = effects(c, p)
        eff = eff[eff.index(A) + 1:]
        # custom items are judged by D.custom
        eff = [y for y in eff if not (isinstance(y, tuple) and all(is_call(ev, 'receive_item', 'backlog_add') for s in y[2] for ev in s.ev if is_effect(ev)))
               and not (not isinstance(y, (Fan, tuple)) and is_call(y, 'receive_item'))]
        conn, ident = x.after_many('connection_state'), x.after_many('identity')
        want_custom, _ = custom_outcome(c, p, x)
        connected = c.isv(conn, 'ConnectionState', 'Connected')
        for (cn, kind), fs in c.tablef(p.f, [c.d_bool(connected), c.d_var(x.msg, 'Message')]):
            for f in fs:
                react(c, p, x, f, cn, kind, eff, conn, ident, want_custom, site)


def react(c, p, x, f, cn, kind, eff, conn, ident, want_custom, site):
    M = mk('as', x.msg, kind)
    fl = lambda n: mk('fld', M, n)
    no = fl('0') if kind in ('Ping', 'Ack') else fl('probe_number')
    fin = c.final(p)
    before = {'conn': conn, 'token': x.after_many('timer_token'), 'probe': x.after_many('probe')}
    label = '%s, %s' % (kind, 'connected' if cn else 'not connected')
    wants = []
    want_err = want_custom
    failed = None
    probe_ok = False
    if cn:
        if kind == 'Ping':
            wants = [w_send('answers with Ack of the same number', x.src, 'Ack', no)]
        elif kind == 'Ack':
            wants = [Want('the probe takes the ack from its sender with its number', lambda y: not isinstance(y, (Fan, tuple)) and is_call(y, 'receive_ack') and eargs(y)[1] is x.src and eargs(y)[2] is no)]
            probe_ok = True
        elif kind in ('PingReq', 'IndirectPing', 'IndirectAck', 'ForwardedAck'):
            who = fl('target') if kind in ('PingReq', 'IndirectAck') else fl('origin')
            for (own,), fs in c.tablef(f, [c.d_bool(c.eq(who, ident))]):
                lab = label + (', naming ourselves' if own else '')
                pok = False
                if own:
                    ws, we = [], 'IndirectForOurselves'
                else:
                    we = want_custom
                    if kind == 'PingReq':
                        ws = [w_send('asks the target on behalf of the sender, same number', who, 'IndirectPing', ('origin', x.src), ('probe_number', no))]
                    elif kind == 'IndirectPing':
                        ws = [w_send('answers the helper for the origin, same number', x.src, 'IndirectAck', ('target', who), ('probe_number', no))]
                    elif kind == 'IndirectAck':
                        ws = [w_send('forwards the ack to whom asked, naming the sender, same number', who, 'ForwardedAck', ('origin', x.src), ('probe_number', no))]
                    else:
                        ws = [Want('the probe takes the forwarded ack from its sender with its number', lambda y: not isinstance(y, (Fan, tuple)) and is_call(y, 'receive_indirect_ack') and eargs(y)[1] is x.src and eargs(y)[2] is no)]
                        pok = True
                finish(c, p, x, lab, eff, ws, we, before, 'same', pok, fin, site)
            return
        elif kind == 'Announce':
            wants = [w_send('answers with Feed', x.src, 'Feed')]
        elif kind == 'TurnUndead':
            dd, new = death_dims(c, ident)
            for combo, fs in c.tablef(f, dd):
                k, ws = death_wants(c, combo, new)
                ci = [y for y in eff if not isinstance(y, (Fan, tuple)) and is_call(y, 'change_identity')]
                fail = None
                if k == 'rejoin' and ci and vname(p.ret) == 'Err' and errval(p).op == 'res' and errval(p).a[0] is evid_of(ci[0]):
                    fail = ci[0]
                    ws = ws[:1]
                finish(c, p, x, label + ': ' + k, eff, ws, want_custom, before, 'Undead' if k == 'defunct' else None, False, fin, site, fail)
            return
    finish(c, p, x, label, eff, wants, want_err, before, 'same', probe_ok, fin, site)


def finish(c, p, x, label, eff, wants, want_err, before, conn, probe_ok, fin, site, failed=None):
    expect(c, E, label, eff, wants, site, p)
    sends = [w.hit for w in wants if w.hit is not None and not isinstance(w.hit, (Fan, tuple)) and is_call(w.hit, 'send')]

    def okret():
        c.ob(errname(p) == want_err, E, label + ': reports the outcome of the custom section' if want_err != 'IndirectForOurselves' else label + ': refused with IndirectForOurselves', site)
    result(c, E, label, p, sends, failed, site, okret)
    if conn == 'same' and probe_ok:
        c.ob(get(fin, 'connection_state') is before['conn'] and get(fin, 'timer_token') is before['token'], E, label + ': connection state unchanged', site)
        c.ob(base_of(get(fin, 'probe'), {}) is S('probe') , E, label + ': only the probe judges the ack', site)
    elif conn is not None:
        check_conn(c, E, label, p, p.f, before, conn, fin, site)
    if conn is not None:
        keeps(c, E, label, p, ('identity', 'incarnation'), site)
    keeps(c, E, label, p, ('members', 'config', 'updates', 'custom_broadcasts'), site)
