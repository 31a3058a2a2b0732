"""Learning updates, the own identity: apply_many, suspicion and death of
oneself, identity changes, leaving."""
from core import *
from proto import *
from rules_data import errname, errval, result, encode_failed
from rules_timer import finished
import rules_timer

MANY = 'Foca::apply_many'


class Step:
    """one update being processed: an iteration of the loop, or the last, failing one"""
    def __init__(self, c, path, f, eff, start, end, failing, site, evs, seg):
        self.c, self.path, self.f, self.eff, self.start, self.end, self.failing, self.site, self.evs, self.seg = c, path, f, eff, start, end, failing, site, evs, seg


def outer(c, p):
    """the loop over the given updates"""
    u = c.param(MANY, 1)
    for ev in p.ev:
        if is_loop(ev):
            its = []
            c._iters(p, ev, None, its)
            mine = [s for s in its if s.loop is ev]
            if any(x.op == 'elem' and x.a[0] is u for s in mine for k in s.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t)) or \
               any(x.op == 'elem' and x.a[0] is u for s in mine for y in s.ev for x in subterms(y)):
                return ev, mine
    return None, []


def begin_of(lev):
    """field values when an iteration begins"""
    d = {}
    for pr in lev.a[3].a[0]:
        t = pr.a[1]
        if t.op == 'fld' and t.a[0] is SELF:
            d[t.a[1]] = pr.a[0]
    return d


class Vals(dict):
    def __missing__(self, k):
        return S(k)


def rec(vals, fields):
    return adt('Foca', 'Foca', 0, tuple(vals[f] for f in fields), tuple(fields))


def steps(c):
    fields = own_fields(c)
    seen = set()
    n = 0
    for p in c.run(MANY, 'cid'):
        lev, its = outer(c, p)
        if lev is None:
            continue
        n += 1
        st = Vals(begin_of(lev))
        if lev not in seen:
            seen.add(lev)
            for s in its:
                sd = dict(s.steps)
                end = Vals({f: sd.get(v, v) for f, v in st.items()})
                for w in own_writes(s):
                    if wfields(w)[0] not in st:
                        c.ob(False, MANY, wfields(w)[0] + ' is left alone', c.site(p, w))
                yield Step(c, p, s.f, effects(c, p, s), st, end, False, c.site(p, lev), s.ev, s)
        i = p.ev.index(lev)
        ended = any(k[0] == 'b' and v is True and k[1].op == 'itend' and any(x is c.param(MANY, 1) for x in subterms(k[1])) for k, v in p.f.d.items())
        if not ended:
            # the path leaves the loop with an error
            fin = c.final(p)
            yield Step(c, p, p.f, effects(c, p, None, i + 1), st, Vals({f: get(fin, f) for f in fields}), True, c.site(p, lev), p.ev[i + 1:], c.segs(p, False)[0])
    if not n:
        c.ob(False, MANY, 'the updates are gone through one by one')


def enc_failed(c, s):
    return any(c.ev(s.f, c.isv(eres(ev), 'Result', 'Err')) is True for ev in s.evs if is_call(ev, 'encode_member'))


def unchanged(c, E, label, s, fields, site=None):
    for f in fields:
        c.ob(base_of(s.end[f], {}) is base_of(s.start[f], {}), E, label + ': ' + f + ' is left alone', site or s.site)


def err_of(s):
    """identity of the call whose error a failing step returns"""
    p = s.path
    v = errval(p)
    return v.a[0] if v is not None and v.op == 'res' else None


def gossip_fan(c, E, label, s, fan, g, inc):
    """a Gossip to a random choice of active members, from the current identity and incarnation"""
    with Known(c, g):
        fan_ok(c, E, label, s.path, fan, nz(S('config', 'num_indirect_probes')),
               lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)],
               lambda m, ev: variant(m, 'Gossip') and (inc is None or eargs(ev)[3] is inc))


def update_of(c, s):
    u = c.param(MANY, 1)
    es = {x for k in s.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem' and x.a[0] is u}
    es |= {x for ev in s.evs for x in subterms(ev) if x.op == 'elem' and x.a[0] is u}
    return es.pop() if len(es) == 1 else None


@rule('A.own', 'C02 C04 C05 C08 C09 C10 C13 C15 C17 C18',
      'an update about the own identity: Alive is ignored; a suspicion lower than the own incarnation only causes gossip; otherwise the incarnation becomes one more than the suspected one and a gossip '
      'carries it, or (at the maximum) the death reaction follows; Down: rejoin with a differing, winning renewed identity, or become Undead and Defunct', floor=60)
def own(c):
    E = MANY
    MAX = integer(65535)
    for s in steps(c):
        U = update_of(c, s)
        if U is None:
            c.ob(False, E, 'one update at a time', s.site)
            continue
        ident, inc = s.start['identity'], s.start['incarnation']
        uid, uinc, ust = get(U, 'id'), get(U, 'incarnation'), get(U, 'state')
        fin = rec(s.end, own_fields(c))
        before = {'conn': s.start['connection_state'], 'token': s.start['timer_token'], 'probe': s.start['probe']}
        dd, new = death_dims(c, ident)
        for (mine, st), fs in c.tablef(s.f, [c.d_bool(c.eq(uid, ident)), c.d_var(ust, 'State')]):
            if not mine:
                continue
            for f in fs:
                label = 'own identity is ' + st
                if st == 'Alive':
                    expect(c, E, label, s.eff, [], s.site, s.path, f)
                    check_conn(c, E, label, s.path, f, before, 'same', fin, s.site)
                    unchanged(c, E, label, s, ('identity', 'incarnation', 'members', 'config', 'updates', 'custom_broadcasts'))
                    c.ob(not s.failing, E, label + ': goes on', s.site)
                    continue
                rows = [('dead', [f])]
                if st == 'Suspect':
                    rows = []
                    for (r,), fs1 in c.tablef(f, [c.d_rel(inc, uinc)]):
                        # when both are equal, what is known of one is known of the other
                        both = [uinc] + ([inc] if r == '=' else [])
                        for h in fs1:
                            for (m,), fs2 in c.tablef(h, [[('max', [(rel(x, MAX, 2), True) for x in both]), ('below', [(rel(x, MAX, 1), True) for x in both])]]):
                                rows.append(('old' if r == '>' else 'dead' if m == 'max' else 'refute', fs2))
                for what, fs2 in rows:
                    for g in fs2:
                        if what == 'dead':
                            lab = label + (' at the maximum incarnation' if st == 'Suspect' else '')
                            for combo, fs3 in c.tablef(g, dd):
                                dead(c, E, lab, s, combo, new, fs3[0], before, fin)
                        elif what == 'old':
                            lab = label + ' at an older incarnation'
                            unchanged(c, E, lab, s, ('identity', 'members', 'config'))
                            c.ob(s.end['incarnation'] is inc, E, lab + ': the incarnation stays', s.site)
                            check_conn(c, E, lab, s.path, g, before, 'same', fin, s.site)
                            gossips(c, E, lab, s, g, None)
                        else:
                            lab = label
                            unchanged(c, E, lab, s, ('identity', 'members', 'config'))
                            check_conn(c, E, lab, s.path, g, before, 'same', fin, s.site)
                            v = s.end['incarnation']
                            with Known(c, g):
                                w = v.a[0] if v.op in ('sat', 'wrap') else v
                                c.ob(eqv(w, add(uinc, integer(1))), E, lab + ': the incarnation becomes one more than the suspected one', s.site)
                            gossips(c, E, lab, s, g, v)


def gossips(c, E, lab, s, g, inc):
    fan = w_fan('gossips', lambda x: True)
    expect(c, E, lab, s.eff, [fan], s.site, s.path, g)
    if fan.hit is not None:
        gossip_fan(c, E, lab, s, fan.hit, g, inc)
        if s.failing:
            c.ob(fan.hit.tail is not None and err_of(s) is evid_of(fan.hit.tail), E, lab + ': only a failure to encode is reported as an error', s.site)
        else:
            c.ob(fan.hit.tail is None, E, lab + ': everyone chosen is told', s.site)


def dead(c, E, lab, s, combo, new, g, before, fin):
    kind, ws = death_wants(c, combo, new)
    lab += ': ' + kind
    cid = [x for x in s.eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'change_identity')]
    if s.failing:
        ok = kind == 'rejoin' and len(cid) == 1 and err_of(s) is evid_of(cid[0])
        c.ob(ok, E, lab + ': only a failure to encode is reported as an error', s.site)
        if ok:
            expect(c, E, lab + ', encoding fails', s.eff, ws[:1], s.site, s.path, g)
        return
    expect(c, E, lab, s.eff, ws, s.site, s.path, g)
    if kind == 'defunct':
        check_conn(c, E, lab, s.path, g, before, 'Undead', fin, s.site)
        unchanged(c, E, lab, s, ('identity', 'incarnation', 'members', 'config', 'updates', 'custom_broadcasts'))
    else:
        with Known(c, g):
            c.ob(eqv(s.end['identity'], new), E, lab + ': carries on under the renewed identity', s.site)
        c.ob(s.end['incarnation'] is integer(0), E, lab + ': starts at incarnation 0', s.site)
        c.ob(vname(s.end['connection_state']) == 'Disconnected', E, lab + ': starts disconnected', s.site)


@rule('A.other', 'C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C15 C17 C19',
      'an update about somebody else is applied once, as given; about another identity at the own address only as Down; accepted changes are passed on iff asked to, notified, and scheduled for removal when Down', floor=100)
def other(c):
    E = MANY
    bc = c.param(E, 2)
    for s in steps(c):
        U = update_of(c, s)
        if U is None:
            c.ob(False, E, 'one update at a time', s.site)
            continue
        ident = s.start['identity']
        uid = get(U, 'id')
        fin = rec(s.end, own_fields(c))
        before = {'conn': s.start['connection_state'], 'token': s.start['timer_token'], 'probe': s.start['probe']}
        for (mine, addr, b), fs in c.tablef(s.f, [c.d_bool(c.eq(uid, ident)), c.d_bool(c.eq(app('addr', uid), app('addr', ident))), c.d_bool(bc)]):
            if mine:
                continue
            label = 'an update about ' + ('another identity at the own address' if addr else 'another member')
            g = fs[0]
            aps = [x for x in s.eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'apply', 'apply_if')]
            c.ob(len(aps) == 1 and is_call(aps[0], 'apply'), E, label + ': is applied once', s.site)
            if len(aps) != 1 or not is_call(aps[0], 'apply'):
                continue
            A = aps[0]
            V = eargs(A)[0]
            with Known(c, g):
                c.ob(eqv(get(V, 'id'), uid), E, label + ': about the identity it names', s.site)
                if addr:
                    c.ob(vname(get(V, 'state')) == 'Down' or c.ev(g, c.isv(get(V, 'state'), 'State', 'Down')) is True, E, label + ': only as Down', s.site)
                else:
                    c.ob(eqv(get(V, 'state'), get(U, 'state')) or same_enum(c, g, get(V, 'state'), get(U, 'state')), E, label + ': with the state given', s.site)
                    c.ob(eqv(get(V, 'incarnation'), get(U, 'incarnation')), E, label + ': with the incarnation given', s.site)
            c.ob(eargs(A)[1] is s.start['members'], E, label + ': to the current members', s.site)
            aborted = enc_failed(c, s)
            ws, o = post_wants(c, s.seg, A, b, aborted)
            if o == 'unknown' or o is None:
                c.ob(False, E, label + ': the outcome is looked at', s.site)
                continue
            rename_first(c, E, label, s.eff, s.site)
            lab = label + (', to be passed on' if b else ', not to be passed on')
            expect(c, E, lab, s.eff, [Want('the application', lambda x: x is A)] + ws, s.site, s.path, g)
            check_conn(c, E, label, s.path, g, before, 'same', fin, s.site)
            unchanged(c, E, label, s, ('identity', 'incarnation', 'config', 'custom_broadcasts') + (() if b else ('updates',)))
            c.ob(base_of(s.end['members'], {}) is base_of(s.start['members'], {}), E, label + ': nothing else is done to the members', s.site)
            if s.failing:
                c.ob(aborted, E, label + ': only a failure to encode stops the processing', s.site)


def same_enum(c, g, a, b):
    vs = c.engine('leaf', 'default').p.variants(c.adtkey('State'))
    t = lambda x: {v for v in vs if c.ev(g, c.isv(x, 'State', v)) is not False}
    return t(a) == t(b) and len(t(a)) == 1


@rule('A.adjust', 'C02 C03 C05 C08 C13 C17',
      'after all updates: a disconnected instance with active members connects (Active, one timer per task), a connected one without disconnects (Idle, new epoch), an Undead one stays', floor=60)
def adjust(c):
    E = MANY
    n = 0
    for p in c.run(E, 'cid'):
        lev, _ = outer(c, p)
        if lev is None or errname(p) != 'Ok':
            continue
        n += 1
        c.ob(any(k[0] == 'b' and v is True and k[1].op == 'itend' and any(x is c.param(E, 1) for x in subterms(k[1])) for k, v in p.f.d.items()), E, 'every update is processed', c.site(p, lev))
        st = Vals(begin_of(lev))
        i = p.ev.index(lev)
        eff = effects(c, p, None, i + 1)
        fin = c.final(p)
        conn, token, pr, mem = (st[k] for k in ('connection_state', 'timer_token', 'probe', 'members'))
        before = {'conn': conn, 'token': token, 'probe': pr}
        for combo, fs in c.tablef(p.f, conn_dims(c, conn, get(mem, 'num_active'))):
            what, wants, final = adjust_wants(c, fs[0], conn, get(mem, 'num_active'), token, S('config'))
            label = 'after the updates, ' + what
            c.ob(wants is not None, E, label)
            if wants is None:
                continue
            expect(c, E, label, eff, wants, None, p, fs[0])
            check_conn(c, E, label, p, fs[0], before, final, fin)
            for f in ('identity', 'incarnation', 'members', 'updates', 'custom_broadcasts', 'config'):
                c.ob(get(fin, f) is st[f], E, label + ': ' + f + ' is left alone')
    c.ob(n > 0, E, 'applying can succeed')


# ---- identity changes ----------------------------------------------------------
def fresh(c, E, label, fin, path, site=None):
    c.ob(vname(get(fin, 'connection_state')) == 'Disconnected', E, label + ': starts disconnected', site)
    c.ob(get(fin, 'incarnation') is integer(0), E, label + ': starts at incarnation 0', site)
    c.ob(wrapped1(get(fin, 'timer_token'), S('timer_token'), path.f), E, label + ': a new epoch begins, older timers become stale', site)
    probe_cleared(c, E, label, get(fin, 'probe'), S('probe'), site)


def only(c, E, label, fin, but, site=None):
    for f in own_fields(c):
        if f not in SCRATCH and f not in but:
            c.ob(get(fin, f) is S(f), E, label + ': ' + f + ' is left alone', site)


@rule('I.change', 'C02 C03 C05 C07 C08 C09 C10 C12 C13 C15 C17 C19',
      'changing to the same identity is refused without a trace; otherwise the identity is replaced, a fresh epoch at incarnation 0 begins, the previous identity is put in the backlog as Down unless the cluster '
      'declared it, an active record at the new address is retired, and a gossip follows', floor=120)
def change(c):
    E = 'Foca::change_identity'
    new = c.param(E, 1)
    members = S('members')
    for p in c.run(E, 'foca'):
        fin = c.final(p)
        for (sameid,), fs in c.tablef(p.f, [c.d_bool(c.eq(new, S('identity')))]):
            eff = effects(c, p)
            if sameid:
                label = 'same identity'
                expect(c, E, label, eff, [], None, p)
                only(c, E, label, fin, ())
                c.ob(errname(p) == 'SameIdentity', E, label + ': refused with SameIdentity')
                continue
            undead = c.isv(S('connection_state'), 'ConnectionState', 'Undead')
            for (ud,), fs2 in c.tablef(fs[0], [c.d_bool(undead)]):
                g = fs2[0]
                label = 'new identity' + (', the previous one was declared Down' if ud else '')
                c.ob(get(fin, 'identity') is new, E, label + ': is used from now on')
                fresh(c, E, label, fin, p)
                only(c, E, label, fin, ('identity', 'connection_state', 'incarnation', 'timer_token', 'probe', 'members', 'updates', 'custom_broadcasts'))
                aborted = encode_failed(c, p)
                wants = []
                if not ud:
                    def is_old(x):
                        if isinstance(x, (Fan, tuple)) or not is_call(x, 'backlog_add'):
                            return False
                        w, key, data, tx = eargs(x)[:4]
                        return (w is mk('k', 'updates') and eqv(get(key, '0'), app('addr', S('identity'))) and whole(data)
                                and eqv(get(data.a[1], 'id'), S('identity')) and vname(get(data.a[1], 'state')) == 'Down' and tx is nz(S('config', 'max_transmissions')))
                    wants.append(Want('the previous identity is put in the update backlog as Down', is_old, aborted))
                aps = [x for x in eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'apply', 'apply_if')]
                there = own_address(c, p, new)
                rest = []
                if aps:
                    A = aps[0]
                    V = eargs(A)[0]
                    site = c.site(p, A)
                    e = get(V, 'id')
                    okv = e.op == 'fld' and e.a[0].op == 'elem' and e.a[0].a[0] is S('members', 'inner')
                    c.ob(len(aps) == 1 and okv and vname(get(V, 'state')) == 'Down' and there == 'yes', E, label + ': only the active record at the new address is retired', site)
                    if okv:
                        with Known(c, g):
                            c.ob(eqv(get(V, 'incarnation'), get(e.a[0], 'incarnation')), E, label + ': the record is retired at its own incarnation', site)
                    isnew = c.eq(e, new)
                    rows = c.tablef(g, [c.d_bool(isnew)])
                    o = out_of(c.segs(p, False)[0], A)
                    for (n,), fs3 in rows:
                        ws, o = post_wants(c, c.segs(p, False)[0], A, not n, aborted)
                        rest.append((', that record was of ' + ('the new identity itself' if n else 'another identity'), [Want('the application', lambda x: x is A)] + ws, fs3[0]))
                else:
                    c.ob(there == 'no' or aborted, E, label + ': whether the new address is taken by an active member is looked up')
                    rest = [('', [], g)]
                for sub, ws, g2 in rest:
                    fan = w_fan('gossips', lambda x: True)
                    fan.optional = aborted
                    expect(c, E, label + sub, eff, wants + ws + [fan], None, p, g2)
                    if aborted:
                        c.ob(vname(p.ret) == 'Err' and fan.hit is None, E, label + ', encoding fails: reported')
                    elif fan.hit is not None:
                        with Known(c, g2):
                            fan_ok(c, E, label, p, fan.hit, nz(S('config', 'num_indirect_probes')), lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)],
                                   lambda m, ev: variant(m, 'Gossip') and eargs(ev)[2] is new and eargs(ev)[3] is integer(0))
                            done(c, E, label, p, fan.hit)


def done(c, E, label, p, fan):
    if fan.tail is not None:
        c.ob(vname(p.ret) == 'Err' and errval(p) is mk('res', evid_of(fan.tail), 'err'), E, label + ': only a failure to encode stops the sending', c.site(p, fan.tail))
    else:
        c.ob(vname(p.ret) == 'Ok', E, label + ': succeeds', c.site(p, fan.choose))
        c.ob(exhausted(c, p, fan), E, label + ': every chosen member is sent the message', c.site(p, fan.choose))


def own_address(c, p, ident):
    """is there an active record at the address of ident: yes / no / None"""
    from rules_members import nosuch
    L = S('members', 'inner')
    es = {x for k in p.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem' and x.a[0] is L}
    for e in es:
        if c.ev(p, c.eq(app('addr', ident), app('addr', get(e, 'id')))) is True:
            d = c.ev(p, c.isv(get(e, 'state'), 'State', 'Down'))
            if d is not None:
                return 'no' if d else 'yes'
    if nosuch(c, p, L, lambda ph: [(c.eq(app('addr', ident), app('addr', get(ph, 'id'))), True), (c.isv(get(ph, 'state'), 'State', 'Down'), False)]):
        return 'no'
    return None


@rule('I.reuse', 'C08 C10 C12 C13 C17', 'reuse_down_identity is refused without a trace unless Undead, and otherwise begins a fresh disconnected epoch at incarnation 0 with the same identity', floor=20)
def reuse(c):
    E = 'Foca::reuse_down_identity'
    for p in c.run(E, 'foca'):
        fin = c.final(p)
        for (ud,), fs in c.tablef(p.f, [c.d_bool(c.isv(S('connection_state'), 'ConnectionState', 'Undead'))]):
            expect(c, E, 'undead' if ud else 'not undead', effects(c, p), [], None, p)
            if ud:
                c.ob(errname(p) == 'Ok', E, 'undead: succeeds')
                fresh(c, E, 'undead', fin, p)
                only(c, E, 'undead', fin, ('connection_state', 'incarnation', 'timer_token', 'probe'))
            else:
                c.ob(errname(p) == 'NotUndead', E, 'not undead: refused with NotUndead')
                only(c, E, 'not undead', fin, ())


@rule('I.leave', 'C03 C05 C08 C10 C13 C15 C19', 'leave_cluster puts the own identity in the backlog as Down, gossips it to active members, becomes Undead (Defunct, new epoch)', floor=20)
def leave(c):
    E = 'Foca::leave_cluster'
    me = S('identity')
    for p in c.run(E, 'foca'):
        fin = c.final(p)
        eff = effects(c, p)
        label = 'leaving'
        aborted = encode_failed(c, p)
        if aborted:
            expect(c, E, label + ', encoding fails', eff, [], None, p)
            c.ob(vname(p.ret) == 'Err', E, label + ', encoding fails: reported')
            only(c, E, label + ', encoding fails', fin, ())
            continue

        def is_me(x):
            if isinstance(x, (Fan, tuple)) or not is_call(x, 'backlog_add'):
                return False
            w, key, data, tx = eargs(x)[:4]
            return (w is mk('k', 'updates') and eqv(get(key, '0'), app('addr', me)) and whole(data)
                    and eqv(get(data.a[1], 'id'), me) and vname(get(data.a[1], 'state')) == 'Down' and tx is nz(S('config', 'max_transmissions')))
        fan = w_fan('active members are told', lambda x: True)
        failed = vname(p.ret) == 'Err'
        wants = [Want('the own identity is put in the update backlog as Down', is_me), fan]
        if not failed:
            wants.append(w_notify('Defunct is notified', 'Defunct'))
        expect(c, E, label, eff, wants, None, p)
        if eff and wants[0].hit is not None and fan.hit is not None:
            c.ob(eff.index(wants[0].hit) < eff.index(fan.hit), E, label + ': the message carries the news')
        if fan.hit is not None:
            fan_ok(c, E, label, p, fan.hit, nz(S('config', 'num_indirect_probes')), lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)],
                   lambda m, ev: variant(m, 'Gossip'))
            done(c, E, label, p, fan.hit)
        only(c, E, label, fin, ('connection_state', 'timer_token', 'probe', 'updates', 'custom_broadcasts'))
        if not failed:
            check_conn(c, E, label, p, p.f, {'conn': S('connection_state'), 'token': S('timer_token'), 'probe': S('probe')}, 'Undead', fin)


# ---- plain API calls -------------------------------------------------------------
@rule('I.config', 'C06 C13 C17', 'set_config refuses (without a trace) exactly a changed probe_period or probe_rtt and the enabling of a periodic task, and otherwise replaces the whole configuration and nothing else', floor=60)
def set_config(c):
    E = 'Foca::set_config'
    new = c.param(E, 1)
    F = [f for f, _ in PERIODIC]
    for p in c.run(E, 'foca'):
        fin = c.final(p)
        expect(c, E, 'set_config', effects(c, p), [], None, p)
        dims = [c.d_bool(c.eq(get(new, k), S('config', k))) for k in ('probe_period', 'probe_rtt')]
        for f in F:
            dims += [c.d_var(S('config', f), 'Option'), c.d_var(get(new, f), 'Option')]
        for combo, fs in c.tablef(p.f, dims):
            bad = not combo[0] or not combo[1] or any(combo[2 + 2 * i] == 'None' and combo[3 + 2 * i] == 'Some' for i in range(3))
            if bad:
                c.ob(errname(p) == 'InvalidConfig', E, 'illegal change: refused with InvalidConfig')
                only(c, E, 'illegal change', fin, ())
            else:
                c.ob(errname(p) == 'Ok', E, 'legal change: accepted')
                with Known(c, fs[0]):
                    cf = get(fin, 'config')
                    names = [f['name'] for f in c.prog().adts[c.adtkey('Config')]['variants'][0]['fields']]
                    c.ob(cf is new or all(eqv(get(cf, n), get(new, n)) for n in names), E, 'legal change: the whole configuration is replaced')
                only(c, E, 'legal change', fin, ('config',))


@rule('I.item', 'C06 C07 C15 C16 C17', 'add_broadcast refuses empty and oversized items before the handler sees them; an item the handler accepts enters the backlog byte for byte under its key, nothing else happens', floor=20)
def item(c):
    E = 'Foca::add_broadcast'
    data = c.param(E, 1)
    n = app('len', data)
    for p in c.run(E, 'foca'):
        fin = c.final(p)
        eff = effects(c, p)
        dims = [[('empty', [(rel(n, integer(0), 2), True)]), ('some', [(rel(n, integer(0), 4), True)])], c.d_bool(rel(n, nz(S('config', 'max_packet_size')), 4)), c.d_bool(rel(n, integer(65535), 4))]
        for (e, big, huge), fs in c.tablef(p.f, dims):
            if e == 'empty' or big or huge:
                label = 'empty item' if e == 'empty' else 'oversized item'
                expect(c, E, label, eff, [], None, p)
                ok = {'MalformedPacket'} if e == 'empty' else {'DataTooBig'}
                c.ob(errname(p) in ok, E, label + ': refused with ' + ' or '.join(ok))
                only(c, E, label, fin, ())
                continue
            label = 'acceptable item'
            rc = w_call('the handler sees exactly the item, as local', 'receive_item', data)
            rs = [x for x in eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'receive_item')]
            c.ob(len(rs) == 1 and vname(eargs(rs[0])[1]) == 'None', E, label + ': offered to the handler once, without a sender')
            if len(rs) != 1:
                continue
            r = eres(rs[0])
            okv = payload(r, 'Ok')
            for (a, b), fs2 in c.tablef(fs[0], [c.d_var(r, 'Result'), c.d_var(okv, 'Option')]):
                wants = [rc]
                lab = label + (': handler fails' if a == 'Err' else ': accepted' if b == 'Some' else ': declined')
                if a == 'Ok' and b == 'Some':
                    wants.append(Want('enters the backlog byte for byte under its key, for max_transmissions datagrams', lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'backlog_add') and eargs(x)[0] is mk('k', 'custom_broadcasts')
                                      and eargs(x)[1] is payload(okv, 'Some') and eargs(x)[2] is data and eargs(x)[3] is nz(S('config', 'max_transmissions'))))
                expect(c, E, lab, eff, wants, None, p, fs2[0])
                if a == 'Err':
                    c.ob(errname(p) == 'CustomBroadcast', E, lab + ': reported')
                else:
                    v = payload(p.ret, 'Ok')
                    c.ob(vname(p.ret) == 'Ok' and v is not None and c.always(fs2, v) is (b == 'Some'), E, lab + ': told apart by the result')
                only(c, E, lab, fin, ('custom_broadcasts',) if a == 'Ok' and b == 'Some' else ())


@rule('I.send', 'C02 C05 C07 C08 C15 C16 C17 C18 C19',
      'announce sends one Announce to the given identity; gossip one Gossip to each of at most num_indirect_probes active members; broadcast (only with items pending) one Broadcast to each of at most '
      'num_indirect_probes eligible active members until the backlog is drained; nothing else changes', floor=40)
def sends(c):
    E = 'Foca::announce'
    dst = c.param(E, 1)
    for p in c.run(E, 'foca'):
        w = w_send('one Announce to the given identity', dst, 'Announce')
        expect(c, E, 'announcing', effects(c, p), [w], None, p)
        only(c, E, 'announcing', c.final(p), ('updates', 'custom_broadcasts'))
        result(c, E, 'announcing', p, [w.hit] if w.hit is not None else [])
    active = lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)]
    E = 'Foca::gossip'
    for p in c.run(E, 'foca'):
        fan = w_fan('members are told', lambda x: True)
        expect(c, E, 'gossiping', effects(c, p), [fan], None, p)
        only(c, E, 'gossiping', c.final(p), ('updates', 'custom_broadcasts'))
        if fan.hit is not None:
            fan_ok(c, E, 'gossiping', p, fan.hit, nz(S('config', 'num_indirect_probes')), active, lambda m, ev: variant(m, 'Gossip'))
            done(c, E, 'gossiping', p, fan.hit)
    E = 'Foca::broadcast'
    Q = S('custom_broadcasts', 'flip')
    for p in c.run(E, 'foca'):
        eff = effects(c, p)
        fin = c.final(p)
        for (n,), fs in c.tablef(p.f, [[('empty', [(rel(app('len', Q), integer(0), 2), True)]), ('pending', [(rel(app('len', Q), integer(0), 4), True)])]]):
            label = 'nothing to broadcast' if n == 'empty' else 'broadcasting'
            only(c, E, label, fin, () if n == 'empty' else ('updates', 'custom_broadcasts'))
            if n == 'empty':
                expect(c, E, label, eff, [], None, p)
                c.ob(errname(p) == 'Ok', E, label + ': succeeds')
                continue
            fan = w_fan('members are sent the items', lambda x: True)
            expect(c, E, label, eff, [fan], None, p)
            if fan.hit is None:
                continue
            h = fan.hit
            fan_ok(c, E, label, p, h, nz(S('config', 'num_indirect_probes')),
                   lambda ph: active(ph) + [(app('should_add', get(ph, 'id')), True)],
                   lambda m, ev: variant(m, 'Broadcast'))
            # a datagram is only sent while something is left to be sent
            left = lambda sg, t: c.ev(sg, rel(app('len', get(t, 'flip')), integer(0), 4)) is True
            heads = {}
            for s in h.segs:
                for x, y in s.steps:
                    heads.setdefault(x, []).append((s, y))
            lev = h.loop
            ini = {pr.a[0]: pr.a[1] for pr in lev.a[3].a[0]} if lev is not None else {}

            def pending(sg, t):
                """t is not empty under the facts of sg"""
                if left(sg, t):
                    return True
                if t is S('custom_broadcasts'):
                    return any(left(f, t) for f in fs)
                return t in ini and pending(sg, ini[t]) and all(left(s2, y) for s2, y in heads.get(t, ()))
            for s in h.segs:
                for ev in s.ev:
                    if is_call(ev, 'send'):
                        c.ob(pending(s, cur(ev, 'custom_broadcasts')), E, label + ': goes on only while items are left', c.site(p, ev))
            drained = c.ev(p, rel(app('len', get(get(fin, 'custom_broadcasts'), 'flip')), integer(0), 2)) is True
            if h.tail is not None:
                c.ob(pending(p, cur(h.tail, 'custom_broadcasts')), E, label + ': goes on only while items are left', c.site(p, h.tail))
                if vname(p.ret) == 'Err':
                    c.ob(errval(p) is mk('res', evid_of(h.tail), 'err'), E, label + ': only a failure to encode is reported as an error', c.site(p, h.tail))
                else:
                    c.ob(drained, E, label + ': stops early only when the backlog is drained', c.site(p, h.tail))
            else:
                c.ob(vname(p.ret) == 'Ok' and (drained or exhausted(c, p, h)), E, label + ': every chosen member is sent the message', c.site(p, h.choose))
