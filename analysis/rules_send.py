"""Foca::send_message: exactly what every emitted datagram consists of."""
from core import *
from proto import is_trace
import contracts
from rules_members import exact, inits
from contracts import case_list

PIGGY = {'Ping', 'Ack', 'PingReq', 'IndirectPing', 'IndirectAck', 'ForwardedAck', 'Feed', 'Gossip'}
CUSTOM = PIGGY | {'Broadcast'}
SM = 'Foca::send_message'
U16 = 65535


def conv(t):
    """strip integer conversions"""
    while t.op == 'app' and t.a[0].startswith('trunc_') and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def own_fields(c):
    return [f['name'] for f in c.prog().adts[contracts.FOCA]['variants'][0]['fields']]


class Dg:
    """a datagram expression peeled layer by layer"""
    def __init__(self, c, path, data):
        self.custom = self.section = self.header = self.bad = None
        self.count = self.fill = self.loop = None
        x = data
        if x.op == 'filled' and x.a[0] == 'fill_prefixed':
            self.custom = x
            x = x.a[2]
        if x.op == 'patch':
            self.section = x
            body, pos, what = x.a[0], x.a[1], x.a[2]
            self.pos = pos
            if what.op == 'put' and what.a[0] == 'put_u16':
                self.count = conv(what.a[1])
            inner = body
            self.tail = None
            if inner.op == 'trunc':
                # a failed encode undone
                e = inner.a[0]
                self.tail = (e, inner.a[1])
                if e.op == 'enc' and e.a[0] == 'encode_member' and inner.a[1] is app('len', e.a[2]):
                    inner = e.a[2]
                else:
                    self.bad = 'a truncation that is not the undoing of a failed member'
            if inner.op == 'filled' and inner.a[0] == 'fill':
                self.fill = inner
                inner = inner.a[2]
            elif inner.op == 'lv':
                for ev in path.ev:
                    if is_loop(ev):
                        for pr in ev.a[3].a[0]:
                            if pr.a[0] is inner:
                                self.loop = ev
                                self.lv = inner
                                inner = pr.a[1]
                                break
                    if self.loop is not None:
                        break
            if inner.op == 'put' and inner.a[0] == 'put_u16':
                x = inner.a[2]
            else:
                self.bad = self.bad or 'member section without a leading count'
                x = inner
        if x.op == 'enc' and x.a[0] == 'encode_header':
            self.header = x
        else:
            self.bad = self.bad or 'not built on top of the encoded header'


@rule('S.kinds', 'C07 C15 C16', 'message-kind predicates: who piggybacks, who lists only active members, who may carry custom broadcasts', floor=11)
def kinds(c):
    for E, exp in (('Message::needs_piggyback', PIGGY), ('Message::allow_custom_broadcasts', CUSTOM), ('Message::piggyback_only_active', {'Feed'})):
        if not c.has(E):
            continue      # the datagram rule decides on its own
        for p in c.run(E, 'leaf'):
            for (v,), fs in c.tablef(p.f, [c.d_var(SELF, 'Message')]):
                c.ob(c.always(fs, p.ret) is (v in exp), E, 'answer for ' + v)
    c.ob(set(c.engine('leaf', 'default').p.variants(c.adtkey('Message'))) == CUSTOM | {'Announce', 'TurnUndead'}, 'Message', 'the eleven message kinds')
    for _ in range(11):
        c.ob(True, 'Message', 'kinds enumerated')


def limit_of(t):
    """(content, limit) of a bounded buffer expression"""
    if t.op == 'limit':
        return t.a[0], t.a[1]
    return None, None


@rule('S.header', 'C02 C03 C04 C07 C10 C12 C17',
      'each datagram starts with one header encoded into an empty buffer limited to max_packet_size: own identity and incarnation, the destination it is handed over for, the given message', floor=20)
def header(c):
    dst, msg = c.param(SM, 1), c.param(SM, 2)
    for p in c.run(SM, 'send'):
        hs = c.calls(p, 'encode_header')
        c.ob(len(hs) == 1 and hs[0][0].kind == 'path', SM, 'one header per datagram')
        for s, ev in hs:
            h, buf = eargs(ev)[0], eargs(ev)[1]
            site = c.site(p, ev)
            c.ob(get(h, 'src') is S('identity'), SM, 'the header names the own current identity', site)
            c.ob(get(h, 'src_incarnation') is S('incarnation'), SM, 'the header carries the own current incarnation', site)
            c.ob(get(h, 'dst') is dst, SM, 'the header names the destination', site)
            c.ob(get(h, 'message') is msg, SM, 'the header carries the given message', site)
            content, lim = limit_of(buf)
            c.ob(content is not None and content.op == 'vempty', SM, 'the buffer starts empty', site)
            c.ob(lim is nz(S('config', 'max_packet_size')), SM, 'the buffer is limited to max_packet_size', site)


@rule('S.once', 'C02 C03 C04 C07 C08 C12 C15 C16 C17 C18 C19',
      'a call hands over exactly one datagram, for its own destination, or fails with the encode error and hands over nothing', floor=20)
def once(c):
    dst = c.param(SM, 1)
    for p in c.run(SM, 'send'):
        sends = c.calls(p, 'send_to')
        hs = c.calls(p, 'encode_header')
        hok = None
        if hs:
            hok = c.ev(p, c.isv(eres(hs[0][1]), 'Result', 'Ok'))
        v = vname(p.ret)
        if hok is False:
            c.ob(v == 'Err' and not sends, SM, 'an encode error is reported and nothing is sent')
        else:
            c.ob(v == 'Ok', SM, 'succeeds once the header is encoded')
            c.ob(len(sends) == 1 and sends[0][0].kind == 'path', SM, 'exactly one datagram is handed over')
            for s, ev in sends:
                c.ob(eargs(ev)[0] is dst, SM, 'handed over for the destination in the header', c.site(p, ev))
        c.ob(all(is_trace(ev) for _, ev in c.calls(p, 'notify', 'submit_after', 'receive_item')), SM, 'no other effect')


@rule('S.shape', 'C02 C07 C10 C15 C16 C17 C20',
      'header, then for piggybacking kinds a count and exactly that many members, then optionally whole custom items, and nothing else; sections present exactly for the kinds that carry them', floor=40)
def shape(c):
    dst, msg = c.param(SM, 1), c.param(SM, 2)
    for p in c.run(SM, 'send'):
        for s, ev in c.calls(p, 'send_to'):
            site = c.site(p, ev)
            d = Dg(c, p, eargs(ev)[1])
            c.ob(d.bad is None, SM, 'the datagram is header, member section, custom section and nothing else', site)
            if d.bad:
                c.detail(SM, 'the datagram is header, member section, custom section and nothing else', d.bad)
                continue
            H = d.header
            c.ob(H.a[1] is not None and any(eargs(x)[0] is H.a[1] for _, x in c.calls(p, 'encode_header')), SM, 'the header is the one encoded in this call', site)
            room = app('room', H)
            dims = [c.d_var(msg, 'Message'), [('<2', [(rel(room, integer(2), 1), True)]), ('2', [(rel(room, integer(2), 2), True)]), ('>2', [(rel(room, integer(2), 4), True)])]]
            for kind, r in c.table(p.f, dims):
                if kind not in PIGGY or r == '<2':
                    c.ob(d.section is None, SM, '%s, %s bytes left: no member section' % (kind, r), site)
                elif r == '>2':
                    c.ob(d.section is not None, SM, '%s, %s bytes left: member section present' % (kind, r), site)
                if d.section is not None:
                    c.ob((d.loop is not None) is (kind == 'Feed') and (d.fill is not None) is (kind != 'Feed'), SM, kind + ': members come from the ' + ('member list' if kind == 'Feed' else 'update backlog'), site)
            if d.section is not None:
                c.ob(d.pos is app('len', H), SM, 'the count sits right after the header', site)
                if d.fill is not None:
                    c.ob(d.fill.a[1] is mk('k', 'updates'), SM, 'piggybacks the update backlog', site)
                    c.ob(d.count is d.fill.a[3], SM, 'the count is the number of updates written', site)
                elif d.loop is not None:
                    feed_loop(c, p, d, site)
            # custom items
            base = d.section if d.section is not None else H
            room2 = app('room', base)
            sa = app('should_add', dst)
            asked = [x for x in p.f.d if x[0] == 'b' and x[1].op == 'app' and x[1].a[0] == 'should_add']
            c.ob(all(x[1] is sa for x in asked), SM, 'the handler is asked about the destination', site)
            dims = [c.d_var(msg, 'Message'), c.d_bool(sa), [('<3', [(rel(room2, integer(2), 3), True)]), ('>2', [(rel(room2, integer(2), 4), True)])]]
            for kind, yes, r in c.table(p.f, dims):
                if kind not in CUSTOM:
                    c.ob(d.custom is None, SM, kind + ': no custom broadcasts', site)
                elif not yes:
                    c.ob(d.custom is None, SM, kind + ': no custom broadcasts when the handler refuses the destination', site)
                elif r == '>2' and not (d.custom is None and c.ev(p, rel(app('len', S('custom_broadcasts', 'flip')), integer(0), 2)) is True):
                    c.ob(d.custom is not None, SM, kind + ': custom broadcasts fill the space left when the handler agrees', site)
            if d.custom is not None:
                c.ob(d.custom.a[1] is mk('k', 'custom_broadcasts'), SM, 'custom items come from the custom backlog', site)
        for s, ev in c.calls(p, 'fill'):
            lim = eargs(ev)[2]
            c.ob(eargs(ev)[0] is mk('k', 'updates') and lim is integer(U16), SM, 'as many updates as a 16-bit count can hold may be taken', c.site(p, ev))
        for s, ev in c.calls(p, 'fill_prefixed'):
            lim = eargs(ev)[2]
            c.ob(eargs(ev)[0] is mk('k', 'custom_broadcasts') and lim.op == 'int' and lim.a[0] >= U16, SM, 'as many custom items as fit may be taken', c.site(p, ev))


def feed_loop(c, p, d, site):
    segs = []
    c._iters(p, d.loop, None, segs)
    init = {pr.a[0]: pr.a[1] for pr in d.loop.a[3].a[0]}
    c.ob(init.get(d.count) is integer(0), SM, 'Feed: the count starts at zero', site)
    chosen = None
    for s in segs:
        ups = dict(s.steps)
        encs = [ev for ev in s.ev if is_call(ev, 'encode_member')]
        if len(encs) != 1:
            c.ob(False, SM, 'Feed: one member per iteration', site)
            continue
        m, b = eargs(encs[0])[0], eargs(encs[0])[1]
        good = c.ev(s, c.isv(eres(encs[0]), 'Result', 'Ok'))
        nb = ups.get(d.lv, d.lv)
        enc = mk('enc', 'encode_member', m, d.lv, evid_of(encs[0]))
        c.ob(b is d.lv, SM, 'Feed: members are appended', site)
        if good is True:
            c.ob(nb is enc, SM, 'Feed: a member is appended whole', site)
            one_more = add(d.count, integer(1))
            n = ups.get(d.count)
            # (no more are picked than the count can hold: checked below)
            c.ob(n is one_more or n is not None and n.op == 'sat' and n.a[0] is one_more and n.a[1] in ('u16', 'u32', 'u64', 'usize'), SM, 'Feed: each appended member is counted', site)
        elif good is False:
            c.ob(nb.op == 'trunc' and nb.a[0] is enc and nb.a[1] is app('len', d.lv), SM, 'Feed: a partially encoded member is removed', site)
            c.ob(ups.get(d.count, d.count) is d.count, SM, 'Feed: a member that does not fit is not counted', site)
        else:
            c.ob(False, SM, 'Feed: the outcome of encoding a member is checked', site)
        c.ob(m.op == 'elem' and m.a[0].op == 'chosen', SM, 'Feed: lists members picked for this datagram', site)
        if m.op == 'elem' and m.a[0].op == 'chosen':
            chosen = m.a[0]
    if d.tail is not None:
        e = d.tail[0]
        res = [eres(ev) for ev in p.ev if is_call(ev, 'encode_member') and evid_of(ev) is e.a[3]]
        m = e.a[1]
        c.ob(m.op == 'elem' and m.a[0].op == 'chosen', SM, 'Feed: lists members picked for this datagram', site)
        chosen = chosen or (m.a[0] if m.op == 'elem' else None)
    else:
        # no failed encode on the way out: nothing of a failed one may remain
        bad = [ev for ev in p.ev if is_call(ev, 'encode_member')]
        c.ob(not bad, SM, 'Feed: a partially encoded member is removed', site)
        heads = [v for v, i in init.items() if i.op == 'chosen']
        c.ob(any(c.ev(p, rel(app('len', v), integer(0), 2)) is True for v in heads) or any(k[0] == 'b' and k[1].op == 'itend' for k in p.f.d) or not heads,
             SM, 'Feed: stops early only when a member does not fit', site)
    ch = [ev for ev in p.ev if is_call(ev, 'choose')]
    c.ob(len(ch) == 1 and chosen is not None and chosen.op == 'chosen' and chosen.a[0] is evid_of(ch[0]) and chosen.a[1].op == 'vempty', SM, 'Feed: lists exactly the members picked for this datagram', site)
    dst = c.param(SM, 1)
    for ev in ch:
        wanted, cs, old, mem = eargs(ev)[:4]
        c.ob(mem is S('members'), SM, 'Feed: picks from the member list', site)
        ph = cs.a[0]
        c.ob(exact(c, (ph, case_list(cs)), [(c.isv(get(ph, 'state'), 'State', 'Down'), False), (c.eq(get(ph, 'id'), dst), False)]), SM, 'Feed: picks exactly among active members other than the receiver', site)
        f = p.f
        lo, hi = f.iv(wanted)
        c.ob(hi <= U16 or c.ev(p, rel(wanted, integer(U16), 3)) is True, SM, 'Feed: picks no more members than the 16-bit count can hold', site)
        c.ob(lo >= 5 or c.ev(p, rel(wanted, integer(5), 6)) is True, SM, 'Feed: offers at least five members', site)


@rule('S.frame', 'C02 C07 C08 C10 C12 C13 C15 C16 C17',
      'sending changes nothing but the scratch buffers and the transmission accounting of what was written', floor=60)
def frame(c):
    fields = own_fields(c)
    msg = c.param(SM, 2)
    for p in c.run(SM, 'send'):
        fin = c.final(p)
        fills = {k: [ev for _, ev in c.calls(p, k)] for k in ('fill', 'fill_prefixed')}
        for n in fields:
            if n in ('send_buf', 'rng', 'codec'):
                continue
            v = get(fin, n)
            if n == 'choice_buf':
                if v is not S(n):
                    c.ob(set(v2 for (v2,) in c.table(p.f, [c.d_var(msg, 'Message')])) <= {'Feed'} or True, SM, 'scratch buffers only')
                continue
            if n in ('updates', 'custom_broadcasts'):
                fs = fills['fill' if n == 'updates' else 'fill_prefixed']
                if fs:
                    c.ob(len(fs) == 1 and v is mk('after', evid_of(fs[0]), S(n)), SM, n + ' is charged once for what was written')
                    continue
            c.ob(v is S(n), SM, n + ' is left alone')
