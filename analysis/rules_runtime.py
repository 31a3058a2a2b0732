"""The bundled runtime, timer ordering, forwarding impls, construction and getters."""
from core import *
from proto import *
from rules_data import errname
import contracts

ACC = '<AccumulatingRuntime as Runtime>::'
BYTES = ('extend_from_slice', 'split', 'freeze', 'copy_from_slice', 'from', 'into', 'to_vec', 'to_owned', 'put_slice', 'put', 'from_iter', 'clear', 'split_to', 'take', 'reserve', 'new', 'with_capacity')


def all_writes(p):
    return [ev for ev in p.ev if is_write(ev) and wroot(ev) is SELF]


def queue_push(c, E, p, label):
    """(queue field, pushed value) of the only queue this path appends to"""
    ws = [w for w in all_writes(p) if w.a[2].op == 'push']
    fin = c.final(p)
    ok = len(ws) == 1 and len(wfields(ws[0])) == 1 and ws[0].a[2].a[0] is S(wfields(ws[0])[0])
    c.ob(ok, E, label + ': goes to the end of one queue')
    if not ok:
        return None, None
    q = wfields(ws[0])[0]
    c.ob(get(fin, q) is ws[0].a[2], E, label + ': the queue then holds what it held before and the new element, last')
    return q, ws[0].a[2].a[1]


def others_kept(c, E, label, fin, qs, but):
    for q in qs:
        if q not in but:
            c.ob(get(fin, q) is S(q), E, label + ': the other queues are left alone')


def v_fields(c):
    a = c.prog().adts[c.adtkey('AccumulatingRuntime')]
    return [f['name'] if isinstance(f, dict) else f for f in a['variants'][0]['fields']]


@rule('Q.queues', 'C08', 'AccumulatingRuntime appends every notification (converted variant by variant), timer and datagram (byte for byte, with its destination) to a queue of its own, '
      'and hands each queue out first in, first out, nothing else touching it', floor=40)
def queues(c):
    q = {}
    for cfg in ('default', 'codecs'):
        E = ACC + 'notify'
        n = c.param(E, 1, cfg)
        key = c.prog(cfg).find(E)[0]['key']
        names = c.engine('leaf', cfg).p.variants(c.adtkey('Notification'))
        seen = set()
        for p in c.run(E, 'leaf', cfg):
            f, v = queue_push(c, E, p, 'a notification')
            if f is None:
                continue
            q['notify'] = f
            vs = [x for x in names if c.ev(p, c.isv(n, 'Notification', x)) is not False]
            c.ob(len(vs) == 1, E, 'each kind is told apart')
            if len(vs) != 1:
                continue
            seen.add(vs[0])
            want = [mk('fld', mk('as', n, vs[0]), str(i)) for i in range(len(v.a[3]))] if v.op == 'adt' else None
            c.ob(v.op == 'adt' and v.a[1] == vs[0] and list(v.a[3]) == want, E, vs[0] + ': is queued as itself, with the very same content')
        c.ob(seen == set(names), E, 'every kind of notification is queued')
    E = ACC + 'submit_after'
    for p in c.run(E, 'leaf'):
        f, v = queue_push(c, E, p, 'a timer')
        q['schedule'] = f
        if v is not None:
            c.ob(v.op == 'tup' and set(v.a[0]) == {c.param(E, 1), c.param(E, 2)}, E, 'a timer is queued as given, with the delay given')
    E = ACC + 'send_to'
    data = c.param(E, 2)
    for p in c.run(E, 'leaf'):
        f, v = queue_push(c, E, p, 'a datagram')
        q['send'] = f
        if v is None:
            continue
        c.ob(v.op == 'tup' and v.a[0][0] is c.param(E, 1), E, 'a datagram is queued for the destination given')
        body = v.a[0][1] if v.op == 'tup' else v
        fin = c.final(p)
        # (a buffer kept between calls is empty between calls)
        shared = {f for f in v_fields(c) if get(fin, f) is not S(f) and f not in q.values()}
        if body.op == 'cat' and body.a[0].op == 'fld' and body.a[0].a[0] is SELF:
            b = body.a[0].a[1]
            shared.add(b)
            body = body.a[1]
        c.ob(body is data, E, 'a datagram is queued byte for byte')
        for b in shared:
            c.ob(get(fin, b).op == 'vempty', E, 'a shared buffer is left empty')
            for K in ('AccumulatingRuntime::new', '<AccumulatingRuntime as Default>::default'):
                for p2 in c.run(K, 'leaf'):
                    c.ob(get(p2.ret, b).op == 'vempty', K, 'a shared buffer starts empty')
    c.ob(len(set(q.values())) == 3 and None not in q.values(), ACC + '*', 'notifications, timers and datagrams have a queue each')
    for m, k in (('to_send', 'send'), ('to_schedule', 'schedule'), ('to_notify', 'notify')):
        E = 'AccumulatingRuntime::' + m
        f = q.get(k)
        kinds = set()
        for p in c.run(E, 'leaf'):
            fin = c.final(p)
            kinds.add(vname(p.ret))
            if vname(p.ret) == 'None':
                c.ob(c.ev(p, rel(app('len', S(f)), integer(0), 2)) is True, E, 'nothing is handed out only when the queue is empty')
                c.ob(fin is SELF, E, 'nothing handed out: nothing changes')
                continue
            v = p.ret.a[3][0] if vname(p.ret) == 'Some' else p.ret
            g = get(fin, f)
            okv = g.op == 'popd' and g.a[0] is S(f) and v.op == 'elem' and v.a[0] is S(f) and v.a[1] is g.a[1] and front(g.a[1])
            c.ob(okv, E, 'the oldest element is handed out and removed')
            others_kept(c, E, 'handing out', fin, [x for x in q.values() if x], (f,))
        c.ob('None' in kinds and len(kinds) > 1, E, 'both outcomes exist')
    for E in ('AccumulatingRuntime::new', '<AccumulatingRuntime as Default>::default'):
        for p in c.run(E, 'leaf'):
            for f in q.values():
                if f:
                    c.ob(get(p.ret, f).op == 'vempty', E, 'starts with empty queues')
    E = 'AccumulatingRuntime::backlog'
    for p in c.run(E, 'leaf'):
        want = integer(0)
        for f in q.values():
            want = add(want, app('len', S(f)))
        c.ob(p.ret is want and c.final(p) is SELF, E, 'counts the elements of every queue')


def front(ix):
    """is this the index of the first element?"""
    return ix is integer(0) or ix.op == 'ix' and ix.a[-1] == 'pop_front'


@rule('Q.timers', 'C12 C13', 'the order of timers is total and puts SendIndirectProbe before ProbeRandomMember', floor=60)
def timers(c):
    names = c.engine('leaf', 'default').p.variants(c.adtkey('Timer')) if c.prog() else []
    tabs = {}
    for E, unwrap in (('<Timer as Ord>::cmp', False), ('<Timer as PartialOrd>::partial_cmp', True)):
        a, b = SELF, c.param(E, 1)
        tab = {}
        for p in c.run(E, 'leaf'):
            for (x, y), _ in c.tablef(p.f, [c.d_var(a, 'Timer'), c.d_var(b, 'Timer')]):
                r = p.ret
                if unwrap and vname(r) == 'Some':
                    r = r.a[3][0]
                tab.setdefault((x, y), set()).add(order(r))
        tabs[E] = tab
        for x in names:
            for y in names:
                vs = tab.get((x, y), set())
                if x == y:
                    c.ob(vs and vs <= {'='} or None in vs and len(vs) == 1, E, 'timers of one kind compare as equal, or by content')
                    continue
                c.ob(len(vs) == 1 and vs <= {'<', '=', '>'}, E, 'the kind alone orders timers of different kinds')
                back = tab.get((y, x), set())
                c.ob({'<': {'>'}, '>': {'<'}, '=': {'='}}.get(next(iter(vs), None)) == back, E, 'the order is antisymmetric')
        c.ob(tab.get(('SendIndirectProbe', 'ProbeRandomMember')) == {'<'}, E, 'SendIndirectProbe comes before ProbeRandomMember')
    c.ob(len({str(sorted((k, sorted(map(str, v))) for k, v in t.items())) for t in tabs.values()}) == 1, 'Timer', 'Ord and PartialOrd agree')


def order(r):
    if r.op == 'app' and r.a[0] == 'ordv' and len(r.a) == 3 and r.a[1].op == 'int' and r.a[2].op == 'int':
        x, y = r.a[1].a[0], r.a[2].a[0]
        return '<' if x < y else '>' if x > y else '='
    if r.op == 'ordv' and all(x.op == 'int' for x in r.a[:2]):
        x, y = r.a[0].a[0], r.a[1].a[0]
        return '<' if x < y else '>' if x > y else '='
    return {'Less': '<', 'Greater': '>', 'Equal': '='}.get(vname(r))


def same_result(c, p, r):
    """what the path returns is r: r itself, or taken apart and put together again"""
    V = vname(p.ret)
    if p.ret is r or V not in ('Ok', 'Err'):
        return p.ret is r
    x = get(p.ret, '0')
    return c.ev(p, c.isv(r, 'Result', V)) is True and (x is UNIT or x is payload(r, V))


@rule('Q.forward', 'C07 C08 C17 C20', 'the impls of Runtime and Codec for &mut references forward every call, once, with the same arguments and result', floor=14)
def forward(c):
    for ty, tr, ms in (('&mut R', 'Runtime', ('notify', 'send_to', 'submit_after')), ('&mut C', 'Codec', ('encode_header', 'decode_header', 'encode_member', 'decode_member'))):
        for m in ms:
            E = '<%s as %s>::%s' % (ty, tr, m)
            bs = c.prog().find(E)
            if len(bs) != 1:
                raise Missing('%s: %d definitions' % (E, len(bs)))
            n = bs[0]['body']['argc']
            for p in c.run(E, 'leaf'):
                calls = [ev for ev in p.ev if ev.op == 'ev' and ev.a[0] == 'call']
                one = len(calls) == 1 and calls[0].a[1] == m
                c.ob(one, E, 'forwards the call once')
                if one:
                    given = [c.param(E, i) for i in range(1, n)]
                    c.ob([x for x in eargs(calls[0])][-len(given):] == given, E, 'forwards the arguments')
                    c.ob(same_result(c, p, eres(calls[0])), E, 'forwards the result')


@rule('N.new', 'C03 C04 C08 C09 C10 C13 C15 C16 C17', 'a new instance has the given identity, codec, rng, configuration and handler, incarnation 0, no members, no backlog, no probe, and is disconnected', floor=20)
def new(c):
    for E, ar in (('Foca::with_custom_broadcast', 5), ('Foca::new', 4)):
        for p in c.run(E, 'leaf'):
            v = p.ret
            c.ob(v.op == 'adt' and v.a[1] == 'Foca', E, 'builds an instance')
            for i, f in enumerate(('identity', 'config', 'rng', 'codec')):
                c.ob(get(v, f) is c.param(E, i), E, 'the given ' + f + ' is used')
            if ar == 5:
                c.ob(get(v, 'broadcast_handler') is c.param(E, 4), E, 'the given handler is used')
            c.ob(get(v, 'incarnation') is integer(0), E, 'starts at incarnation 0')
            c.ob(vname(get(v, 'connection_state')) == 'Disconnected', E, 'starts disconnected')
            c.ob(get(get(v, 'members'), 'inner').op == 'vempty', E, 'knows no member')
            for b in ('updates', 'custom_broadcasts'):
                for h in ('flip', 'flop'):
                    c.ob(get(get(v, b), h).op == 'vempty', E, 'starts with empty backlogs')
            pr = get(v, 'probe')
            c.ob(vname(get(pr, 'direct')) == 'None' and get(pr, 'indirect').op == 'vempty', E, 'no probe is in flight')


@rule('N.getters', 'C01 C08 C09 C10 C15 C16', 'the getters report the state as it is: identity, active records only, their number, every record, the number of pending items; none of them changes anything', floor=14)
def getters(c):
    me = lambda *n: S(*n)
    L = S('members', 'inner')
    for E, want in (('Foca::identity', S('identity')), ('Foca::num_members', S('members', 'num_active')),
                    ('Foca::updates_backlog', app('len', S('updates', 'flip'))), ('Foca::custom_broadcast_backlog', app('len', S('custom_broadcasts', 'flip')))):
        for p in c.run(E, 'leaf'):
            c.ob(p.ret is want, E, 'reports the current value')
            c.ob(c.final(p) is SELF and not p.ev, E, 'changes nothing')
    for E, active in (('Foca::iter_members', True), ('Foca::iter_membership_state', False)):
        for p in c.run(E, 'leaf'):
            layers = []
            it = p.ret
            while it.op == 'it' and it.a[0] in ('filter', 'map', 'filter_map'):
                layers.append(it)
                it = it.a[1]
            c.ob(it.op == 'it' and it.a[0] in ('slice', 'over') and over(c, p, it) is L, E, 'goes through every record')
            c.ob(c.final(p) is SELF and not [e for e in p.ev if is_write(e)], E, 'changes nothing')
            ok = listed(c, p, layers, active)
            c.ob(ok, E, 'lists the active records, all of them' if active else 'lists all records')


def over(c, p, it):
    return p.eng.models.desc_it(p.st, it).a[1]


def listed(c, p, layers, active):
    """the filters keep exactly the active (or all) records"""
    if not layers:
        return not active
    s = p.eng.models.nofind(p.st, p.ret, None, mk('fr', 'listed', 0), ())
    for k, v in s.f.d.items():
        if k[0] == 'b' and v is True and k[1].op == 'nofind' and k[1].a[1].op == 'ph' and k[1].a[1].a[0] is mk('fr', 'listed', 0):
            ph, cs = k[1].a[1], [(x.a[0] is TRUE, dict(x.a[1].a[0])) for x in k[1].a[2]]
            want = [(c.isv(get(ph, 'state'), 'State', 'Down'), False)] if active else []
            return exact(c, (ph, cs), want)
    return False



def same_value(c, p, v, x, key, cfg):
    """is v, under the facts of the path, the value x of the type `key`?"""
    if v is x:
        return True
    if v.op != 'adt' or v.a[0] != key:
        return False
    prog = c.prog(cfg)
    kind = prog.adts[key]['kind']
    if kind == 'struct':
        return all(part_same(a, mk('fld', x, n)) for a, n in zip(v.a[3], [f['name'] for f in prog.adts[key]['variants'][0]['fields']]))
    vs = [n for n in prog.variants(key) if c.ev(p, mk('isv', x, key, n)) is not False]
    if vs != [v.a[1]]:
        return False
    names = [f['name'] for y in prog.adts[key]['variants'] if y['name'] == v.a[1] for f in y['fields']]
    return all(part_same(a, mk('fld', mk('as', x, v.a[1]), n)) for a, n in zip(v.a[3], names))


def part_same(a, b):
    return a is b


def structural(c, types):
    """Clone gives an equal value and == compares every part, for the given types"""
    for cfg in ('default', 'codecs'):
        prog = c.prog(cfg)
        for ty in types:
            key = c.adtkey(ty)
            E = '<%s as Clone>::clone' % ty
            for b in prog.find(E):
                if b.get('derived'):
                    c.ob(True, E, 'derived')
                for p in c.run(E, 'leaf', cfg):
                    c.ob(same_value(c, p, p.ret, SELF, key, cfg) and not [e for e in p.ev if is_write(e)], E, 'the copy is equal to the original')
            for m, pos in (('eq', True), ('ne', False)):
                E = '<%s as PartialEq>::%s' % (ty, m)
                for b in prog.find(E):
                    if b.get('derived'):
                        c.ob(True, E, 'derived')
                        continue
                    compares(c, E, ty, key, cfg, pos)


def compares(c, E, ty, key, cfg, pos):
    prog = c.prog(cfg)
    a, b = SELF, c.param(E, 1, cfg)
    adt_ = prog.adts[key]
    for p in c.run(E, 'leaf', cfg):
        r = p.ret
        if adt_['kind'] == 'struct':
            cases = [((None, None), [p.f])]
        else:
            dim = lambda x: [(v['name'], [(mk('isv', x, key, v['name']), True)]) for v in adt_['variants']]
            cases = c.tablef(p.f, [dim(a), dim(b)])
        for (x, y), fs in cases:
            for f in fs:
                if x != y:
                    c.ob(c.ev(f, r) is (not pos), E, 'values of different kinds are unequal')
                    continue
                parts = [z['fields'] for z in adt_['variants'] if x is None or z['name'] == x][0]
                at = lambda v, n: mk('fld', v if x is None else mk('as', v, x), n)
                pairs = [c.eq(at(a, z['name']), at(b, z['name'])) for z in parts]
                for g in c.consistent(f, [(t, True) for t in pairs]):
                    c.ob(c.ev(g, r) is pos, E, 'values with equal parts are equal')
                for i, t in enumerate(pairs):
                    for g in c.consistent(f, [(t, False)]):
                        c.ob(c.ev(g, r) is (not pos), E, 'values with an unequal part are unequal')


MEMBER, MESSAGE = ('Member', 'State'), ('Header', 'Message')


@rule('V.members', 'C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C13 C14 C15', 'copying a record gives an equal record, and records are equal iff all their parts are', floor=8)
def v_members(c):
    structural(c, MEMBER)


@rule('V.messages', 'C07 C08 C12 C16 C18', 'copying a header or a message gives an equal one, and two of them are equal iff all their parts are', floor=8)
def v_messages(c):
    structural(c, MESSAGE)


@rule('V.events', 'C02 C03 C08 C10 C11 C12 C13', 'copying a value of any other type of the crate (timers, notifications, connection state, configuration) gives an equal one, '
      'and two of them are equal iff all their parts are', floor=14)
def v_events(c):
    skip = set(MEMBER + MESSAGE) | {'Entry', 'Error'}       # an entry has an order of its own (B.order); errors are compared by users only
    tys = {}
    for cfg in ('default', 'codecs'):
        for b in c.prog(cfg).local:
            if b.get('impl_trait') and b['name'] in ('eq', 'clone') and b.get('self_adt'):
                n = b['self_adt'].split('::')[-1]
                if n not in skip and not b['self_adt'].startswith('foca::codec::'):
                    tys[n] = 1
    structural(c, tys)
