"""The dissemination backlog: Broadcasts::{add_or_replace, fill, ...}."""
from core import *
import contracts
from rules_members import nofinds, nofind_cases, exact, inits

BASE = 'C15 C16 '


def cases_of(t, keep=True):
    """(placeholder, [(kept, facts)]) of a retained(..) term"""
    return t.a[1], [((x.a[0] is TRUE) is keep, dict(x.a[1].a[0])) for x in t.a[2]]


def parts(v):
    """multiset reading of a collection expression: (atoms, added, removed)"""
    atoms, added, removed = [], [], []
    st = [v]
    while st:
        x = st.pop()
        if x.op == 'popd':
            removed.append(x.a[1])
            st.append(x.a[0])
        elif x.op == 'push':
            added.append(x.a[1])
            st.append(x.a[0])
        elif x.op == 'cat':
            st += [x.a[0], x.a[1]]
        elif x.op == 'perm':
            st.append(x.a[0])
        elif x.op == 'vempty':
            pass
        else:
            atoms.append(x)
    return sorted(atoms, key=lambda t: t.n), added, removed


@rule('B.add', 'C02 C03 C04 C10 C15 C16',
      'Broadcasts::add_or_replace drops exactly the entries the new key invalidates and enqueues exactly the given bytes with the full transmission budget', floor=4)
def add_rule(c):
    E = 'Broadcasts::add_or_replace'
    item, data, mx = c.param(E, 1), c.param(E, 2), c.param(E, 3)
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        c.ob(get(fin, 'flop') is S('flop'), E, 'the spare heap is not touched')
        ats, added, removed = parts(get(fin, 'flip'))
        c.ob(len(added) == 1 and not removed, E, 'exactly one entry is enqueued')
        if len(added) == 1:
            n = added[0]
            c.ob(get(n, 'item') is item, E, 'the entry is keyed by the given key')
            c.ob(get(n, 'data') is data, E, 'the entry holds exactly the given bytes')
            c.ob(get(n, 'remaining_tx') is mx, E, 'the entry may be transmitted max_tx times')
        good = False
        stays = lambda ph: [(app('invalidates', item, get(ph, 'item')), False)]
        if len(ats) == 1:
            t = ats[0]
            if t.op == 'collect' and len(t.a) > 1:
                t = t.a[1]
            if t.op == 'retained' and t.a[0] is S('flip'):
                ph, cs = cases_of(t)
                good = exact(c, (ph, cs), stays(ph))
            elif t is S('flip'):
                # nothing there to drop
                for nf in nofinds(p):
                    src, cs = nf.a[0], nofind_cases(nf)
                    if src is mk('it', 'over', S('flip')) and exact(c, cs, [(k, not v) for k, v in stays(cs[0])]):
                        good = True
        c.ob(good, E, 'keeps exactly the entries the new key does not invalidate')


@rule('B.key', 'C02 C15 C16', 'member updates are keyed by address: one invalidates another iff the addresses are equal', floor=1)
def key_rule(c):
    bs = [b for b in c.prog().local if c.prog().nice(b).endswith(' as Invalidates>::invalidates') and '[u8]' not in c.prog().nice(b)]
    if len(bs) != 1:
        raise Missing('the member update key: %d definitions' % len(bs))
    E = c.prog().nice(bs[0])
    for p in c.run(E, 'leaf'):
        a, b = mk('fld', c.param(E, 0), '0'), mk('fld', c.param(E, 1), '0')
        for (v,), fs in c.tablef(p.f, [c.d_bool(c.eq(a, b))]):
            c.ob(c.always(fs, p.ret) is v, E, 'invalidates iff the addresses are equal')


@rule('B.order', 'C15', 'backlog entries are ordered by transmissions remaining first', floor=3)
def order(c):
    p0 = c.prog()
    E = '<Entry as Ord>::cmp'
    for E in ('<Entry as Ord>::cmp', '<Entry as PartialOrd>::partial_cmp'):
        o = c.param(E, 1)
        for p in c.run(E, 'leaf'):
            r = p.ret
            if r.op == 'adt' and r.a[1] == 'Some':
                r = r.a[3][0]
            for (v,), fs in c.tablef(p.f, [c.d_rel(S('remaining_tx'), get(o, 'remaining_tx'))]):
                if v == '=':
                    continue
                ok_ = False
                if r.op == 'ordv':
                    ok_ = c.always(fs, rel(r.a[0], r.a[1], {'<': 1, '>': 4}[v])) is True
                elif r.op == 'adt':
                    ok_ = r.a[1] == {'<': 'Less', '>': 'Greater'}[v]
                c.ob(ok_, E, 'remaining_tx %s other: ordered accordingly' % v)


@rule('B.report', 'C07 C15 C16', 'len()/is_empty() and the public backlog accessors report the pending entries', floor=4)
def report(c):
    for E, exp in (('Broadcasts::len', app('len', S('flip'))), ('Foca::updates_backlog', app('len', S('updates', 'flip'))),
                   ('Foca::custom_broadcast_backlog', app('len', S('custom_broadcasts', 'flip')))):
        for p in c.run(E, 'leaf'):
            c.ob(p.ret is exp, E, 'reports the number of pending entries')
    for p in c.run('Broadcasts::is_empty', 'leaf'):
        for (v,), fs in c.tablef(p.f, [c.d_rel(app('len', S('flip')), integer(0))]):
            c.ob(c.always(fs, p.ret) is (v == '='), 'Broadcasts::is_empty', 'true iff nothing is pending')


def put_events(s):
    return [ev for ev in s.ev if ev.op == 'ev' and ev.a[0] == 'call' and (ev.a[1].startswith('put_') or ev.a[1] == 'put')]


def fill_rule(c, E, prefixed):
    buffer, limit = c.param(E, 1), c.param(E, 2)
    ps = c.run(E, 'leaf')
    for p in ps:
        # (a loop that never changes anything runs no iteration that matters)
        loops = [ev for ev in p.ev if is_loop(ev) and (ev.a[3].a[0] or any(events(it.a[0]) for it in ev.a[2].a[0]))]
        fin = c.final(p)
        outside = [ev for ev in put_events(Seg(p, p.ev, p.f, 'path'))]
        c.ob(not outside, E, 'bytes are written only while taking an entry', )
        if not loops:
            c.ob(c.ev(p, rel(app('len', S('flip')), integer(0), 2)) is True or c.ev(p, rel(app('room', buffer), integer(0), 2)) is True
                 or c.ev(p, rel(limit, integer(0), 2)) is True, E, 'gives up early only when nothing is pending or nothing may be taken')
            c.ob(p.ret is integer(0), E, 'nothing taken: reports 0')
            ats, added, removed = parts(get(fin, 'flip'))
            ats2, a2, r2 = parts(get(fin, 'flop'))
            c.ob(not removed and not added and not r2 and not a2 and S('flip') in ats + ats2, E, 'nothing taken: the backlog is unchanged')
            c.ob(S('flip') in ats, E, 'pending entries end up in the reported heap')
            continue
        if len(loops) != 1:
            c.ob(False, E, 'one pass over the backlog')
            continue
        lev = loops[0]
        segs = []
        c._iters(p, lev, None, segs)
        init = {pr.a[0]: pr.a[1] for pr in lev.a[3].a[0]}
        heads = [v for v, i in init.items() if i is S('flip')]
        spare = [v for v, i in init.items() if i is S('flop') or i.op == 'vempty']
        if len(heads) != 1:
            c.ob(False, E, 'entries are taken from the pending heap')
            continue
        flip = heads[0]
        # --- every iteration
        taken_inc, ctr_dec = None, None
        for s in segs:
            ups = dict(s.steps)
            bufs = [v for v, i in init.items() if i is buffer]
            room = app('room', bufs[0]) if bufs else app('room', buffer)
            ats, added, removed = parts(ups.get(flip, flip))
            if len(removed) != 1 or ats != [flip]:
                c.ob(False, E, 'each iteration takes exactly one entry off the heap')
                continue
            c.ob(not added, E, 'an entry handled in this call is not offered again')
            nodes = {t for k in s.f.d for t in subterms(k[1]) if t.op == 'elem' and t.a[1] is removed[0]}
            for ev in s.ev:
                nodes |= {t for t in subterms(ev) if t.op == 'elem' and t.a[1] is removed[0]}
            if len(nodes) != 1:
                c.ob(False, E, 'the entry taken is identified')
                continue
            n = nodes.pop()
            data, rem = mk('fld', n, 'data'), mk('fld', n, 'remaining_tx')
            # (whatever is queued may be sent at least once: P.none, B.add)
            if not c.consistent(s.f, [(rel(rem, integer(0), 4), True)]):
                continue
            # (and an item that goes behind a 16-bit length has one that fits: I.item, D.custom)
            if prefixed and not c.consistent(s.f, [(rel(app('len', data), integer(65535), 3), True)]):
                continue
            need = add(app('len', data), integer(2)) if prefixed else app('len', data)
            fits = c.ev(s, rel(room, need, 6))
            puts = put_events(s)
            if fits is None:
                # the decision must be determined by whether the entry fits
                c.ob(False, E, 'an entry is taken iff it fits the space left', c.site(p, puts[0]) if puts else None)
                continue
            pushed = []
            for v in spare:
                a2, ad2, r2 = parts(ups.get(v, v))
                c.ob(not r2 and a2 == [v], E, 'entries set aside stay set aside')
                pushed += ad2
            okput = ['put_slice' if ev.a[1] == 'put' else ev.a[1] for ev in puts] == (['put_u16', 'put_slice'] if prefixed else ['put_slice'])
            if fits:
                c.ob(okput, E, 'an entry that fits is written' + (' behind its 16-bit length' if prefixed else '') + ' exactly once')
                if okput:
                    c.ob(eargs(puts[-1])[1] is data, E, 'exactly the entry\'s bytes are written')
                    if prefixed:
                        v = eargs(puts[0])[1]
                        c.ob(v is app('trunc_u16', app('len', data)) or v is app('len', data), E, 'the prefix is the entry\'s length')
                left = add(rem, integer(-1))
            else:
                c.ob(not puts, E, 'an entry that does not fit is not written')
                left = rem
            # saturating at zero is no different (something was left before)
            sats = {t for k in s.f.d for x in k[1:] if isinstance(x, T) for t in subterms(x) if t.op == 'sat' and t.a[0] is left}
            same = {left} | sats
            left = sats.pop() if len(sats) == 1 else left
            some_left = bool(c.consistent(s.f, [(rel(left, integer(0), 4), True)]))
            none_left = bool(c.consistent(s.f, [(rel(rem, integer(0), 4), True), (rel(left, integer(0), 2), True)]))
            more = some_left if some_left is not none_left else None
            if True:
                if more is None:
                    c.ob(False, E, 'an entry is kept iff transmissions remain')
                elif more:
                    c.ob(len(pushed) == 1, E, 'an entry with transmissions left is kept')
                    for x in pushed:
                        c.ob(get(x, 'data') is data and get(x, 'item') is mk('fld', n, 'item'), E, 'a kept entry keeps its key and bytes')
                        c.ob(get(x, 'remaining_tx') in same, E, 'a kept entry loses one transmission iff it was written')
                else:
                    c.ob(not pushed, E, 'an entry without transmissions left is dropped')
            # counters
            incs = {v for v in init if init[v] is integer(0) and ups.get(v, v) is add(v, integer(1))}
            decs = {v for v in init if init[v] is limit and ups.get(v, v) is add(v, integer(-1))}
            same = {v for v in init if ups.get(v, v) is v}
            if fits:
                taken_inc = incs if taken_inc is None else taken_inc & incs
                ctr_dec = decs if ctr_dec is None else ctr_dec & decs
                bounded = any(c.ev(s, rel(v, limit, 1)) is True for v in incs) or any(c.ev(s, rel(v, integer(0), 4)) is True for v in decs)
                c.ob(bounded, E, 'at most max_items entries are taken')
            else:
                taken_inc = same if taken_inc is None else taken_inc & (same | {v for v in taken_inc if ups.get(v, v) is v})
                ctr_dec = same if ctr_dec is None else ctr_dec & (same | {v for v in ctr_dec if ups.get(v, v) is v})
        taken_inc, ctr_dec = taken_inc or set(), ctr_dec or set()
        taken_inc = {v for v in taken_inc if init[v] is integer(0)}
        ctr_dec = {v for v in ctr_dec if init[v] is limit}
        # --- the exit
        bufs = [v for v, i in init.items() if i is buffer]
        room = app('room', bufs[0]) if bufs else app('room', buffer)
        ats, added, removed = parts(get(fin, 'flip'))
        ats2, ad2, r2 = parts(get(fin, 'flop'))
        # an entry popped on the way out has to be put back
        c.ob(len(added) == len(removed) and not ad2 and not r2, E, 'no entry is lost when the pass ends')
        # (the spare heap is empty between calls)
        if S('flop') not in init.values():
            ats2 = [x for x in ats2 if x is not S('flop')]
        spare = [v for v in spare if v in ats or any(v in dict(s.steps) for s in segs)]
        # (nor does it matter where an empty heap ends up)
        drained = lambda x: c.ev(p, rel(app('len', x), integer(0), 2)) is True
        want = [x for x in [flip] + spare if not drained(x)]
        ats, ats2 = [x for x in ats if not drained(x)], [x for x in ats2 if not drained(x)]
        c.ob(ats == sorted(want, key=lambda t: t.n) and not ats2, E, 'entries set aside are pending again when the pass ends')
        done = c.ev(p, rel(room, integer(2 if prefixed else 0), 3)) is True or c.ev(p, rel(app('len', flip), integer(0), 2)) is True \
            or any(c.ev(p, rel(v, integer(0), 2)) is True or c.ev(p, rel(v, integer(0), 3)) is True for v in ctr_dec) \
            or any(c.ev(p, rel(v, limit, 6)) is True for v in taken_inc)
        c.ob(done, E, 'the pass ends only when nothing is left, nothing more fits or max_items were taken')
        r = p.ret
        c.ob(r in taken_inc or any(r is add(limit, v, -1) for v in ctr_dec), E, 'reports how many entries were written')


@rule('B.fill', 'C07 C15', 'Broadcasts::fill: greedy pass in priority order, whole entries only, one transmission charged per entry written, nothing lost', floor=20)
def fill(c):
    fill_rule(c, 'Broadcasts::fill', False)


@rule('B.fill_prefixed', 'C07 C16', 'Broadcasts::fill_with_len_prefix: the same pass with a 16-bit length before each entry', floor=20)
def fillp(c):
    fill_rule(c, 'Broadcasts::fill_with_len_prefix', True)


@rule('B.new', 'C15 C16', 'the backlog starts empty', floor=2)
def new(c):
    for p in c.run('Broadcasts::new', 'leaf'):
        c.ob(get(p.ret, 'flip').op == 'vempty', 'Broadcasts::new', 'nothing is pending')
        c.ob(get(p.ret, 'flop').op == 'vempty', 'Broadcasts::new', 'nothing is set aside')
