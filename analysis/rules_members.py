"""The record table: Member precedence, Members::apply*, next, remove, choosers."""
from core import *
import contracts

PREC = {('Alive', 'Alive'): '<', ('Alive', 'Suspect'): '<=', ('Alive', 'Down'): '<=>',
        ('Suspect', 'Alive'): '<', ('Suspect', 'Suspect'): '<', ('Suspect', 'Down'): '<=>',
        ('Down', 'Alive'): '', ('Down', 'Suspect'): '', ('Down', 'Down'): ''}


def wins(old, new, order):
    """SWIM precedence: does (new, inc') override (old, inc)?  order = inc vs inc'"""
    return order in PREC[(old, new)]


@rule('M.precedence', 'C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C15 C18',
      'Member::change_state is exactly SWIM 4.2 precedence and stores exactly the winning (state, incarnation)', floor=30)
def precedence(c):
    E = 'Member::change_state'
    ps = c.run(E, 'leaf')
    inc, stt = c.param(E, 1), c.param(E, 2)
    # accept either parameter order: tell them apart by their type
    b = c.prog().find(E)[0]['body']['locals']
    if 'State' in b[2]['ty']:
        inc, stt = stt, inc
    dims = [c.d_var(S('state'), 'State'), c.d_var(stt, 'State'), c.d_rel(S('incarnation'), inc)]
    covered = set()
    for p in ps:
        fin = c.final(p)
        for (old, new, o), fs in c.tablef(p.f, dims):
            covered.add((old, new, o))
            exp = wins(old, new, o)
            w = '(%s,i) <- (%s,j) with i %s j' % (old, new, o)
            r = c.always(fs, p.ret)
            c.ob(r is exp, E, w + (' is accepted' if exp else ' is refused'))
            if exp:
                c.ob(get(fin, 'state') is stt and get(fin, 'incarnation') is inc and get(fin, 'id') is S('id'), E, w + ' stores exactly the update')
            else:
                c.ob(fin is SELF, E, w + ' leaves the record untouched')
    c.ob(len(covered) == 27, E, 'all 27 cases are decided')


@rule('M.active', 'C01 C02 C03 C07 C08 C09 C11 C12 C14 C16 C19', 'a member is active iff its state is not Down', floor=4)
def active(c):
    E = 'Member::is_active'
    for p in c.run(E, 'leaf'):
        for (v,), fs in c.tablef(p.f, [c.d_var(S('state'), 'State')]):
            c.ob(c.always(fs, p.ret) is (v != 'Down'), E, 'is_active() for %s' % v)
    # Members::iter_active yields exactly the active records
    E = 'Members::iter_active'
    ps = c.run(E, 'leaf')
    for p in ps:
        good = False
        r = p.ret
        if r.op == 'it' and r.a[0] == 'filter':
            base = p.eng.models.desc_it(p.st, r.a[1])
            cs = filter_cases(c, p, r)
            ph = cs[0]
            good = base is mk('it', 'over', S('inner')) and exact(c, cs, [(c.isv(get(ph, 'state'), 'State', 'Down'), False)])
        c.ob(good, E, 'iterates over exactly the active records')


def filter_cases(c, p, it):
    e = p.eng
    st = State(dict(p.st.mem), Facts(), TR0)
    ph = mk('ph', mk('fr', 'filter', it.n))
    root = ('L', mk('fr', 'filter', it.n, 0), 0)
    r2 = ('L', mk('fr', 'filter', it.n, 1), 0)
    st.mem[root] = ph
    st.mem[r2] = mk('ref', root, ())
    out = []
    for s, v in e.call_value(st, it.a[2], [mk('ref', r2, ())], mk('fr', 'filter', it.n, 2), (), None):
        for truth in (True, False):
            for s2 in e.assume(s, v, truth):
                out.append((truth, dict(s2.f.d)))
    return ph, out


def nofind_cases(t):
    """(placeholder, [(truth, facts)]) of a nofind term"""
    return t.a[1], [(x.a[0] is TRUE, dict(x.a[1].a[0])) for x in t.a[2]]


def exact(c, cases, conj, fixed=()):
    """the predicate's truth table is exactly the conjunction conj (given fixed)"""
    ph, cs = cases
    if not cs:
        return False
    for truth, facts in cs:
        f = Facts(dict(facts))
        for t, tv in fixed:
            fs = c.consistent(f, [(t, tv)])
            if not fs:
                f = None
                break
            f = fs[0]
        if f is None:
            continue
        if truth:
            # true must imply the conjunction
            for t, tv in conj:
                if c.engine('leaf', 'default').evalb(c.state(f), t) is not tv:
                    return False
        else:
            if c.consistent(f, list(conj)):
                return False
    return any(truth for truth, _ in cs)


def nofinds(p):
    return [k[1] for k, v in p.f.d.items() if k[0] == 'b' and v is True and k[1].op == 'nofind']


def clean(fs, el, ph):
    """facts about the element el, spelled about the placeholder"""
    out = []
    for k, v in fs.items():
        if any(isinstance(t, T) and any(x is el for x in subterms(t)) for t in k[1:]):
            out.append((tuple(replace(t, el, ph) if isinstance(t, T) else t for t in k), v))
    return frozenset(out)


def handwritten(c, p):
    """searches written as loops, in the shape of nofind facts: every iteration
    that went round is a record that was not it"""
    out = []
    ended = [k[1].a[0] for k, v in p.f.d.items() if k[0] == 'b' and v is True and k[1].op == 'itend']
    for lev in p.ev:
        if not is_loop(lev):
            continue
        segs = []
        for it in lev.a[2].a[0]:
            segs.append((dict(it.a[2].a[0]), {x.a[0]: x.a[1] for x in it.a[1].a[0]}))
        els = {x for d, _ in segs for k in d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem'}
        # over an iterator: all of it when it ran dry, what lies before the
        # record the loop was left at otherwise
        here = {x for k in p.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'ix'}
        for e in sorted(els, key=lambda x: x.n):
            ixs = [x for x in subterms(e.a[1]) if x.op == 'ix']
            if len(ixs) != 1 or ixs[0] not in p.eng.pulled or add(e.a[1], ixs[0], -1) in subterms(ixs[0]):
                continue
            ix = ixs[0]
            descs = {k[1].a[1] for d, _ in segs for k, v in d.items() if k[0] == 'b' and v is True and k[1].op == 'from' and k[1].a[0] is ix}
            if len(descs) != 1:
                continue
            desc = descs.pop()
            src, layers, exact_ = p.eng.models.layers(desc)
            if any(l.a[0] not in ('enum', 'cloned', 'peek', 'fuse', 'filter') for l in layers):
                continue
            if any(l.a[0] == 'enum' for l in layers) and any(l.a[0] == 'filter' for l in layers):
                continue
            if src.op == 'adt':
                fs = dict(zip(src.a[4], src.a[3]))
                if 'start' not in fs or 'end' not in fs:
                    continue
                off = add(e.a[1], ix, -1)
                V, lo, hi = e.a[0], add(fs['start'], off), add(fs['end'], off)
            else:
                V, lo, hi = span(src)
                if V is not e.a[0]:
                    continue
            if desc not in ended:
                if ix not in here or (src.op == 'it' and src.a[0] == 'rev'):
                    continue
                hi = e.a[1]
            ph = mk('ph', mk('fr', 'hand', e.n))
            cs = tuple(mk('case', FALSE, mk('facts', clean(d, e, ph))) for d, _ in segs)
            # and every record a filter kept from the loop
            for l in layers:
                if l.a[0] == 'filter':
                    fph, fcs = filter_cases(c, p, l)
                    cs += tuple(mk('case', FALSE, mk('facts', clean(fs, fph, ph))) for truth, fs in fcs if not truth)
            out.append(mk('nofind', mk('it', 'skip', mk('it', 'take', mk('it', 'over', V), hi), lo), ph, cs))
        # over positions counted up
        for pr in lev.a[3].a[0]:
            lv, lo = pr.a
            if not segs or not all(st.get(lv) is add(lv, integer(1)) or counted(st.get(lv, lv), lv, 1) for _, st in segs):
                continue
            for V in {e.a[0] for e in els if e.a[1] is lv}:
                e = mk('elem', V, lv)
                ph = mk('ph', mk('fr', 'hand', e.n))
                cs = tuple(mk('case', FALSE, mk('facts', clean(d, e, ph))) for d, _ in segs)
                out.append(mk('nofind', mk('it', 'skip', mk('it', 'take', mk('it', 'over', V), lv), lo), ph, cs))
    return out


def modular(c, p, V, conj):
    """(first position, steps or None for all) of searches going round V with a
    remainder: no record met satisfies conj"""
    out = []
    n = contracts_len(V)
    ended = [k[1].a[0] for k, v in p.f.d.items() if k[0] == 'b' and v is True and k[1].op == 'itend']
    here = {x for k in p.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'ix'}
    for lev in p.ev:
        if not is_loop(lev):
            continue
        segs = [dict(it.a[2].a[0]) for it in lev.a[2].a[0]]
        els = {x for d in segs for k in d for t in k[1:] if isinstance(t, T) for x in subterms(t)
               if x.op == 'elem' and x.a[0] is V and x.a[1].op == 'app' and x.a[1].a[0] == 'rem'}
        for e in els:
            x, m = e.a[1].a[1]
            ixs = [y for y in subterms(x) if y.op == 'ix' and y in p.eng.pulled]
            if m is not n or len(ixs) != 1 or ixs[0] in subterms(add(x, ixs[0], -1)):
                continue
            ix = ixs[0]
            descs = {k[1].a[1] for d in segs for k, v in d.items() if k[0] == 'b' and v is True and k[1].op == 'from' and k[1].a[0] is ix}
            if len(descs) != 1:
                continue
            desc = descs.pop()
            src, layers, _ = p.eng.models.layers(desc)
            fs = dict(zip(src.a[4], src.a[3])) if src.op == 'adt' else {}
            if layers or fs.get('start') is not integer(0) or fs.get('end') is not n:
                continue
            ph = mk('ph', mk('fr', 'hand', e.n))
            if not segs or any(c.consistent(Facts(dict(clean(d, e, ph))), conj(ph)) for d in segs):
                continue
            if desc in ended:
                out.append((add(x, ix, -1), None))
            elif ix in here:
                out.append((add(x, ix, -1), ix))
    return out


def gaps(c, p, V, conj):
    """[lo, hi) stretches of the collection V holding no record that satisfies conj"""
    out = []
    for t in nofinds(p) + handwritten(c, p):
        v, lo, hi = span(t.a[0])
        if v is not V:
            continue
        ph, cs = nofind_cases(t)
        if cs and not any(c.consistent(Facts(dict(fc)), conj(ph)) for truth, fc in cs if not truth):
            out.append((lo, hi))
    return out


def upto(c, p, hi, n):
    return hi is n or c.ev(p, rel(hi, n, 6)) is True


def nosuch(c, p, V, conj):
    """the path knows that no record of V satisfies conj"""
    return any(lo is integer(0) and upto(c, p, hi, contracts_len(V)) for lo, hi in gaps(c, p, V, conj))


def span(it):
    """[lo, hi) of the collection an iterator term covers, with the collection"""
    if it.op == 'it' and it.a[0] == 'rev':
        return span_(it.a[1])
    return span_(it)


def span_(it):
    if it.op != 'it':
        if it.op in ('slice', 'adv'):
            v, lo, hi = span_(it.a[0])
            return v, add(lo, it.a[1]), add(lo, it.a[2]) if it.op == 'slice' else hi
        return it, integer(0), contracts_len(it)
    k = it.a[0]
    if k == 'over':
        return span_(it.a[1])
    if k == 'skip':
        v, lo, hi = span_(it.a[1])
        return v, lo if lo is None else add(lo, it.a[2]), hi
    if k == 'take':
        v, lo, hi = span_(it.a[1])
        return v, lo, lo if lo is None else add(lo, it.a[2])
    if k in ('enum', 'cloned', 'peek', 'fuse'):
        return span_(it.a[1])
    return None, None, None


def contracts_len(v):
    from models import lenof
    return lenof(v)


def outcome(p):
    """decode an ApplySummary return value: (is_active, ok, changed, conflict, replaced)"""
    r = p.ret
    if r.op != 'adt':
        return None
    if r.a[1] == 'Some':
        r = r.a[3][0]
    if r.op != 'adt' or r.a[1] != 'ApplySummary':
        return None
    cf = get(r, 'conflict')
    return get(r, 'is_active_now'), get(r, 'apply_successful'), get(r, 'changed_active_set'), cf


def found(p):
    """index term of the record this path operates on"""
    for k, v in p.f.d.items():
        if k[0] == 'b' and v is True and k[1].op == 'eq':
            for x in k[1].a:
                for t in subterms(x):
                    if t.op == 'elem' and t.a[0] is S('inner'):
                        return t
    return None


def check_existing(c, E, p, U, condres, known):
    """one path on which a record with the same address was found"""
    K = lambda n: mk('fld', known, n)
    lookup = c.ev(p, c.eq(app('addr', K('id')), app('addr', get(U, 'id'))))
    c.ob(lookup is True, E, 'the record operated on has the update\'s address')
    fin = c.final(p)
    inner = get(fin, 'inner')
    # the record afterwards
    if inner is S('inner'):
        rec = known
    elif inner.op == 'upd' and inner.a[0] is S('inner') and len(inner.a[1]) == 1 and inner.a[1][0][0] == ('e', known.a[1]):
        rec = inner.a[1][0][1]
    else:
        c.ob(False, E, 'only the record with the update\'s address is modified')
        return
    oc = outcome(p)
    if oc is None:
        c.ob(False, E, 'an existing record yields a summary')
        return
    act, okk, chg, conf = oc
    ideq = c.eq(K('id'), get(U, 'id'))
    dims = [c.d_bool(ideq), c.d_bool(app('win_addr_conflict', K('id'), get(U, 'id'))),
            c.d_bool(condres) if condres is not None else [(True, [])],
            c.d_var(K('state'), 'State'), c.d_var(get(U, 'state'), 'State'), c.d_rel(K('incarnation'), get(U, 'incarnation'))]
    na = get(fin, 'num_active')

    for (same, win, cond, ks, us, o), fs in c.tablef(p.f, dims):
        if ks != 'Down':
            # an active record is counted (M.count)
            fs = [g for f in fs for g in c.consistent(f, [(rel(S('num_active'), integer(0), 4), True)])]
            if not fs:
                continue

        def T_(x):
            return c.always(fs, x)
        kact, uact = ks != 'Down', us != 'Down'
        if not same and win:
            case, exp = 'a different identity that loses the conflict', (kact, False, False, 'Lost')
        elif not cond:
            case, exp = 'the condition refuses', (kact, False, False, 'NoConflict' if same else 'FailedCondition')
        elif not same:
            case, exp = 'a different identity that wins the conflict', (uact, True, uact != kact, 'Replaced')
        else:
            w = wins(ks, us, o)
            case, exp = ('same identity, update overrides' if w else 'same identity, update does not override'), (uact if w else kact, w, w and uact != kact, 'NoConflict')
        c.ob(T_(act) is exp[0], E, case + ': is_active_now reports the resulting record')
        c.ob(T_(okk) is exp[1], E, case + (': apply_successful' if exp[1] else ': not apply_successful'))
        c.ob(T_(chg) is exp[2], E, case + ': changed_active_set iff the active set changed')
        c.ob(vname(conf) == exp[3], E, case + ': conflict is ' + exp[3])
        if exp[1]:
            c.ob(get(rec, 'id') is get(U, 'id') or (exp[3] == 'NoConflict' and get(rec, 'id') is K('id')), E, case + ': record takes the update\'s identity')
            c.ob(get(rec, 'state') is get(U, 'state'), E, case + ': record takes the update\'s state')
            c.ob(get(rec, 'incarnation') is get(U, 'incarnation'), E, case + ': record takes the update\'s incarnation')
            if exp[3] == 'Replaced' and vname(conf) == 'Replaced':
                c.ob(conf.a[3][0] is K('id'), E, case + ': the summary names the replaced identity')
        else:
            c.ob(rec is known, E, case + ': record untouched')
        if exp[2]:
            d = 1 if exp[0] else -1
            c.ob(counted(na, S('num_active'), d), E, case + ': num_active moves by %+d' % d)
        else:
            # (an active record is counted: taking one off and adding one is no change)
            if c.ev(p, c.isv(K('state'), 'State', 'Down')) is False:
                na = plain_sum(na)
            c.ob(na is S('num_active'), E, case + ': num_active unchanged')
    c.ob(get(fin, 'cursor') is S('cursor'), E, 'the probe cursor is not touched')


def plain_sum(v):
    k, parts = lin_parts(v)
    r = integer(k)
    for x, n in parts.items():
        if x.op in ('sat', 'wrap'):
            x = plain_sum(x.a[0])
        for _ in range(abs(n)):
            r = add(r, x, 1 if n > 0 else -1)
    return r


def counted(v, base, d):
    v = plain_sum(v)
    return v is add(base, integer(d))


@rule('M.apply_existing', 'C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C15',
      'Members::apply_existing_if: lookup by address, win_addr_conflict gate (known vs update), condition, whole-record replacement, active-count bookkeeping', floor=60)
def apply_existing(c):
    E = 'Members::apply_existing_if'
    U = c.param(E, 1)
    ps = c.run(E, 'leaf')
    for p in ps:
        if vname(p.ret) == 'None':
            c.ob(c.final(p) is SELF, E, 'unknown address: nothing changes')
            c.ob(exhaustive_addr(c, p, U), E, 'unknown address: every record was compared by address')
            continue
        known = found(p)
        if known is None:
            c.ob(False, E, 'the record operated on has the update\'s address')
            continue
        cond = [ev for _, ev in c.calls(p, 'indirect')]
        for ev in cond:
            a = eargs(ev)[0]
            c.ob(a is known, E, 'the condition is asked about the untouched record')
        # a path that never asked is checked for both answers
        condres = eres(cond[0]) if cond else app('condition', known)
        check_existing(c, E, p, U, condres, known)


def exhaustive_addr(c, p, U):
    return nosuch(c, p, S('inner'), lambda ph: [(c.eq(app('addr', get(ph, 'id')), app('addr', get(U, 'id'))), True)])


@rule('M.apply', 'C01 C02 C03 C04 C05 C08 C09 C10 C11 C15',
      'Members::apply: same table without a condition; an unknown address is registered exactly once as given', floor=40)
def apply_(c):
    E = 'Members::apply'
    U = c.param(E, 1)
    for p in c.run(E, 'leaf'):
        known = found(p)
        if known is not None:
            check_existing(c, E, p, U, None, known)
            continue
        c.ob(exhaustive_addr(c, p, U), E, 'a record is added only when no record has that address')
        fin = c.final(p)
        v = get(fin, 'inner')
        while v.op == 'perm':
            v = v.a[0]
        c.ob(v.op == 'push' and v.a[0] is S('inner') and is_update(c, v.a[1], U), E, 'unknown address: exactly the update is registered')
        oc = outcome(p)
        if oc is None:
            c.ob(False, E, 'unknown address: a summary is returned')
            continue
        act, okk, chg, conf = oc
        for (us,), fs in c.tablef(p.f, [c.d_var(get(U, 'state'), 'State')]):
            ua = us != 'Down'
            c.ob(c.always(fs, act) is ua, E, 'unknown address, %s: is_active_now' % us)
            c.ob(c.always(fs, okk) is True, E, 'unknown address, %s: apply_successful' % us)
            c.ob(c.always(fs, chg) is ua, E, 'unknown address, %s: changed_active_set' % us)
            c.ob(vname(conf) == 'NoConflict', E, 'unknown address, %s: no conflict' % us)
            na = get(fin, 'num_active')
            c.ob(counted(na, S('num_active'), 1) if ua else na is S('num_active'), E, 'unknown address, %s: num_active' % us)
        c.ob(get(fin, 'cursor') is S('cursor'), E, 'unknown address: the probe cursor is not touched')


def is_update(c, v, U):
    if v is U:
        return True
    return all(get(v, n) is get(U, n) for n in ('id', 'incarnation', 'state'))


def hand_count(c, p, n, bag):
    """n counts the active records of the bag in a loop over all of it"""
    base = n.a[0] if n.op in ('sat', 'wrap') else n
    if base.op != 'lv':
        return False
    for lev in p.ev:
        if not is_loop(lev) or {x.a[0]: x.a[1] for x in lev.a[3].a[0]}.get(base) is not integer(0):
            continue
        ends = [k[1].a[0] for k, v in p.f.d.items() if k[0] == 'b' and v is True and k[1].op == 'itend']
        its = []
        c._iters(p, lev, None, its)
        if len(ends) != 1 or span(p.eng.models.layers(ends[0])[0]) != (bag, integer(0), app('len', bag)) or \
                any(l.a[0] not in ('enum', 'cloned', 'peek', 'fuse', 'rev', 'map') for l in p.eng.models.layers(ends[0])[1]):
            return False
        for s in its:
            els = {x for k in s.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem' and x.a[0] is bag}
            if len(els) != 1:
                return False
            step = dict(s.steps).get(base, base)
            if step.op in ('sat', 'wrap'):
                step = step.a[0]
            for (st,), _ in c.tablef(s.f, [c.d_var(get(els.copy().pop(), 'state'), 'State')]):
                if step is not (base if st == 'Down' else add(base, integer(1))):
                    return False
        return bool(its)
    return False


@rule('M.count', 'C02 C03 C08 C13', 'num_active counts the active records of a new table; num_members/iter_members report it', floor=3)
def count(c):
    E = 'Members::new'
    for p in c.run(E, 'leaf'):
        r = p.ret
        na, inner = get(r, 'num_active'), get(r, 'inner')
        c.ob(inner is c.param(E, 0), E, 'the table holds the given records')
        good = False
        if na.op == 'app' and na.a[0] == 'count':
            it = na.a[1][0]
            if it.op == 'it' and it.a[0] == 'filter':
                cs = filter_cases(c, p, it)
                good = exact(c, cs, [(c.isv(get(cs[0], 'state'), 'State', 'Down'), False)])
        c.ob(good or hand_count(c, p, na, inner), E, 'num_active is the number of active records')
    E = 'Members::num_active'
    for p in c.run(E, 'leaf'):
        c.ob(p.ret is S('num_active'), E, 'reports the cached count')
    E = 'Foca::num_members'
    for p in c.run(E, 'leaf'):
        c.ob(p.ret is S('members', 'num_active'), E, 'reports the number of active members')
    E = 'Foca::iter_members'
    for p in c.run(E, 'leaf'):
        r = p.ret
        good = False
        if r.op == 'it' and r.a[0] == 'filter':
            base = p.eng.models.desc_it(p.st, r.a[1])
            cs = filter_cases(c, p, r)
            good = base is mk('it', 'over', S('members', 'inner')) and exact(c, cs, [(c.isv(get(cs[0], 'state'), 'State', 'Down'), False)])
        c.ob(good, E, 'iterates over exactly the active members')


@rule('M.next', 'C02 C03 C14 C19',
      'Members::next: first active record at or after the cursor, else the wrapped-around prefix; the cursor moves past the pick; reshuffle only at the end of a pass', floor=12)
def next_(c):
    E = 'Members::next'
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        inner, cur = get(fin, 'inner'), get(fin, 'cursor')
        cursor0, len0 = S('cursor'), app('len', S('inner'))
        at_end = c.ev(p, rel(cursor0, len0, 6))
        base = inner
        shuffled = False
        while base.op == 'perm':
            shuffled = True
            base = base.a[0]
        c.ob(base is S('inner'), E, 'no record is added, dropped or modified')
        c.ob(get(fin, 'num_active') is S('num_active'), E, 'num_active unchanged')
        if at_end is None:
            c.ob(not shuffled, E, 'reshuffles only once the cursor reached the end')
            c0 = cursor0
        elif at_end:
            c0 = integer(0)
        else:
            c.ob(not shuffled, E, 'reshuffles only once the cursor reached the end')
            c0 = cursor0
        idle = gaps(c, p, inner, lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)])
        ln = contracts_len(inner)

        def covered(a, b, n=4):
            """nothing active in [a, b): possibly put together from several stretches"""
            if upto(c, p, a, b):
                return True
            return n > 0 and any((lo is integer(0) or upto(c, p, a, lo)) and hi is not a and (upto(c, p, hi, b) or c.ev(p, rel(hi, a, 4)) is True and covered(hi, b, n - 1)) for lo, hi in idle)
        # one round of the table counted with a remainder
        mod = modular(c, p, inner, lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False)])
        mod = [(b, k) for b, k in mod if b is c0]
        full = any(k is None for _, k in mod)
        tail = full or covered(c0, ln)
        head = full or covered(integer(0), c0)
        if vname(p.ret) == 'None':
            c.ob(tail and head, E, 'gives up only when no record is active')
            # with nothing active the cursor only has to stay usable
            continue
        el = p.ret.a[3][0]
        if el.op != 'elem' or el.a[0] is not inner:
            c.ob(False, E, 'returns a record of the table')
            continue
        c.ob(True, E, 'returns a record of the table')
        pos = el.a[1]
        c.ob(c.ev(p, c.isv(mk('fld', el, 'state'), 'State', 'Down')) is False, E, 'returns only an active record')
        after = c.ev(p, rel(pos, c0, 6))
        plus1 = cur is add(pos, integer(1)) or (cur.op in ('sat',) and cur.a[0] is add(pos, integer(1)))
        turn = any(k is not None and pos is app('rem', add(b, k), ln) for b, k in mod)
        if after is True:
            c.ob(turn or covered(c0, pos), E, 'no active record is passed over')
            c.ob(plus1, E, 'the cursor moves just past the record returned')
        else:
            c.ob(turn or tail, E, 'wraps around only when nothing at or after the cursor is active')
            c.ob(plus1 or (cur.op == 'int' and cur.a[0] == 2**64 - 1), E, 'after wrapping around the cursor moves past the record or forces a new pass')


@rule('M.remove', 'C03 C05 C08 C09 C11', 'Members::remove_if_down removes exactly the Down record of exactly that identity', floor=4)
def remove(c):
    E = 'Members::remove_if_down'
    ID = c.param(E, 1)
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        inner = get(fin, 'inner')
        c.ob(get(fin, 'num_active') is S('num_active'), E, 'num_active unchanged (the record was Down)')
        if inner is S('inner'):
            good = nosuch(c, p, S('inner'), lambda ph: [(c.eq(ID, get(ph, 'id')), True), (c.isv(get(ph, 'state'), 'State', 'Down'), True)])
            # (one record per address: the record of that identity is the only one)
            els = {t for k in p.f.d for x in k[1:] for t in subterms(x) if t.op == 'elem' and t.a[0] is S('inner')}
            good = good or any(c.ev(p, c.eq(ID, mk('fld', x, 'id'))) is True and c.ev(p, c.isv(mk('fld', x, 'state'), 'State', 'Down')) is False for x in els)
            c.ob(good, E, 'keeps everything only when no Down record has that identity')
            c.ob(vname(p.ret) == 'None', E, 'reports a removal only when there was one')
            continue
        if inner.op == 'collect' and len(inner.a) > 1:
            inner = inner.a[1]
        if inner.op == 'retained':
            cs = (inner.a[1], [(x.a[0] is not TRUE, dict(x.a[1].a[0])) for x in inner.a[2]])
            c.ob(inner.a[0] is S('inner') and exact(c, cs, [(c.eq(ID, get(cs[0], 'id')), True), (c.isv(get(cs[0], 'state'), 'State', 'Down'), True)]), E, 'removes only the Down record of that identity')
            continue
        if inner.op != 'removed' or inner.a[0] is not S('inner'):
            c.ob(False, E, 'removes one record')
            continue
        el = mk('elem', S('inner'), inner.a[1])
        c.ob(c.ev(p, c.eq(ID, mk('fld', el, 'id'))) is True, E, 'removes only a record of that identity')
        c.ob(c.ev(p, c.isv(mk('fld', el, 'state'), 'State', 'Down')) is True, E, 'removes only a Down record')


@rule('M.choosers', 'C02 C03 C05 C07 C12 C16 C19',
      'random choosers copy only records accepted by the picker, each at most once, at most `wanted`, and all of them when they are not more than `wanted`', floor=6)
def choosers(c):
    leaf = contracts.choosers(c.prog())
    if not leaf:
        raise Missing('no member chooser')
    for nice, (b, o, w, pick) in leaf.items():
        ps = c.run(nice, 'leaf')
        names = [b['body']['locals'][i + 1].get('name', 'arg%d' % (i + 1)) for i in range(b['body']['argc'])]
        out, wanted = names[o], sym(names[w]) if w is not None else None
        OUT = sym(out)
        for p in ps:
            c.ob(c.final(p) is SELF, nice, 'the table is not modified')
            # direct (non-loop) output writes
            direct = c.final(p, out)
            loops = [ev for ev in p.ev if is_loop(ev)]
            c.ob(len(loops) >= 1 or direct is OUT, nice, 'selection is a loop over the table')
            for lev in loops:
                segs = []
                c._iters(p, lev, None, segs)
                for s in segs:
                    writes = [ev for ev in s.ev if is_write(ev) and wroot(ev) is OUT]
                    asked = [ev for ev in s.ev if is_call(ev, 'indirect')]
                    elems = {t for k in s.f.d for t in subterms(k[1]) if t.op == 'elem' and t.a[0] is S('inner')}
                    for ev in asked:
                        for a in eargs(ev):
                            elems |= {t for t in subterms(a) if t.op == 'elem' and t.a[0] is S('inner')}
                    picked = any(c.ev(s, eres(ev)) is True and eargs(ev)[0].op == 'elem' for ev in asked)
                    refused = any(c.ev(s, eres(ev)) is False for ev in asked)
                    if refused or not asked:
                        c.ob(not writes, nice, 'a record the picker refuses is not chosen')
                        continue
                    c.ob(len(writes) <= 1, nice, 'a record is chosen at most once')
                    # counter of chosen records
                    full = None
                    ups = {a: b2 for a, b2 in s.steps}
                    ini0 = {pr.a[0]: pr.a[1] for pr in lev.a[3].a[0]}
                    for a in inits(lev):
                        if wanted is not None and ini0.get(a) is OUT:
                            # the output itself tells how many it got
                            got = add(app('len', a), app('len', ini0[a]), -1)
                            if c.ev(s, rel(got, wanted, 6)) is True:
                                full = True
                            elif c.ev(s, rel(got, wanted, 1)) is True and full is None:
                                full = False
                        if wanted is not None and c.ev(s, rel(a, wanted, 6)) is True:
                            full = True
                        elif wanted is not None and c.ev(s, rel(a, wanted, 1)) is True and not full:
                            full = False
                            if writes:
                                c.ob(ups.get(a) is add(a, integer(1)) or a.op == 'app' or counted(ups.get(a, a), a, 1), nice, 'the limit counts every record appended')
                    for ev in writes:
                        v = ev.a[2]
                        if v.op == 'push':
                            c.ob(v.a[1] in elems and picked, nice, 'only records accepted by the picker are appended')
                            c.ob(full is False, nice, 'nothing is appended beyond the wanted number')
                        else:
                            c.ob(v in elems and picked and any(q[0] == 'e' for q in ev.a[1].a[1]), nice, 'only records accepted by the picker replace earlier picks')
                    if not writes:
                        c.ob(full is True, nice, 'an accepted record is skipped only when enough were chosen')


def inits(lev):
    """loop-varying values (and lengths of loop-varying vectors)"""
    out = []
    for pr in lev.a[3].a[0]:
        v = pr.a[0]
        out.append(v)
        out.append(app('len', v))
    return out
