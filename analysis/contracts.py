"""Procedure summaries used at the Foca level.  Each one states what callers
may rely on; every summary is itself verified against the body by a rule."""
from terms import *
from engine import AnalysisError
from models import some, NONE, ok, err, State_copy, OPT, RES, VEMPTY, norm

MEMBER = 'foca::member::Member'
SUMMARY = 'foca::member::ApplySummary'
CONFLICT = 'foca::member::ConflictResult'
FIELDS = ('is_active_now', 'apply_successful', 'changed_active_set', 'conflict')


def fidx(e, adtkey, name):
    for i, f in enumerate(e.p.adts[adtkey]['variants'][0]['fields']):
        if f['name'] == name:
            return i
    raise AnalysisError(f'anchor field {adtkey}.{name} not found')


def cases(e, st, clo, ph, fid, stack, byref=True):
    """truth table of a predicate closure on a placeholder element, as
    [(truth, fact delta)]"""
    root = ('L', mk('fr', fid, 'ph'), 0)
    s = State_copy(st)
    s.f = s.f.copy()
    # facts already known must not hide the predicate's own tests
    s.f.d = {k: v for k, v in s.f.d.items() if k[0] == 'iv'}
    s.mem[root] = ph
    out = []
    base = dict(s.f.d)
    for s2, v in e.call_value(s, clo, [mk('ref', root, ())], mk('fr', fid, 'phc'), stack, None):
        if v is None:
            continue
        for truth in (True, False):
            for s3 in e.assume(s2, v, truth):
                d = frozenset((k, x) for k, x in s3.f.d.items() if base.get(k) != x and k[0] != 'iv')
                out.append(mk('case', TRUE if truth else FALSE, mk('facts', d)))
    return mk('cases', ph, tuple(sorted(set(out), key=lambda x: x.n)))


def case_list(c):
    """[(truth, {factkey: value})]"""
    return [(x.a[0] is TRUE, dict(x.a[1].a[0])) for x in c.a[1]]


def which(e, st, ref):
    """name of the Foca field a reference points to"""
    r = ref
    n = 0
    while r.op == 'ref' and n < 10:
        v = e.read(st, r.a[0], r.a[1])
        if v.op == 'ref':
            r = v
            n += 1
            continue
        break
    if r.op == 'ref' and r.a[1]:
        return mk('k', '.'.join(str(p[-1]) for p in r.a[1] if p[0] == 'f'))
    return mk('k', '?')


def setto(e, st, ref, v):
    r = ref
    n = 0
    while r.op == 'ref' and n < 10:
        x = e.read(st, r.a[0], r.a[1])
        if x.op != 'ref':
            break
        r = x
        n += 1
    if r.op == 'ref':
        e.write(st, r.a[0], r.a[1], v)
    else:
        st.mem[('P', r)] = v


def event(e, st, name, args, fid, t):
    evid = mk('evid', fid)
    s = State_copy(st)
    res = mk('res', evid)
    e.emit(s, mk('ev', 'call', name, mk('args', tuple(args)), res), t.get('span') if t else None)
    return s, res, evid


def summaries(e, st, evid, upd, existing=False):
    """outcomes of an apply, with the implications its body guarantees"""
    def mkS(a, b, c, d):
        return adt(SUMMARY, 'ApplySummary', 0, (a, b, c, d), FIELDS)
    old = mk('res', evid, 'replaced')
    C = lambda n, *f: adt(CONFLICT, n, e.p.variants(CONFLICT).index(n), f, ('0',) * len(f))
    ustate = e.project(upd, ('f', fidx(e, MEMBER, 'state'), 'state'))
    out = []
    st0 = st

    class Out(list):
        def append(self, x):
            s, v = x
            s = s.copy()
            s.f.d[('out', evid)] = (v.a[3][0] is TRUE, v.a[3][1] is TRUE, v.a[3][2] is TRUE, v.a[3][3].a[1])
            list.append(self, (s, v))
    out = Out()
    for a in (TRUE, FALSE):
        # a success leaves the record with the update's state
        for s in ([st] if ustate.op == 'adt' and (ustate.a[1] == 'Down') == (a is FALSE) else [] if ustate.op == 'adt'
                  else e.assume(st, mk('isv', ustate, e.adt_named('State'), 'Down'), a is FALSE)):
            for c in (TRUE, FALSE):
                out.append((s, mkS(a, TRUE, c, C('NoConflict'))))
                out.append((s, mkS(a, TRUE, c, C('Replaced', old))))
        out.append((st, mkS(a, FALSE, FALSE, C('Lost'))))
        out.append((st, mkS(a, FALSE, FALSE, C('NoConflict'))))
        if existing:
            out.append((st, mkS(a, FALSE, FALSE, C('FailedCondition'))))
    return out


def c_apply(e, st, args, fid, t):
    upd = e.snap(st, args[1])
    mem = e.val(st, args[0])
    s, res, evid = event(e, st, 'apply', [upd, mem], fid, t)
    setto(e, s, args[0], mk('after', evid, mem))
    return summaries(e, s, evid, upd)


def c_apply_if(e, st, args, fid, t):
    upd = e.snap(st, args[1])
    mem = e.val(st, args[0])
    ph = mk('known', mk('evid', fid))
    cs = cases(e, st, args[2], ph, fid, ())
    s, res, evid = event(e, st, 'apply_if', [upd, cs, mem], fid, t)
    setto(e, s, args[0], mk('after', evid, mem))
    s0 = s.copy()
    s0.f.d[('out', evid)] = None
    out = [(s0, NONE)]
    for s2, v in summaries(e, s, evid, upd, True):
        out.append((s2, some(v)))
    return out


def c_next(e, st, args, fid, t):
    mem = e.val(st, args[0])
    s, res, evid = event(e, st, 'next', [mem], fid, t)
    setto(e, s, args[0], mk('after', evid, mem))
    s.f = s.f.copy()
    s.f.d[('var', mk('fld', res, 'state'))] = frozenset(['Alive', 'Suspect'])
    s0, s1 = s.copy(), s.copy()
    s0.f.d[('out', evid)] = 'none'
    s1.f.d[('out', evid)] = 'some'
    return [(s0, NONE), (s1, some(res))]


def chooser(outpos, wantpos, pickpos):
    def m(e, st, args, fid, t):
        mem = e.val(st, args[0])
        old = e.val(st, args[outpos])
        ph = mk('cand', mk('evid', fid))
        cs = cases(e, st, args[pickpos], ph, fid, ())
        wanted = e.val(st, args[wantpos]) if wantpos is not None else mk('k', '?')
        s, res, evid = event(e, st, 'choose', [wanted, cs, old, mem], fid, t)
        e.pickers[evid] = (ph, cs.a[1])
        s.f = s.f.copy()
        s.f.d[('wanted', evid)] = wanted
        setto(e, s, args[outpos], mk('chosen', evid, old))
        return [(s, UNIT)]
    return m


def c_remove(e, st, args, fid, t):
    mem = e.val(st, args[0])
    s, res, evid = event(e, st, 'remove_if_down', [e.snap(st, args[1]), mem], fid, t)
    setto(e, s, args[0], mk('after', evid, mem))
    return [(s, NONE), (s, some(res))]


def c_add(e, st, args, fid, t):
    w = which(e, st, args[0])
    q = e.val(st, args[0])
    s, res, evid = event(e, st, 'backlog_add', [w] + [e.snap(st, a) for a in args[1:]], fid, t)
    setto(e, s, args[0], mk('after', evid, q))
    return [(s, UNIT)]


def c_fill(kind):
    def m(e, st, args, fid, t):
        w = which(e, st, args[0])
        q = e.val(st, args[0])
        buf = e.val(st, args[1])
        s, res, evid = event(e, st, kind, [w, buf, e.val(st, args[2])], fid, t)
        setto(e, s, args[0], mk('after', evid, q))
        if args[1].op == 'ref':
            setto(e, s, args[1], mk('filled', kind, w, buf, res))
        out = []
        for s2 in e.assume(s, rel(res, e.val(st, args[2]), 3), True):
            out.append((s2, res))
        return out
    return m


FOCA = 'foca::Foca'


def setfield(e, st, selfref, name, v):
    i = fidx(e, FOCA, name)
    r = selfref
    n = 0
    while r.op == 'ref' and n < 10:
        x = e.read(st, r.a[0], r.a[1])
        if x.op != 'ref':
            break
        r = x
        n += 1
    e.write(st, r.a[0], r.a[1] + (('f', i, name),), v)


def getfield(e, st, selfref, name):
    i = fidx(e, FOCA, name)
    return e.project(e.val(st, selfref), ('f', i, name))


def c_send(e, st, args, fid, t):
    dst, msg = e.snap(st, args[1]), e.snap(st, args[2])
    src = getfield(e, st, args[0], 'identity')
    inc = getfield(e, st, args[0], 'incarnation')
    conn = getfield(e, st, args[0], 'connection_state')
    s, res, evid = event(e, st, 'send', [dst, msg, src, inc, conn], fid, t)
    for n in ('updates', 'custom_broadcasts', 'send_buf'):
        setfield(e, s, args[0], n, mk('after', evid, getfield(e, st, args[0], n)))
    mkey = e.adt_named('Message')
    feed = e.evalb(st, mk('isv', msg, mkey, 'Feed')) if msg.op != 'adt' else msg.a[1] == 'Feed'
    if feed is not False:
        setfield(e, s, args[0], 'choice_buf', mk('after', evid, getfield(e, st, args[0], 'choice_buf')))
    return [(s, ok(UNIT)), (s, err(mk('res', evid, 'err')))]


def choosers(p):
    """Members methods that fill a caller-supplied vector through a picker and
    do not delegate to another such method"""
    cand = {}
    for b in p.local:
        if b['kind'] == 'Closure' or p.nice(b).split('::')[0] != 'Members':
            continue
        ins = b.get('inputs') or []
        outp = [i for i, x in enumerate(ins) if x.startswith('&mut alloc::vec::Vec<') and 'Member<' in x]
        if outp:
            cand[b['key']] = (b, outp[0])
    leaf = {}
    for k, (b, o) in cand.items():
        calls = set()
        for blk in b['body']['blocks']:
            if blk and blk['t']['t'] == 'call' and blk['t']['f'][0] == 'c':
                f = blk['t']['f'][1]
                calls.add(f.get('res') or f.get('key'))
        if calls & (set(cand) - {k}):
            continue
        ins = b['inputs']
        want = [i for i, x in enumerate(ins) if x == 'usize']
        pick = [i for i, x in enumerate(ins) if not x.startswith('&') and x not in ('usize',) and 'Rng' not in x and i > 0]
        leaf[p.nice(b)] = (b, o, want[0] if want else None, pick)
    return leaf


def boundary(p, send=True, members=True, backlog=True):
    b = {}
    if members:
        b['Members::apply'] = c_apply
        b['Members::apply_existing_if'] = c_apply_if
        b['Members::next'] = c_next
        b['Members::remove_if_down'] = c_remove
        for nice, (body, o, w, pick) in choosers(p).items():
            if len(pick) == 1:
                b[nice] = chooser(o, w, pick[0])
    if backlog:
        b['Broadcasts::add_or_replace'] = c_add
        b['Broadcasts::fill'] = c_fill('fill')
        b['Broadcasts::fill_with_len_prefix'] = c_fill('fill_prefixed')
    if send:
        b['Foca::send_message'] = c_send
    return b


def havoc_fields(e, st, selfref, evid, names):
    for n in names:
        setfield(e, st, selfref, n, mk('after', evid, getfield(e, st, selfref, n)))


APPLY_MANY_FRAME = ('identity', 'incarnation', 'connection_state', 'timer_token', 'members', 'probe', 'choice_buf', 'send_buf', 'updates', 'custom_broadcasts')


def c_apply_many(e, st, args, fid, t):
    it = e.val(st, args[1])
    while it.op == 'it' and it.a[0] in ('byref', 'fuse', 'peek'):
        it = e.val(st, it.a[1])
    if it.op == 'it' and it.a[0] in ('drain', 'vec'):
        src = e.val(st, it.a[1])
    else:
        src = e.snap(st, it)
    s, res, evid = event(e, st, 'apply_many', [src, e.val(st, args[2])], fid, t)
    havoc_fields(e, s, args[0], evid, APPLY_MANY_FRAME)
    return [(s, ok(UNIT)), (s, err(mk('res', evid, 'err')))]


def c_change_identity(e, st, args, fid, t):
    new = e.snap(st, args[1])
    old = getfield(e, st, args[0], 'identity')
    s, res, evid = event(e, st, 'change_identity', [new, old, getfield(e, st, args[0], 'connection_state')], fid, t)
    out = []
    for s1 in e.assume(s, e._eq(old, new), True):
        out.append((s1, err(mk('res', evid, 'same'))))
    for s1 in e.assume(s, e._eq(old, new), False):
        s1 = s1.copy()
        havoc_fields(e, s1, args[0], evid, ('members', 'probe', 'choice_buf', 'send_buf', 'updates', 'custom_broadcasts'))
        setfield(e, s1, args[0], 'identity', new)
        setfield(e, s1, args[0], 'incarnation', integer(0))
        setfield(e, s1, args[0], 'timer_token', mk('after', evid, getfield(e, st, args[0], 'timer_token')))
        k = e.adt_named('ConnectionState')
        setfield(e, s1, args[0], 'connection_state', adt(k, 'Disconnected', e.p.variants(k).index('Disconnected'), (), ()))
        out.append((s1, ok(UNIT)))
        out.append((s1, err(mk('res', evid, 'err'))))
    return out


def c_ack(kind):
    """Probe::receive_ack / receive_indirect_ack: whether the ack was genuine"""
    def m(e, st, args, fid, t):
        pr = e.val(st, args[0])
        frm, no = (2, 1) if t['argtys'][1] == 'u8' else (1, 2)
        s, res, evid = event(e, st, kind, [which(e, st, args[0]), e.snap(st, args[frm]), e.snap(st, args[no])], fid, t)
        setto(e, s, args[0], mk('after', evid, pr))
        return [(s, res)]
    return m
