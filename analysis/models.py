"""Transfer functions for code outside the crate (alloc/core collections,
iterators, integers, bytes buffers) and for the crate's trait boundaries."""
import re
from terms import *

OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v):
    return adt(OPT, 'Some', 1, (v,), ('0',))


NONE = adt(OPT, 'None', 0, (), ())


def ok(v):
    return adt(RES, 'Ok', 0, (v,), ('0',))


def err(v):
    return adt(RES, 'Err', 1, (v,), ('0',))


VEMPTY = mk('vempty')
VUSED = mk('vempty', 'used')       # emptied, but keeps its allocation


def lenof(v):
    o = v.op
    if o == 'vempty':
        return integer(0)
    if o == 'push':
        return add(lenof(v.a[0]), integer(1))
    if o == 'popd':
        return add(lenof(v.a[0]), integer(-1))
    if o == 'arr':
        return integer(len(v.a[0]))
    if o == 'adv':
        return add(lenof(v.a[0]), v.a[1], -1)
    if o == 'slice':
        return add(v.a[2], v.a[1], -1)
    if o in ('perm', 'upd'):
        return lenof(v.a[0])
    if o == 'patch':
        return lenof(v.a[0])
    if o == 'trunc':
        return v.a[1]
    if o == 'cat':
        return add(lenof(v.a[0]), lenof(v.a[1]))
    if o == 'app' and v.a[0] == 'be_bytes':
        return v.a[1][1]
    if o == 'collect' and v.a[0].op == 'it':
        n = itlen(v.a[0])
        if n is not None:
            return n
    if o == 'phi':
        xs = {lenof(x) for x in v.a[1]}
        if len(xs) == 1:
            return xs.pop()
    return app('len', v)


def itlen(it):
    """how many elements an iterator yields, if that is its source's length"""
    while it.op == 'it' and it.a[0] in ('map', 'cloned', 'enum', 'rev', 'peek', 'fuse'):
        it = it.a[1]
    if it.op == 'it' and it.a[0] in ('vec', 'drain') and it.a[1].op != 'ref':
        return lenof(it.a[1])
    if it.op == 'it' and it.a[0] == 'arrit':
        return integer(len(it.a[1]))
    return None


INTT = ('u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i32', 'i64', 'isize')
MAXV = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1}


def norm(path):
    p = re.sub(r'<impl ([^<>]+)>', r'\1', path)
    # drop generic arguments
    while True:
        q = re.sub(r'(::)?<[^<>]*>', '', p)
        if q == p:
            return q
        p = q


class Models:
    lenof = staticmethod(lenof)

    def __init__(self, eng):
        self.e = eng
        self._n = {}
        self.tab = {}
        self.trait_tab = {}
        self.install()

    # -------------------------------------------------------------
    def get_model(self, f, ref):
        key, path, trait, selfty, name = f.a
        n = self._n.get(path)
        if n is None:
            n = self._n[path] = norm(path)
        if trait:
            tr = norm(trait).split('::')[-1]
            m = self.trait_tab.get((tr, name))
            if m is not None:
                return m
            m = self.trait_tab.get((tr, '*'))
            if m is not None:
                return m
        return self.tab.get(n)

    INL = ('core::option::', 'core::result::', 'core::cmp::', 'core::ops::Try', 'core::ops::FromResidual', 'core::ops::ControlFlow',
           'core::ops::control_flow', 'bytes::buf::Limit', 'bytes::buf::limit', 'core::bool::', 'core::hint', 'bytes::BufMut::limit')

    def may_inline(self, f, ref, b):
        p = f.a[1]
        if f.a[2]:
            t = norm(f.a[2])
            if t.split('::')[-1] in ('Try', 'FromResidual'):
                return True
            if t.split('::')[-1] == 'BufMut' and f.a[4] == 'limit':
                return True
        n = norm(p)
        if 'Formatter' in n:
            return False
        if n.endswith('::unwrap_failed') or n.endswith('::expect_failed'):
            return False
        if any(n.startswith(x) for x in self.INL):
            return True
        if n.startswith('bool::') or '::bool::' in n:
            return True
        return False

    # -------------------------------------------------------------
    def site(self, fid, tag=''):
        return mk('at', fid, tag)

    def ev(self, st, name, args, fid, t, dty=None):
        """emit a call event, returning its result value"""
        evid = mk('evid', fid)
        st2 = st.copy()
        res = UNIT if (dty or (t and t.get('dty'))) == '()' else mk('res', evid)
        e = mk('ev', 'call', name, mk('args', tuple(args)), res)
        self.e.emit(st2, e, t.get('span') if t else None)
        return st2, res, evid

    def setref(self, st, ref, v, t=None):
        """write through a reference argument"""
        r = ref
        n = 0
        while r.op == 'ref' and n < 10:
            cur = self.e.read(st, r.a[0], r.a[1])
            if cur.op == 'ref':
                r = cur
                n += 1
                continue
            self.e.assign(st, r.a[0], r.a[1], v, t.get('span') if t else None)
            return
        if r.op == 'sub':
            # a mutable sub-slice of a buffer
            base = r.a[0]
            old = self.e.val(st, base)
            self.setref(st, base, mk('patch', old, r.a[1], v), t)
            return
        self.e.assign(st, ('P', r), (), v, t.get('span') if t else None)

    def elemref(self, base, ix):
        if base.op == 'ref':
            return mk('ref', base.a[0], base.a[1] + (('e', ix),))
        return mk('ref', ('P', base), (('e', ix),))

    def lastref(self, st, v):
        """innermost reference of a reference chain"""
        n = 0
        while v.op == 'ref' and n < 10:
            c = self.e.read(st, v.a[0], v.a[1])
            if c.op != 'ref':
                return v
            v = c
            n += 1
        return v

    # -------- closures --------------------------------------------
    def callc(self, st, clo, args, fid, stack, tag):
        return self.e.call_value(st, clo, args, mk('fr', fid, tag), stack, None)

    def truths(self, st, clo, args, fid, stack, tag):
        """[(state, True/False)]"""
        out = []
        for s, v in self.callc(st, clo, args, fid, stack, tag):
            if v is None:
                continue
            for truth in (True, False):
                for s2 in self.e.assume(s, v, truth):
                    out.append((s2, truth))
        return out

    # -------- iterators -------------------------------------------
    def mkit(self, st, v, ty=''):
        """iterator over a value passed to into_iter / iter"""
        inner = self.lastref(st, v)
        x = self.e.val(st, v)
        if x.op == 'it':
            return x if v.op != 'ref' else mk('it', 'byref', v)
        if x.op == 'adt' and 'Range' in x.a[0]:
            return x
        if x.op == 'collect' and v.op != 'ref':
            return x.a[0]
        if x.op == 'arr':
            # a known, short list
            return mk('it', 'arrit', tuple(self.elemref(inner, integer(i)) if v.op == 'ref' else y for i, y in enumerate(x.a[0])))
        if v.op == 'ref':
            return mk('it', 'slice', inner)
        if x.op == 'adt' and x.a[0] == OPT:
            return mk('it', 'arrit', (x.a[3][0],) if x.a[1] == 'Some' else ())
        return mk('it', 'vec', v)

    def pull(self, st, it, fid, stack, depth=0):
        """[(state, value, index)] of one generic element; plus exhaustion is
        always possible and added by callers"""
        e = self.e
        ix = mk('ix', fid, depth)
        if it.op == 'ref':
            it2 = e.val(st, it)
            return self.pull(st, it2, fid, stack, depth)
        if it.op == 'adt' and 'Range' in it.a[0]:
            s = st.copy()
            fs = dict(zip(it.a[4], it.a[3]))
            if 'start' in fs:
                ss = e.assume(s, rel(fs['start'], ix, 3), True)
                out = []
                for s1 in ss:
                    s1 = s1.copy()
                    if 'end' in fs:
                        for s2 in e.assume(s1, rel(ix, fs['end'], 3 if 'Inclusive' in it.a[0] else 1), True):
                            out.append((s2, ix, ix))
                    else:
                        out.append((s1, ix, ix))
                return out
            return [(s, ix, ix)]
        if it.op != 'it':
            return [(st, mk('elem', e.models_bag(it), ix), ix)]
        k = it.a[0]
        if k == 'arrit':
            return [(st, x, integer(i)) for i, x in enumerate(it.a[1])]
        if k == 'slice':
            return [(s, self.elemref(it.a[1], ix), ix) for s in e.assume(st, rel(ix, lenof(e.val(st, it.a[1])), 1), True)]
        if k == 'vec' or k == 'drain':
            el = e.project(it.a[1], ('e', ix))
            return [(e.picked(s, el), el, ix) for s in e.assume(st, rel(ix, lenof(it.a[1]), 1), True)]
        if k == 'opt':
            return [(s, e.project(e.project(it.a[1], ('v', 'Some')), ('f', 0, '0')), ix) for s in e.assume(st, mk('isv', it.a[1], OPT, 'Some'), True)] if it.a[1].op != 'adt' else ([(st, it.a[1].a[3][0], ix)] if it.a[1].a[1] == 'Some' else [])
        if k == 'byref':
            return self.pull(st, e.val(st, it.a[1]), fid, stack, depth)
        if k == 'filter':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                root = ('L', mk('fr', fid, 'fe%d' % depth), 0)
                s = State_copy(s)
                s.mem[root] = v
                for s2, b in self.truths(s, it.a[2], [mk('ref', root, ())], fid, stack, 'filter%d' % depth):
                    if b:
                        s2 = State_copy(s2)
                        s2.mem.pop(root, None)
                        out.append((s2, v, i))
            return out
        if k == 'map':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                for s2, v2 in self.callc(s, it.a[2], [v], fid, stack, 'map%d' % depth):
                    out.append((s2, v2, i))
            return out
        if k == 'filter_map':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                for s2, v2 in self.callc(s, it.a[2], [v], fid, stack, 'fmap%d' % depth):
                    if v2.op == 'adt':
                        if v2.a[1] == 'Some':
                            out.append((s2, v2.a[3][0], i))
                    else:
                        for s3 in e.assume(s2, mk('isv', v2, OPT, 'Some'), True):
                            out.append((s3, e.project(e.project(v2, ('v', 'Some')), ('f', 0, '0')), i))
            return out
        if k == 'skip':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                for s2 in e.assume(s, rel(it.a[2], i, 3), True):
                    out.append((s2, v, add(i, it.a[2], -1)))
            return out
        if k == 'take':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                for s2 in e.assume(s, rel(i, it.a[2], 1), True):
                    out.append((s2, v, i))
            return out
        if k == 'enumc':
            return [(s, mk('tup', (e.val(s, it.a[2]), v)), i) for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1)]
        if k == 'enum':
            return [(s, mk('tup', (i, v)), i) for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1)]
        if k in ('rev', 'peek', 'fuse'):
            return [(s, v, i if k != 'rev' else mk('ix', fid, 'rev')) for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1)]
        if k == 'cloned':
            return [(s, e.snap(s, v), i) for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1)]
        if k == 'chain':
            out = []
            for j, sub in enumerate(it.a[1:3]):
                for s, v, i in self.pull(st, sub, mk('fr', fid, 'chain%d' % j), stack, depth + 1):
                    out.append((s, v, mk('ix', fid, 'chain')))
            return out
        if k == 'zip':
            out = []
            for s, v, i in self.pull(st, it.a[1], fid, stack, depth + 1):
                for s2, v2, i2 in self.pull(s, it.a[2], mk('fr', fid, 'zip'), stack, depth + 1):
                    out.append((s2, mk('tup', (v, v2)), i))
            return out
        return [(st, mk('elem', it, ix), ix)]

    def exhausted(self, st, it):
        """facts known when an iterator is exhausted"""
        return [st]

    def i_next(self, st, f, args, fid, stack, t):
        e = self.e
        itv = e.val(st, args[0])
        if self.listed(itv):
            out = []
            for s, v, rest in self.step(st, itv, fid, stack):
                s = State_copy(s)
                self.setref(s, args[0], rest, t)
                out.append((s, NONE if v is None else some(v)))
            return out
        s0 = st.copy()
        s0.f.d[('b', mk('itend', itv if itv.op == 'adt' else self.desc_it(st, itv)))] = True
        out = [(s0, NONE)]
        r = self.lastref(st, args[0])
        for s, v, i in self.pull(st, itv, fid, stack):
            if r.op == 'ref':
                # one step of an iterator kept in a variable
                s = s.copy()
                desc = itv if itv.op == 'adt' else self.desc_it(st, itv)
                for x in subterms((i, v)):
                    if x.op == 'ix':
                        e.pulled.setdefault(x, {})[desc] = (r.a[0], r.a[1], self.over(st, itv))
                        s.f.d[('b', mk('from', x, desc))] = True
                self.tick(s, itv)
            out.append((s, some(v)))
        return out

    def listed(self, it):
        """an iterator over a short list of known elements"""
        while it.op == 'it' and it.a[0] in ('map', 'filter', 'filter_map', 'enum', 'cloned', 'peek', 'fuse', 'flatten', 'counted'):
            it = it.a[1]
        if it.op == 'it' and it.a[0] == 'chain':
            return self.listed(it.a[1]) and self.listed(it.a[2])
        return it.op == 'it' and it.a[0] == 'arrit' and len(it.a[1]) <= 8

    def step(self, st, it, fid, stack, depth=0):
        """[(state, next element or None, remaining iterator)]"""
        e = self.e
        k = it.a[0]
        tag = 'st%d_%d' % (depth, self.left(it))
        if k == 'arrit':
            return [(st, it.a[1][0], mk('it', 'arrit', it.a[1][1:]))] if it.a[1] else [(st, None, it)]
        if k == 'chain':
            out = []
            for s, v, r in self.step(st, it.a[1], fid, stack, depth + 1):
                if v is not None:
                    out.append((s, v, mk('it', 'chain', r, it.a[2])))
                else:
                    out += self.step(s, it.a[2], fid, stack, depth + 1)
            return out
        if k in ('enum', 'counted'):
            n = it.a[2] if k == 'counted' else integer(0)
            return [(s, v if v is None else mk('tup', (n, v)), mk('it', 'counted', r, add(n, integer(1)))) for s, v, r in self.step(st, it.a[1], fid, stack, depth + 1)]
        out = []
        todo = [(st, it.a[1])]
        while todo:
            s0, inner = todo.pop()
            tag = 'st%d_%d' % (depth, self.left(inner))
            for s, v, r in self.step(s0, inner, fid, stack, depth + 1):
                wrap = mk('it', k, r, *it.a[2:])
                if v is None:
                    out.append((s, None, wrap))
                elif k in ('peek', 'fuse'):
                    out.append((s, v, wrap))
                elif k == 'cloned':
                    out.append((s, e.snap(s, v), wrap))
                elif k == 'map':
                    out += [(s2, v2, wrap) for s2, v2 in self.callc(s, it.a[2], [v], fid, stack, tag) if v2 is not None]
                elif k == 'filter':
                    root = ('L', mk('fr', fid, tag), 0)
                    s = State_copy(s)
                    s.mem[root] = v
                    for s2, b in self.truths(s, it.a[2], [mk('ref', root, ())], fid, stack, tag):
                        s2 = State_copy(s2)
                        s2.mem.pop(root, None)
                        if b:
                            out.append((s2, v, wrap))
                        else:
                            todo.append((s2, r))
                else:
                    vs = self.callc(s, it.a[2], [v], fid, stack, tag) if k == 'filter_map' else [(s, v)]
                    for s2, v2 in vs:
                        if v2 is None:
                            continue
                        o = e.val(s2, v2)
                        for s3 in e.assume_var_is(s2, o, OPT, 'Some'):
                            x = self.elemsome(s3, v2)
                            out.append((s3, x, wrap))
                        for s3 in e.assume_var_is(s2, o, OPT, 'None'):
                            todo.append((s3, r))
        return out

    def elemsome(self, st, v):
        if v.op == 'ref':
            return mk('ref', v.a[0], v.a[1] + (('v', 'Some'), ('f', 0, '0')))
        return self.e.project(self.e.project(v, ('v', 'Some')), ('f', 0, '0'))

    def left(self, it):
        while it.op == 'it' and it.a[0] != 'arrit':
            if it.a[0] == 'chain':
                return self.left(it.a[1]) + self.left(it.a[2])
            it = it.a[1]
        return len(it.a[1]) if it.op == 'it' else 0

    def over(self, st, it):
        """the collection an iterator runs over, once each"""
        while it.op == 'it' and it.a[0] in ('filter', 'map', 'skip', 'take', 'enum', 'enumc', 'rev', 'peek', 'fuse', 'cloned', 'byref', 'filter_map'):
            it = self.e.val(st, it.a[1])
        if it.op == 'it' and it.a[0] in ('slice', 'vec', 'drain'):
            return self.e.models_bag(self.e.val(st, it.a[1]))
        return it

    def halves(self, it):
        """the two parts of a search that goes on in a second place"""
        if it.op != 'it':
            return None
        k = it.a[0]
        if k == 'chain':
            return it.a[1], it.a[2]
        if k in ('filter', 'map', 'filter_map', 'cloned', 'peek', 'fuse', 'rev'):
            h = self.halves(it.a[1])
            if h is None:
                return None
            r = tuple(mk('it', k, x, *it.a[2:]) for x in h)
            return r[::-1] if k == 'rev' else r
        return None

    def both(self, m, st, it, f, args, fid, stack, t, miss, later=None):
        h = self.halves(it)
        if h is None:
            return None
        out = []
        for s, v in m(st, f, [h[0]] + list(args[1:]), mk('fr', fid, 'first'), stack, t):
            if v is not miss:
                out.append((s, v))
                continue
            for s2, v2 in m(s, f, [h[1]] + list(args[1:]), mk('fr', fid, 'second'), stack, t):
                out.append((s2, v2 if later is None or v2 is miss else later(v2)))
        return out

    def search(self, st, it, pred, fid, stack, byref, want, hit, miss):
        """a short list, looked at one by one until the predicate says `want`"""
        out, todo = [], [(st, it)]
        while todo:
            s, cur = todo.pop()
            n = self.left(cur)
            for s2, v, rest in self.step(s, cur, fid, stack):
                if v is None:
                    out.append((s2, miss))
                    continue
                arg, root = v, None
                if byref:
                    root = ('L', mk('fr', fid, 'look%d' % n), 0)
                    s2 = State_copy(s2)
                    s2.mem[root] = v
                    arg = mk('ref', root, ())
                for s3, b in self.truths(s2, pred, [arg], fid, stack, 'look%d' % n):
                    if root is not None:
                        s3 = State_copy(s3)
                        s3.mem.pop(root, None)
                    if b is want:
                        out.append((s3, hit(v)))
                    else:
                        todo.append((s3, rest))
        return out

    def i_find(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        if self.listed(it):
            return self.search(st, it, args[1], fid, stack, True, True, some, NONE)
        two = self.both(self.i_find, st, it, f, args, fid, stack, t, NONE)
        if two is not None:
            return two
        out = [(self.nofind(st, it, args[1], fid, stack), NONE)]
        skipped = self.nobefore(st, it, args[1], fid, stack)
        for s, v, i in self.pull(st, it, fid, stack):
            root = ('L', mk('fr', fid, 'find'), 0)
            s = State_copy(s)
            s.f = s.f.copy()
            skipped(s.f, i)
            s.mem[root] = v
            for s2, b in self.truths(s, args[1], [mk('ref', root, ())], fid, stack, 'find'):
                if b:
                    s2 = State_copy(s2)
                    s2.mem.pop(root, None)
                    out.append((s2, some(v)))
        return out

    def layers(self, it):
        """(positional source, element-wise layers, can positions be told)"""
        if it.op != 'it':
            return it, [], True
        k = it.a[0]
        if k in ('filter', 'map', 'filter_map', 'cloned', 'peek', 'fuse', 'enum', 'enumc'):
            src, ls, exact = self.layers(it.a[1])
            return src, ls + [it], exact
        if k in ('skip', 'take', 'rev'):
            src, ls, exact = self.layers(it.a[1])
            if all(l.a[0] in ('map', 'cloned', 'peek', 'fuse', 'enum') for l in ls):
                return mk('it', k, src, *it.a[2:]), ls, exact
            return it, [], False
        return it, [], True

    def nobefore(self, st, it, clo, fid, stack, byref=True, kind='bool'):
        """what a successful search says about the elements in front of the hit"""
        src, ls, exact = self.layers(it)
        if not exact or (src.op == 'it' and src.a[0] == 'rev'):
            return lambda f, i: None
        got = [k[1] for k, v in self.nofind(st, it, clo, fid, stack, byref, kind).f.d.items() if v is True and k[0] == 'b' and k[1].op == 'nofind' and k not in st.f.d]

        def add_to(f, i):
            for t in got:
                if t.a[0].op == 'it':
                    j = i
                    if src.op == 'adt':
                        # the index itself is the position
                        j = add(i, dict(zip(src.a[4], src.a[3])).get('start', integer(0)), -1)
                    f.d[('b', mk('nofind', mk('it', 'take', t.a[0], j), *t.a[1:]))] = True
        return add_to

    def nofind(self, st, it, clo, fid, stack, byref=True, kind='bool'):
        """an exhausted search: remember what was searched for and where.
        The search predicate includes the filters and maps the iterator goes through."""
        e = self.e
        s = st.copy()
        ph = mk('ph', fid)
        cs = []
        marks = len(e.oblog), len(e.panics)
        base = {k: v for k, v in s.f.d.items() if k[0] == 'iv'}
        s0 = State_copy(st)
        s0.f = Facts(base)
        src, layers, _ = self.layers(it)
        bounds = None
        if src.op == 'adt' and 'Range' in src.a[0]:
            # a search over positions
            fs = dict(zip(src.a[4], src.a[3]))
            if 'start' in fs and 'end' in fs:
                bounds = fs['start'], add(fs['end'], integer(1)) if 'Inclusive' in src.a[0] else fs['end']
                for x, tr in ((rel(bounds[0], ph, 3), True), (rel(ph, bounds[1], 1), True)):
                    nxt = e.assume(s0, x, tr)
                    if not nxt:
                        return s
                    s0 = nxt[0]
                base = dict(s0.f.d)

        def ref(s, v, n):
            root = ('L', mk('fr', fid, 'nf%d' % n), 0)
            s.mem[root] = v
            return mk('ref', root, ())

        def options(s, v):
            """[(state, value or None)]"""
            if v.op == 'adt':
                return [(s, v.a[3][0] if v.a[1] == 'Some' else None)]
            out = [(x, e.project(e.project(v, ('v', 'Some')), ('f', 0, '0'))) for x in e.assume(s, mk('isv', v, OPT, 'Some'), True)]
            return out + [(x, None) for x in e.assume(s, mk('isv', v, OPT, 'Some'), False)]
        try:
            cur = [(s0, ref(s0, ph, 0) if self.yields_refs(st, src) else ph)]
            done = []
            for n, l in enumerate(layers):
                nxt = []
                for s1, v in cur:
                    s1 = State_copy(s1)
                    if l.a[0] == 'filter':
                        for s2, b in self.truths(s1, l.a[2], [ref(s1, v, 2 * n + 2)], fid, stack, 'nff%d' % n):
                            (nxt if b else done).append((s2, v))
                    elif l.a[0] == 'map':
                        nxt += [x for x in self.callc(s1, l.a[2], [v], fid, stack, 'nfm%d' % n) if x[1] is not None]
                    elif l.a[0] == 'filter_map':
                        for s2, r in self.callc(s1, l.a[2], [v], fid, stack, 'nfm%d' % n):
                            for s3, w in options(s2, r):
                                (nxt if w is not None else done).append((s3, w))
                    elif l.a[0] == 'cloned':
                        nxt.append((s1, e.snap(s1, v)))
                    elif l.a[0] in ('enum', 'enumc'):
                        nxt.append((s1, mk('tup', (mk('ix', fid, 'nfe%d' % n), v))))
                    else:
                        nxt.append((s1, v))
                cur = nxt
            res = [(s1, False) for s1, _ in done]
            for s1, v in cur:
                s1 = State_copy(s1)
                arg = ref(s1, v, 1) if byref else v
                if clo is None:
                    res.append((s1, True))
                elif kind == 'opt':
                    for s2, r in self.callc(s1, clo, [arg], fid, stack, 'nofind'):
                        res += [(s3, w is not None) for s3, w in options(s2, r)]
                else:
                    res += [(s2, b != (kind == 'not')) for s2, b in self.truths(s1, clo, [arg], fid, stack, 'nofind')]
            for s2, b in res:
                d = frozenset((k, x) for k, x in s2.f.d.items() if base.get(k) != x and k[0] != 'iv')
                cs.append((b, d))
        except Exception:
            cs = []
        # (the search itself runs the predicate on an element it really has)
        del e.oblog[marks[0]:]
        del e.panics[marks[1]:]
        where = self.desc_it(st, src)
        if bounds is not None and cs:
            # positions only matter through the elements found there
            vs = {x.a[0] for _, d in cs for k, _ in d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem' and x.a[1] is ph}
            if len(vs) == 1:
                V = vs.pop()
                ph2 = mk('ph', mk('fr', fid, 'at'))
                conv = [(b, frozenset((tuple(replace(t, mk('elem', V, ph), ph2) if isinstance(t, T) else t for t in k), x) for k, x in d)) for b, d in cs]
                if not any(x is ph for _, d in conv for k, _ in d for t in k[1:] if isinstance(t, T) for x in subterms(t)):
                    cs, ph = conv, ph2
                    where = mk('it', 'skip', mk('it', 'take', mk('it', 'over', V), bounds[1]), bounds[0])
        cs = [mk('case', TRUE if b else FALSE, mk('facts', d)) for b, d in cs]
        s.f.d[('b', mk('nofind', where, ph, tuple(sorted(set(cs), key=lambda x: x.n))))] = True
        return s

    def yields_refs(self, st, it):
        """does the iterator hand out references to the elements of a collection"""
        while it.op == 'it' and it.a[0] in ('skip', 'take', 'rev', 'byref'):
            it = self.e.val(st, it.a[1])
        return it.op == 'it' and it.a[0] == 'slice'

    def desc_it(self, st, it):
        """iterator with the collections it ranges over spelled out"""
        if it.op != 'it':
            return self.e.val(st, it)
        if it.a[0] in ('slice', 'vec', 'byref'):
            v = self.e.val(st, it.a[1])
            return mk('it', 'over', self.desc_it(st, v) if v.op == 'it' else v)
        if not isinstance(it.a[1], T):
            return it
        return mk('it', it.a[0], self.desc_it(st, it.a[1]), *it.a[2:])

    def i_find_map(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        two = self.both(self.i_find_map, st, it, f, args, fid, stack, t, NONE)
        if two is not None:
            return two
        out = [(self.nofind(st, it, args[1], fid, stack, False, 'opt'), NONE)]
        skipped = self.nobefore(st, it, args[1], fid, stack, False, 'opt')
        for s, v, i in self.pull(st, mk('it', 'filter_map', it, args[1]), fid, stack):
            s = State_copy(s)
            s.f = s.f.copy()
            skipped(s.f, i)
            out.append((s, some(v)))
        return out

    def i_position(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        two = self.both(self.i_position, st, it, f, args, fid, stack, t, NONE, lambda v: some(mk('ix', fid, 'nth')))
        if two is not None:
            return two
        out = [(self.nofind(st, it, args[1], fid, stack, False), NONE)]
        skipped = self.nobefore(st, it, args[1], fid, stack, False)
        whole = it
        while whole.op == 'it' and whole.a[0] not in ('filter', 'filter_map', 'slice', 'vec', 'drain', 'arrit', 'opt', 'byref'):
            whole = whole.a[1]
        sparse = whole.op == 'it' and whole.a[0] in ('filter', 'filter_map')
        for s, v, i in self.pull(st, it, fid, stack):
            s = State_copy(s)
            s.f = s.f.copy()
            skipped(s.f, i)
            for s2, b in self.truths(s, args[1], [v], fid, stack, 'pos'):
                if b:
                    out.append((s2, some(mk('ix', fid, 'nth') if sparse else i)))
        return out

    def i_any(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        if self.listed(it):
            return self.search(st, it, args[1], fid, stack, False, True, lambda v: TRUE, FALSE)
        two = self.both(self.i_any, st, it, f, args, fid, stack, t, FALSE)
        if two is not None:
            return two
        out = [(self.nofind(st, it, args[1], fid, stack, False), FALSE)]
        for s, v, i in self.pull(st, it, fid, stack):
            for s2, b in self.truths(s, args[1], [v], fid, stack, 'any'):
                if b:
                    out.append((s2, TRUE))
        return out

    def i_all(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        if self.listed(it):
            return self.search(st, it, args[1], fid, stack, False, False, lambda v: FALSE, TRUE)
        two = self.both(self.i_all, st, it, f, args, fid, stack, t, TRUE)
        if two is not None:
            return two
        out = [(self.nofind(st, it, args[1], fid, stack, False, 'not'), TRUE)]
        for s, v, i in self.pull(st, it, fid, stack):
            for s2, b in self.truths(s, args[1], [v], fid, stack, 'all'):
                if not b:
                    out.append((s2, FALSE))
        return out

    def adapt(kind, n=1):
        def m(self, st, f, args, fid, stack, t):
            e = self.e
            a0 = args[0]
            if a0.op == 'ref':
                a0 = mk('it', 'byref', a0)
            if n == 1:
                if kind == 'rev' and a0.op == 'it' and a0.a[0] == 'arrit':
                    return [(st, mk('it', 'arrit', a0.a[1][::-1]))]
                return [(st, mk('it', kind, a0))]
            return [(st, mk('it', kind, a0, args[1] if kind != 'chain' and kind != 'zip' else self.mkit(st, args[1])))]
        return m

    def sparse(self, it):
        """does the iterator leave out elements, so that positions must be counted"""
        while it.op == 'it':
            if it.a[0] in ('filter', 'filter_map', 'chain', 'flatten', 'byref'):
                return True
            if it.a[0] in ('slice', 'vec', 'drain', 'arrit', 'opt'):
                return False
            it = it.a[1]
        return False

    def i_enumerate(self, st, f, args, fid, stack, t):
        a0 = args[0]
        if a0.op == 'ref':
            a0 = mk('it', 'byref', a0)
        if self.sparse(a0) and not self.listed(a0):
            # positions counted by hand
            root = ('L', mk('fr', fid, 'cnt'), 0)
            s = State_copy(st)
            s.mem[root] = integer(0)
            return [(s, mk('it', 'enumc', a0, mk('ref', root, ())))]
        return [(st, mk('it', 'enum', a0))]

    def tick(self, s, it):
        """one more element was handed out"""
        above = []
        while it.op == 'it' and len(it.a) > 1 and isinstance(it.a[1], T):
            if it.a[0] == 'enumc':
                r = it.a[2]
                n = self.e.read(s, r.a[0], r.a[1])
                s.mem[r.a[0]] = add(n, integer(1)) if not set(above) & {'filter', 'filter_map', 'skip', 'rev', 'chain', 'flatten'} else mk('after', mk('evid', 'tick'), n)
            above.append(it.a[0])
            it = it.a[1]

    def i_for_each(self, st, f, args, fid, stack, t):
        """closure run on one generic element, recorded as a loop"""
        e = self.e
        it = e.val(st, args[0])
        return e.closure_loop(st, it, args[1], fid, stack, f.a[4])

    def i_fold(self, st, f, args, fid, stack, t):
        return self.e.closure_loop(st, self.e.val(st, args[0]), args[2], fid, stack, f.a[4], args[1])

    def i_sum(self, st, f, args, fid, stack, t):
        if not (t and t.get('dty') in INTT):
            return None
        return self.e.closure_loop(st, self.e.val(st, args[0]), mk('sum'), fid, stack, 'sum', integer(0))

    def i_nth(self, st, f, args, fid, stack, t):
        """what is left afterwards is not told"""
        e = self.e
        it = e.val(st, args[0])
        r = self.lastref(st, args[0])
        if r.op == 'ref' and r.a[0][0] != 'L':
            return None
        out = []
        for s, v in self.i_next(st, f, [mk('it', 'skip', it, args[1])], fid, stack, t):
            s = State_copy(s)
            self.setref(s, args[0], app('spent', it), t)
            out.append((s, v))
        return out

    def v_last(self, st, f, args, fid, stack, t):
        n = lenof(self.e.val(st, args[0]))
        out = [(s, NONE) for s in self.e.assume(st, rel(n, integer(0), 2), True)]
        for s in self.e.assume(st, rel(n, integer(0), 4), True):
            out += [(s2, v) for s2, v in self.v_get(s, f, [args[0], add(n, integer(-1))], fid, stack, t) if v is not NONE]
        return out

    def b_try_get(width):
        def m(self, st, f, args, fid, stack, t):
            e = self.e
            n = lenof(e.val(st, args[0]))
            out = [(s, err(app('trygeterr', integer(width), n))) for s in e.assume(st, rel(n, integer(width), 1), True)]
            for s in e.assume(st, rel(n, integer(width), 6), True):
                out += [(s2, ok(v)) for s2, v in Models.b_get(width)(self, s, f, args, fid, stack, t)]
            return out
        return m

    def b_copy(self, st, f, args, fid, stack, t):
        e = self.e
        s = State_copy(st)
        v = e.val(s, args[0])
        e.require(s, stack, t, rel(args[1], lenof(v), 3), 'copy within buffer')
        self.setcur(s, f, args[0], self.adv(v, args[1]), t)
        return [(s, mk('slice', v, integer(0), args[1]))]

    def i_count(self, st, f, args, fid, stack, t):
        return [(st, app('count', self.e.val(st, args[0])))]

    def i_collect(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        ty = (t.get('dty') if t else '') or ''
        if re.match(r'core::(result::Result|option::Option)<alloc::vec::Vec<', ty):
            return e.closure_loop(st, it, mk('pushok', ty), fid, stack, 'try_collect', VEMPTY)
        if not re.match(r'(alloc::(vec::Vec|collections::\w+|boxed::Box)<|bytes::)', ty):
            return None
        if it.op == 'it' and it.a[0] in ('vec', 'drain') and re.match(r'alloc::(vec::Vec|collections::VecDeque)<', ty):
            return [(st, it.a[1])]
        if self.listed(it) and 'BinaryHeap' not in ty:
            out, todo = [], [(st, it, ())]
            while todo:
                s, cur, got = todo.pop()
                for s2, v, rest in self.step(s, cur, fid, stack):
                    if v is None:
                        out.append((s2, mk('arr', got) if got else VEMPTY))
                    else:
                        todo.append((s2, rest, got + (v,)))
            return out
        # elements are worked out when they are looked at: that only shows
        # if the adapters do anything besides computing them
        marks = len(e.oblog), len(e.panics)
        pure = all(s.tr is st.tr for s, _, _ in self.pull(st, it, fid, stack))
        del e.oblog[marks[0]:]
        del e.panics[marks[1]:]
        if not pure:
            if not ty.startswith('alloc::vec::Vec<'):
                return None
            return e.closure_loop(st, it, mk('pushing'), fid, stack, 'collect', VEMPTY)
        if it.op == 'it' and it.a[0] == 'filter' and it.a[1].op == 'it' and it.a[1].a[0] in ('vec', 'drain') and it.a[1].a[1].op != 'ref':
            # what is kept depends on the state now
            return [(st, mk('collect', it, self.kept(st, it.a[1].a[1], it.a[2], fid, stack)))]
        return [(st, mk('collect', it))]

    # -------- simple ----------------------------------------------
    def ident(self, st, f, args, fid, stack, t):
        return [(st, args[0])]

    def clone(self, st, f, args, fid, stack, t):
        return [(st, self.e.snap(st, args[0]))]

    def peel1(self, st, f, args, fid, stack, t):
        return [(st, self.e.snap(st, args[0]))]

    # ---- Vec-like
    def fits_alloc(self, st, stack, t, n):
        if n.op != INT:
            self.e.require(st, stack, t, rel(n, integer(1 << 58), 3), 'allocation size')

    def v_reserve(self, st, f, args, fid, stack, t):
        self.fits_alloc(st, stack, t, self.e.val(st, args[1]))
        return [(st, UNIT)]

    def v_new(self, st, f, args, fid, stack, t):
        if args and f.a[4] == 'with_capacity':
            self.fits_alloc(st, stack, t, self.e.val(st, args[0]))
        if args and f.a[4] == 'with_capacity' and self.e.val(st, args[0]).op != INT:
            s, _, _ = self.ev(st, 'with_capacity', [self.e.snap(st, args[0])], fid, t)
            return [(s, VUSED)]
        return [(st, VEMPTY)]

    def v_clear(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        self.setref(s, args[0], VUSED, t)
        return [(s, UNIT)]

    def v_push(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        v = self.e.snap(s, args[1])
        if 'BinaryHeap' in f.a[1] and self.e.collect_obl:
            from core import get
            self.e.require(st, stack, t, rel(get(v, 'remaining_tx'), integer(0), 4), 'every queued entry has transmissions left: this')
        self.setref(s, args[0], mk('push', self.e.val(s, args[0]), v), t)
        return [(s, UNIT)]

    def v_pop(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        if v.op == 'vempty':
            return [(st, NONE)]
        if v.op == 'push' and f.a[4] == 'pop' and 'BinaryHeap' not in f.a[1]:
            s = State_copy(st)
            self.setref(s, args[0], v.a[0], t)
            return [(s, some(v.a[1]))]
        if v.op == 'perm' and v.a[1].op == 'swap' and f.a[4] == 'pop' and 'BinaryHeap' not in f.a[1]:
            # the record swapped into the last slot is the one taken out
            last = add(lenof(v.a[0]), integer(1), -1)
            i, j = v.a[1].a
            at = j if i is last else i if j is last else None
            if at is not None:
                s = State_copy(st)
                x = e.project(v.a[0], ('e', at))
                self.setref(s, args[0], mk('removed', v.a[0], at), t)
                return [(s, some(x))]
        out = []
        for s in e.assume(st, rel(lenof(v), integer(0), 2), True):
            out.append((s, NONE))
        for s in e.assume(st, rel(lenof(v), integer(0), 4), True):
            s = State_copy(s)
            ix = mk('ix', fid, f.a[4])
            self.setref(s, args[0], mk('popd', v, ix), t)
            el = mk('elem', e.models_bag(v), ix)
            out.append((e.picked(s, el), some(el)))
        return out

    def v_len(self, st, f, args, fid, stack, t):
        return [(st, lenof(self.e.val(st, args[0])))]

    def v_is_empty(self, st, f, args, fid, stack, t):
        return [(st, rel(lenof(self.e.val(st, args[0])), integer(0), 2))]

    def v_capacity(self, st, f, args, fid, stack, t):
        v = self.e.val(st, args[0])
        if v is VEMPTY:
            return [(st, integer(0))]
        return [(st, app('capacity', v))]

    def v_drain(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        v = self.e.val(s, args[0])
        if len(args) > 1:
            r = self.e.val(s, args[1])
            if r.op != 'adt' or self.bounds(r, lenof(v)) != (integer(0), lenof(v)):
                return None
        self.setref(s, args[0], VUSED, t)
        return [(s, mk('it', 'drain', v))]

    def v_append(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        a, b = self.e.val(s, args[0]), self.e.val(s, args[1])
        self.setref(s, args[0], a if b.op == 'vempty' else b if a.op == 'vempty' else mk('cat', a, b), t)
        self.setref(s, args[1], VUSED, t)
        return [(s, UNIT)]

    def v_extend(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        a, b = self.e.val(s, args[0]), self.e.val(s, args[1])
        if b.op == 'it' and b.a[0] in ('vec', 'drain'):
            b = b.a[1]
        if b.op == 'arr' and f.a[4] == 'extend' and args[1].op != 'ref':
            for x in b.a[0]:
                self.setref(s, args[0], mk('push', self.e.val(s, args[0]), x), t)
            return [(s, UNIT)]
        if self.listed(b) and f.a[4] == 'extend':
            return self.extend_listed(s, f, args, b, fid, stack, t)
        if a.op == 'vempty' and b.op == 'it' and b.a[0] == 'filter' and b.a[1].op == 'it' and b.a[1].a[0] in ('vec', 'drain') and b.a[1].a[1].op != 'ref':
            # only what passes the filter is moved over
            marks = len(self.e.oblog), len(self.e.panics)
            pure = all(x.tr is s.tr for x, _, _ in self.pull(s, b, fid, stack))
            del self.e.oblog[marks[0]:]
            del self.e.panics[marks[1]:]
            if pure:
                self.setref(s, args[0], self.kept(s, b.a[1].a[1], b.a[2], fid, stack), t)
                return [(s, UNIT)]
        self.setref(s, args[0], a if b.op == 'vempty' else b if a.op == 'vempty' else mk('cat', a, b), t)
        return [(s, UNIT)]

    def extend_listed(self, st, f, args, it, fid, stack, t):
        out, todo = [], [(st, it)]
        while todo:
            s, cur = todo.pop()
            for s2, v, rest in self.step(s, cur, fid, stack):
                if v is None:
                    out.append((s2, UNIT))
                    continue
                s2 = State_copy(s2)
                self.setref(s2, args[0], mk('push', self.e.val(s2, args[0]), self.e.snap(s2, v)), t)
                todo.append((s2, rest))
        return out

    def v_truncate(self, st, f, args, fid, stack, t):
        n = self.e.val(st, args[1])
        if n is integer(0):
            return self.v_clear(st, f, args, fid, stack, t)
        out = []
        v = self.e.val(st, args[0])
        if lenof(v) is n:
            return [(st, UNIT)]
        if any(x.op not in (INT, 'lin') and lenof(x) is n for x in subterms(v)):
            # back to how long it was before something was written to it
            s = State_copy(st)
            self.setref(s, args[0], mk('trunc', v, n), t)
            return [(s, UNIT)]
        for s in self.e.assume(st, rel(n, lenof(v), 6), True):
            out.append((s, UNIT))
        for s in self.e.assume(st, rel(n, lenof(v), 1), True):
            s = State_copy(s)
            self.setref(s, args[0], mk('trunc', v, n), t)
            out.append((s, UNIT))
        return out

    def v_swap_remove(self, st, f, args, fid, stack, t):
        e = self.e
        s = State_copy(st)
        v = e.val(s, args[0])
        e.require(s, stack, t, rel(args[1], lenof(v), 1), f.a[4] + ' index in bounds')
        x = e.project(v, ('e', args[1]))
        self.setref(s, args[0], mk('removed', v, args[1]), t)
        return [(s, x)]

    def v_retain(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        s = State_copy(st)
        self.setref(s, args[0], self.kept(st, v, args[1], fid, stack), t)
        return [(s, UNIT)]

    def kept(self, st, v, pred, fid, stack):
        """what a predicate leaves of a collection"""
        ph = mk('elem', v, mk('ix', fid, 'retain'))
        root = ('L', mk('fr', fid, 'ret'), 0)
        s = State_copy(st)
        s.mem[root] = ph
        keep = []
        base = s.f.d
        for s2, b in self.truths(s, pred, [mk('ref', root, ())], fid, stack, 'retain'):
            delta = frozenset((k, x) for k, x in s2.f.d.items() if base.get(k) != x)
            keep.append(mk('case', TRUE if b else FALSE, mk('facts', delta)))
        return mk('retained', v, ph, tuple(sorted(set(keep), key=lambda x: x.n)))

    def v_get(self, st, f, args, fid, stack, t):
        e = self.e
        base = self.lastref(st, args[0])
        v = e.val(st, args[0])
        i = e.val(st, args[1])
        if i.op == 'adt':
            r = self.bounds(i, lenof(v))
            if r is None or f.a[4] == 'get_mut':
                return None
            lo, hi = r
            out = []
            good = e.assume(st, rel(lo, hi, 3), True)
            for s in [y for x in good for y in e.assume(x, rel(hi, lenof(v), 3), True)]:
                out.append((s, some(args[0] if lo is integer(0) and hi is lenof(v) else self.sliced(v, lo, hi))))
            for s in [y for x in good for y in e.assume(x, rel(hi, lenof(v), 4), True)] + e.assume(st, rel(lo, hi, 4), True):
                out.append((s, NONE))
            return out
        out = []
        for s in e.assume(st, rel(args[1], lenof(v), 1), True):
            out.append((s, some(self.elemref(base, args[1]))))
        for s in e.assume(st, rel(args[1], lenof(v), 6), True):
            out.append((s, NONE))
        return out

    def bounds(self, i, n):
        """(lo, hi) of a range value over a collection of n elements"""
        fs = dict(zip(i.a[4], i.a[3]))
        if 'RangeFull' in i.a[0]:
            return integer(0), n
        if 'Range' not in i.a[0] or 'exhausted' in fs:
            return None
        lo = fs.get('start', integer(0))
        hi = fs.get('end', n)
        if 'Inclusive' in i.a[0]:
            hi = add(hi, integer(1))
        return lo, hi

    def sliced(self, v, lo, hi):
        """v[lo..hi]: skip what comes before, cut what comes after"""
        if hi is lenof(v) and v.op != 'slice':
            return self.adv(v, lo)
        if v.op == 'slice':
            return self.sliced(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
        if lo is not integer(0):
            v, hi = self.adv(v, lo), add(hi, lo, -1)
        return mk('slice', v, integer(0), hi)

    def v_index(self, st, f, args, fid, stack, t):
        e = self.e
        base = self.lastref(st, args[0])
        v = e.val(st, args[0])
        i = e.val(st, args[1])
        if i.op == 'adt':
            if 'RangeFull' in i.a[0]:
                return [(st, args[0])]
            r = self.bounds(i, lenof(v))
            if r is None:
                return None
            lo, hi = r
            e.require(st, stack, t, mk_and(rel(lo, hi, 3), rel(hi, lenof(v), 3)), 'slice range in bounds')
            if f.a[4] == 'index_mut':
                return [(st, mk('sub', base, lo, hi))]
            if lo is integer(0) and hi is lenof(v):
                return [(st, args[0])]
            return [(st, self.sliced(v, lo, hi))]
        e.require(st, stack, t, rel(i, lenof(v), 1), 'index in bounds')
        return [(st, self.elemref(base, i))]

    def v_swap(self, st, f, args, fid, stack, t):
        e = self.e
        s = State_copy(st)
        v = e.val(s, args[0])
        e.require(s, stack, t, mk_and(rel(args[1], lenof(v), 1), rel(args[2], lenof(v), 1)), 'swap indices in bounds')
        self.setref(s, args[0], mk('perm', v, mk('swap', args[1], args[2])), t)
        return [(s, UNIT)]

    def v_insert(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        v = self.e.val(s, args[0])
        self.e.require(s, stack, t, rel(args[1], lenof(v), 3), 'insert index in bounds')
        self.setref(s, args[0], mk('push', v, self.e.snap(s, args[2])), t)
        return [(s, UNIT)]

    def v_contains(self, st, f, args, fid, stack, t):
        return [(st, app('contains', self.e.val(st, args[0]), self.e.val(st, args[1])))]

    def split_at(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        e.require(st, stack, t, rel(args[1], lenof(v), 3), 'split index in bounds')
        lo = self.sliced(v, integer(0), args[1])
        hi = self.adv(v, args[1])
        return [(st, mk('tup', (lo, hi)))]

    def split_checked(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        ok = rel(args[1], lenof(v), 3)
        out = [(s, some(mk('tup', (self.sliced(v, integer(0), args[1]), self.adv(v, args[1]))))) for s in e.assume(st, ok, True)]
        return out + [(s, NONE) for s in e.assume(st, ok, False)]

    def split_first(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        ok = rel(lenof(v), integer(0), 4)
        out = [(s, some(mk('tup', (e.project(v, ('e', integer(0))), self.adv(v, integer(1)))))) for s in e.assume(st, ok, True)]
        return out + [(s, NONE) for s in e.assume(st, ok, False)]

    def chunk(self, st, f, args, fid, stack, t):
        """first_chunk::<N>, split_first_chunk::<N>"""
        e = self.e
        ga = [x for x in (e.p.fnrefs.get(f) or {}).get('gargs') or [] if str(x).split('_')[0].isdigit()]
        if not ga:
            return None
        v, n = e.val(st, args[0]), integer(int(str(ga[0]).split('_')[0]))
        ok = rel(n, lenof(v), 3)
        hd = self.sliced(v, integer(0), n)
        r = mk('tup', (hd, self.adv(v, n))) if f.a[4].startswith('split') else hd
        return [(s, some(r)) for s in e.assume(st, ok, True)] + [(s, NONE) for s in e.assume(st, ok, False)]

    # ---- rng
    def r_range(self, st, f, args, fid, stack, t):
        e = self.e
        rng = e.val(st, args[1])
        s, res, _ = self.ev(st, 'rng', [mk('k', f.a[4]), e.snap(st, args[1])], fid, t)
        out = [s]
        if rng.op == 'adt' and rng.a[4][:2] == ('start', 'end'):
            lo, hi = rng.a[3][:2]
            e.require(st, stack, t, rel(lo, hi, 1), 'random_range on a non-empty range')
            out = [y for x in e.assume(s, rel(lo, res, 3), True) for y in e.assume(x, rel(res, hi, 1), True)]
        return [(x, res) for x in out]

    def r_choose(self, st, f, args, fid, stack, t):
        e = self.e
        it = e.val(st, args[0])
        s, res, _ = self.ev(st, 'rng', [mk('k', f.a[4]), e.snap(st, args[0])], fid, t)
        out = []
        if it.op == 'adt' and 'Range' in it.a[0]:
            lo, hi = it.a[3][:2]
            for x in e.assume(s, rel(lo, hi, 4 if 'Inclusive' in it.a[0] else 6), True):
                out.append((x, NONE))
        else:
            out.append((s, NONE))
        if it.op != 'it' and not (it.op == 'adt' and 'Range' in it.a[0]):
            it = self.mkit(s, args[0])
        for s2, v, i in self.pull(s, it, fid, stack):
            out.append((s2, some(v)))
        return out

    def r_shuffle(self, st, f, args, fid, stack, t):
        e = self.e
        s, res, evid = self.ev(st, 'rng', [mk('k', f.a[4])], fid, t)
        s = State_copy(s)
        v = e.val(s, args[0])
        self.setref(s, args[0], mk('perm', v, mk('shuffle', evid)), t)
        return [(s, UNIT)]

    def r_other(self, st, f, args, fid, stack, t):
        s, res, _ = self.ev(st, 'rng', [mk('k', f.a[4])] + [self.e.snap(st, a) for a in args[1:]], fid, t)
        return [(s, res)]

    # ---- integers
    def n_sat_add(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        mx = MAXV.get(ty)
        a, b = self.e.val(st, args[0]), self.e.val(st, args[1])
        v = add(a, b)
        if v.op == INT:
            return [(st, integer(min(v.a[0], mx)) if mx else v)]
        if v is a or v is b:
            return [(st, v)]
        return [(st, mk('sat', v, ty))]

    def n_sat_sub(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        a, b = self.e.val(st, args[0]), self.e.val(st, args[1])
        v = add(a, b, -1)
        if v.op == INT:
            return [(st, integer(max(v.a[0], 0)))]
        if v is a:
            return [(st, v)]
        return [(st, mk('sat', v, ty))]

    def n_sat_mul(self, st, f, args, fid, stack, t):
        return [(st, app('satmul', *args))]

    def n_wrap_add(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        v = add(args[0], args[1])
        if v.op == INT and ty in MAXV:
            return [(st, integer(v.a[0] & MAXV[ty]))]
        return [(st, mk('wrap', v, ty))]

    def n_wrap_sub(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        v = add(args[0], args[1], -1)
        return [(st, mk('wrap', v, ty))]

    def n_checked(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        op = f.a[4]
        e = self.e
        if op == 'checked_add':
            v = add(args[0], args[1])
            out = [(s, some(v)) for s in e.assume(st, rel(v, integer(MAXV[ty]), 3), True)]
            return out + [(s, NONE) for s in e.assume(st, rel(v, integer(MAXV[ty]), 4), True)]
        if op == 'checked_sub':
            v = add(args[0], args[1], -1)
            out = [(s, some(v)) for s in e.assume(st, rel(args[0], args[1], 6), True)]
            return out + [(s, NONE) for s in e.assume(st, rel(args[0], args[1], 1), True)]
        if op == 'checked_div':
            out = [(s, some(app('div', args[0], args[1]))) for s in e.assume(st, rel(args[1], integer(0), 5), True)]
            return out + [(s, NONE) for s in e.assume(st, rel(args[1], integer(0), 2), True)]
        return None

    def isint(self, f):
        return f.a[3].lstrip('&') in INTT or f.a[3] in INTT

    def lex(self, st, a, b):
        """[(state, x, y)]: a compares to b the way x compares to y"""
        e = self.e
        a, b = e.val(st, a), e.val(st, b)
        ax, bx = self.comps(a), self.comps(b)
        if ax is None or bx is None or len(ax) != len(bx) or (a.op == 'adt' and a.a[1] != b.a[1]):
            return [(st, a, b)]
        out, cur = [], [st]
        for i, (x, y) in enumerate(zip(ax, bx)):
            nxt = []
            for s in cur:
                for s2, p, q in self.lex(s, x, y):
                    if i == len(ax) - 1:
                        out.append((s2, p, q))
                        continue
                    for s3 in e.assume(s2, rel(p, q, 5), True):
                        out.append((s3, p, q))
                    nxt += e.assume(s2, rel(p, q, 2), True)
            cur = nxt
        return out

    def comps(self, v):
        if v.op == 'tup' and v.a[0]:
            return v.a[0]
        if v.op == 'adt' and v.a[3] and (v.a[0] == 'core::cmp::Reverse' or self.e.p.adts.get(v.a[0], {}).get('kind') == 'struct'):
            return v.a[3] if 'Reverse' not in v.a[0] else None
        return None

    def o_cmp(self, st, f, args, fid, stack, t):
        return [(s, mk('ordv', x, y)) for s, x, y in self.lex(st, args[0], args[1])]

    def o_partial_cmp(self, st, f, args, fid, stack, t):
        return [(s, some(mk('ordv', x, y))) for s, x, y in self.lex(st, args[0], args[1])]

    def o_clamp(self, st, f, args, fid, stack, t):
        e = self.e
        x, lo, hi = [e.val(st, a) for a in args]
        e.require(st, stack, t, rel(lo, hi, 3), 'clamp to a non-empty range')
        out = [(s, lo) for s in e.assume(st, rel(x, lo, 1), True)]
        for s in e.assume(st, rel(x, lo, 6), True):
            out += [(s2, hi) for s2 in e.assume(s, rel(x, hi, 4), True)]
            out += [(s2, x) for s2 in e.assume(s, rel(x, hi, 3), True)]
        return out

    def n_absdiff(self, st, f, args, fid, stack, t):
        e = self.e
        a, b = e.val(st, args[0]), e.val(st, args[1])
        return [(s, add(a, b, -1)) for s in e.assume(st, rel(a, b, 6), True)] + [(s, add(b, a, -1)) for s in e.assume(st, rel(a, b, 1), True)]

    def n_overflowing(self, st, f, args, fid, stack, t):
        m = self.n_wrap_add if f.a[4].endswith('add') else self.n_wrap_sub
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        op = 'Add' if f.a[4].endswith('add') else 'Sub'
        return [(s, mk('tup', (v, app('overflow%s_%s' % (op, ty), args[0], args[1])))) for s, v in m(st, f, args, fid, stack, t)]

    def n_be_bytes(self, st, f, args, fid, stack, t):
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}.get(ty)
        return None if w is None else [(st, app('be_bytes', self.e.val(st, args[0]), integer(w)))]

    def n_from_be(self, st, f, args, fid, stack, t):
        e = self.e
        ty = f.a[1].split('impl ')[-1].split('>')[0]
        w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}.get(ty)
        v = e.val(st, args[0])
        if v.op == 'arr' and w == len(v.a[0]):
            xs = [e.val(st, x) for x in v.a[0]]
            if all(x.op == 'elem' and x.a[0] is xs[0].a[0] and x.a[1] is add(xs[0].a[1], integer(i)) for i, x in enumerate(xs)):
                src = xs[0].a[0] if xs[0].a[1] is integer(0) else self.adv(xs[0].a[0], xs[0].a[1])
                return [(st, app('be_u%d' % (8 * w), src))]
        if v.op in ('slice', 'adv', 'sym', 'fld') or v.op == 'app':
            return [(st, app('be_u%d' % (8 * w), v.a[0] if v.op == 'slice' and v.a[1] is integer(0) else v))]
        return None

    def size_of(self, st, f, args, fid, stack, t):
        ga = (self.e.p.fnrefs.get(f) or {}).get('gargs') or []
        w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(ga[0] if ga else '')
        return None if w is None else [(st, integer(w))]

    def o_minmax(self, st, f, args, fid, stack, t):
        e = self.e
        a, b = e.val(st, args[0]), e.val(st, args[1])
        mx = f.a[4] == 'max'
        out = []
        for s in e.assume(st, rel(a, b, 3), True):
            out.append((s, b if mx else a))
        for s in e.assume(st, rel(a, b, 4), True):
            out.append((s, a if mx else b))
        return out

    def p_cmp(mask):
        def m(self, st, f, args, fid, stack, t):
            return [(s, rel(x, y, mask)) for s, x, y in self.lex(st, args[0], args[1])]
        return m

    def eq(self, st, f, args, fid, stack, t):
        e = self.e
        b = e.p.bodies.get(f.a[0])
        if b is not None and b['local'] and not b.get('derived'):
            return None     # hand-written equality: analyse its body
        r = e.eqterm(st, args[0], args[1])
        return [(st, r if f.a[4] == 'eq' else mk_not(r))]

    # ---- conversions
    def into(self, st, f, args, fid, stack, t):
        return [(st, args[0])]

    def try_into(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        ty = None
        d = t.get('dty', '') if t else ''
        m = re.search(r'Result<(u8|u16|u32|u64|usize)\b', d)
        if m:
            ty = m.group(1)
        elif f.a[3] in MAXV:
            ty = f.a[3]
        if ty is None:
            return None
        out = [(s, ok(v)) for s in e.assume(st, rel(v, integer(MAXV[ty]), 3), True)]
        return out + [(s, err(app('tryfromerr', v))) for s in e.assume(st, rel(v, integer(MAXV[ty]), 4), True)]

    def default(self, st, f, args, fid, stack, t):
        e = self.e
        b = e.p.bodies.get(f.a[0])
        if b is not None and b['local']:
            return e.run_fn(st, f.a[0], args, fid, stack)
        ty = (t.get('dty') if t else None) or f.a[3]
        if ty in INTT:
            return [(st, integer(0))]
        if ty == 'bool':
            return [(st, FALSE)]
        if re.match(r'alloc::(vec::Vec|collections::\w+)<|bytes::Bytes', ty):
            return [(st, VEMPTY)]
        if ty.startswith('core::option::Option<'):
            return [(st, NONE)]
        return [(st, app('default', mk('k', ty)))]

    def unwrap_or_default(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        good, bad, enum = ('Some', 'None', OPT) if 'option' in f.a[1] else ('Ok', 'Err', RES)
        ty = (t.get('dty') if t else None) or ''
        if not (ty in INTT or ty == 'bool' or re.match(r'alloc::(vec::Vec|collections::\w+)<|bytes::Bytes|core::option::Option<', ty)):
            return None
        out = []
        for s in e.assume_var_is(st, v, enum, good):
            out.append((s, e.project(e.project(v, ('v', good)), ('f', 0, '0'))))
        for s in e.assume_var_is(st, v, enum, bad):
            out += self.default(s, f, [], fid, stack, t)
        return out

    def nz_get(self, st, f, args, fid, stack, t):
        v = self.e.val(st, args[0])
        if v.op == 'nzc':
            return [(st, v.a[0])]
        r = app('nzget', v)
        s = st.copy()
        lo, hi = s.f.iv(r)
        s.f.d[('iv', r)] = (max(lo, 1), hi)
        return [(s, r)]

    def nz_new(self, st, f, args, fid, stack, t):
        e = self.e
        v = e.val(st, args[0])
        out = [(s, some(mk('nzc', v))) for s in e.assume(st, rel(v, integer(0), 4), True)]
        return out + [(s, NONE) for s in e.assume(st, rel(v, integer(0), 2), True)]

    def pure(self, st, f, args, fid, stack, t):
        return [(st, app(norm(f.a[1]).split('::')[-1] if not f.a[2] else f.a[4], *[self.e.snap(st, a) for a in args]))]

    # ---- mem
    def m_take(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        old = self.e.val(s, args[0])
        ty = (t.get('argtys') or [''])[0] if t else ''
        if re.match(r'&mut (alloc::(vec::Vec|collections::\w+)<|bytes::Bytes)', ty):
            d = VEMPTY
        elif old.op in ('vempty', 'push', 'popd', 'drain'):
            d = VEMPTY
        elif 'Option<' in ty:
            d = NONE
        elif re.match(r'&mut (u8|u16|u32|u64|usize)$', ty):
            d = integer(0)
        elif ty == '&mut bool':
            d = FALSE
        else:
            d = app('default', mk('k', ty[5:]))
        self.setref(s, args[0], d, t)
        return [(s, old)]

    def m_replace(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        old = self.e.val(s, args[0])
        self.setref(s, args[0], args[1], t)
        return [(s, old)]

    def m_swap(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        a, b = self.e.val(s, args[0]), self.e.val(s, args[1])
        self.setref(s, args[0], b, t)
        self.setref(s, args[1], a, t)
        return [(s, UNIT)]

    def opt_take(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        old = self.e.val(s, args[0])
        self.setref(s, args[0], NONE, t)
        return [(s, old)]

    def as_ref(self, st, f, args, fid, stack, t):
        """Option::as_ref / as_mut"""
        e = self.e
        base = self.lastref(st, args[0])
        v = e.val(st, args[0])
        out = []
        for s in e.assume_var_is(st, v, OPT, 'None'):
            out.append((s, NONE))
        for s in e.assume_var_is(st, v, OPT, 'Some'):
            if base.op == 'ref':
                r = mk('ref', base.a[0], base.a[1] + (('v', 'Some'), ('f', 0, '0')))
            else:
                r = mk('ref', ('P', base), (('v', 'Some'), ('f', 0, '0')))
            out.append((s, some(r)))
        return out

    # ---- byte buffers (reading)
    def cursor(self, st, args):
        return self.lastref(st, args[0])

    def b_remaining(self, st, f, args, fid, stack, t):
        return [(st, lenof(self.e.val(st, args[0])))]

    def b_has_remaining(self, st, f, args, fid, stack, t):
        return [(st, rel(lenof(self.e.val(st, args[0])), integer(0), 4))]

    def b_get(width):
        def m(self, st, f, args, fid, stack, t):
            e = self.e
            s = State_copy(st)
            v = e.val(s, args[0])
            e.require(s, stack, t, rel(lenof(v), integer(width), 6), 'buffer holds %d bytes' % width)
            r = app('be_u%d' % (8 * width), v)
            s.f = s.f.copy()
            s.f.d[('iv', r)] = (0, (1 << (8 * width)) - 1)
            s, _, _ = self.ev(s, 'buf_get%d' % width, [v], fid, t)
            s = State_copy(s)
            self.setcur(s, f, args[0], self.adv(v, integer(width)), t)
            return [(s, r)]
        return m

    def adv(self, v, n):
        if n is integer(0):
            return v
        if v.op == 'slice':
            return self.sliced(v, n, lenof(v))
        if v.op == 'adv':
            return mk('adv', v.a[0], add(v.a[1], n))
        return mk('adv', v, n)

    def setcur(self, s, f, ref, v, t):
        """advance a reader: for `&[u8]` the slice variable itself moves"""
        if f.a[3].startswith('&') and ref.op == 'ref':
            cur = self.e.read(s, ref.a[0], ref.a[1])
            while cur.op == 'ref' and self.e.read(s, cur.a[0], cur.a[1]).op == 'ref':
                ref, cur = cur, self.e.read(s, cur.a[0], cur.a[1])
            self.e.assign(s, ref.a[0], ref.a[1], v, t.get('span') if t else None)
            return
        self.setref(s, ref, v, t)

    def b_advance(self, st, f, args, fid, stack, t):
        e = self.e
        s = State_copy(st)
        v = e.val(s, args[0])
        e.require(s, stack, t, rel(args[1], lenof(v), 3), 'advance within buffer')
        self.setcur(s, f, args[0], self.adv(v, args[1]), t)
        return [(s, UNIT)]

    # ---- byte buffers (writing)
    def room(self, v):
        return app('room', v)

    def w_remaining(self, st, f, args, fid, stack, t):
        v = self.e.val(st, args[0])
        return [(st, self.room(v))]

    def w_has(self, st, f, args, fid, stack, t):
        return [(st, rel(self.room(self.e.val(st, args[0])), integer(0), 4))]

    def w_put(self, st, f, args, fid, stack, t):
        e = self.e
        s = State_copy(st)
        item = e.snap(s, args[1])
        tgt = self.lastref(s, args[0])
        nm = f.a[4]
        if 'bytes::BytesMut' in f.a[3] and nm in ('put_slice', 'put'):
            return self.v_extend(st, f, args, fid, stack, t)
        if item.op == 'app' and item.a[0] == 'be_bytes' and nm in ('put_slice', 'put'):
            nm = 'put_u%d' % (8 * item.a[1][1].a[0])
            item = item.a[1][0]
        if tgt.op == 'sub' or (tgt.op != 'ref' and e.val(s, tgt).op == 'sub'):
            sub = tgt if tgt.op == 'sub' else e.val(s, tgt)
            e.require(s, stack, t, rel(add(sub.a[2], sub.a[1], -1), integer({'put_u8': 1, 'put_u16': 2, 'put_u32': 4}.get(nm, 1)), 6), nm + ' fits sub-slice')
            base = sub.a[0]
            old = e.val(s, base)
            self.setref(s, base, mk('patch', old, sub.a[1], mk('put', nm, item)), t)
            return [(s, UNIT)]
        v = e.val(s, args[0])
        if v.op == 'sub':
            old = e.val(s, v.a[0])
            e.require(s, stack, t, rel(add(v.a[2], v.a[1], -1), integer({'put_u8': 1, 'put_u16': 2, 'put_u32': 4}.get(nm, 1)), 6), nm + ' fits sub-slice')
            self.setref(s, v.a[0], mk('patch', old, v.a[1], mk('put', nm, item)), t)
            return [(s, UNIT)]
        need = {'put_u8': integer(1), 'put_u16': integer(2), 'put_u32': integer(4), 'put_u64': integer(8)}.get(nm)
        if need is None:
            need = lenof(item)
        e.require(s, stack, t, rel(self.room(v), need, 6), nm + ' fits the buffer')
        s, _, _ = self.ev(s, nm, [v, item], fid, t)
        s = State_copy(s)
        self.setref(s, args[0], mk('put', nm, item, v), t)
        return [(s, UNIT)]

    def copy_in(self, st, f, args, fid, stack, t):
        """overwrite a stretch of a buffer"""
        e = self.e
        s = State_copy(st)
        item = e.snap(s, args[1])
        tgt = self.lastref(s, args[0])
        sub = tgt if tgt.op == 'sub' else e.val(s, tgt)
        if sub.op != 'sub':
            return None
        e.require(s, stack, t, rel(add(sub.a[2], sub.a[1], -1), lenof(item), 2), 'copy between slices of the same length')
        nm = 'put_slice'
        if item.op == 'app' and item.a[0] == 'be_bytes':
            nm = 'put_u%d' % (8 * item.a[1][1].a[0])
            item = item.a[1][0]
        self.setref(s, sub.a[0], mk('patch', e.val(s, sub.a[0]), sub.a[1], mk('put', nm, item)), t)
        return [(s, UNIT)]

    def lim(self, st, f, args, fid, stack, t):
        return [(st, mk('limit', self.e.val(st, args[0]), self.e.val(st, args[1])))]

    def lim_ref(self, st, f, args, fid, stack, t):
        return [(st, args[0])]

    # ---- trait boundaries
    def runtime(self, st, f, args, fid, stack, t):
        e = self.e
        b = e.p.bodies.get(f.a[0])
        if b is not None and b['local'] and b.get('impl_self') and not b['impl_self'].startswith('&'):
            return None
        s, res, _ = self.ev(st, f.a[4], [e.snap(st, a) for a in args[1:]], fid, t)
        return [(s, UNIT)]

    def codec(self, st, f, args, fid, stack, t):
        e = self.e
        nm = f.a[4]
        if nm.startswith('encode'):
            item, buf = e.snap(st, args[1]), e.val(st, args[2])
            s, res, evid = self.ev(st, nm, [item, buf], fid, t)
            s = State_copy(s)
            self.setref(s, args[2], mk('enc', nm, item, buf, evid), t)
            return [(s, res)]
        buf = e.val(st, args[1])
        s, res, evid = self.ev(st, nm, [buf], fid, t)
        s = State_copy(s)
        self.setref(s, args[1], mk('after', evid, buf), t)
        return [(s, res)]

    def handler(self, st, f, args, fid, stack, t):
        e = self.e
        nm = f.a[4]
        if nm == 'should_add_broadcast_data':
            return [(st, app('should_add', e.snap(st, args[1])))]
        s, res, _ = self.ev(st, nm, [e.snap(st, a) for a in args[1:]], fid, t)
        return [(s, res)]

    def ident_trait(self, st, f, args, fid, stack, t):
        e = self.e
        if f.a[4] == 'win_addr_conflict' and e.collect_obl:
            a, b = [e.snap(st, x) for x in args]
            # an identity that cannot be renewed never meets another one at its address
            renewed = any(k[0] == 'var' and v == frozenset(['Some']) and k[1].op == 'app' and k[1].a[0] == 'renew' for k, v in st.f.d.items())
            if not renewed:
                e.require(st, stack, t, mk_not(e._eq(a, b)), 'only different identities are put against each other: this')
        return [(st, app(f.a[4], *[self.e.snap(st, a) for a in args]))]

    def box_new(self, st, f, args, fid, stack, t):
        return [(st, app('box', self.e.snap(st, args[0])))]

    def fmt(self, st, f, args, fid, stack, t):
        return [(st, mk('fmtres', fid))]

    def ctl_bool(self, st, f, args, fid, stack, t):
        """bool::then / then_some"""
        e = self.e
        b = e.val(st, args[0])
        out = [(s, NONE) for s in e.assume(st, b, False)]
        for s in e.assume(st, b, True):
            if f.a[4] == 'then_some':
                out.append((s, some(args[1])))
            else:
                for s2, v in self.callc(s, args[1], [], fid, stack, 'then'):
                    out.append((s2, some(v)))
        return out

    def install(self):
        T, TT = self.tab, self.trait_tab
        for c in ('alloc::vec::Vec', 'alloc::collections::BinaryHeap', 'alloc::collections::VecDeque', 'alloc::collections::vec_deque::VecDeque',
                  'alloc::collections::binary_heap::BinaryHeap', 'alloc::string::String'):
            for n, m in (('new', self.v_new), ('with_capacity', self.v_new), ('clear', self.v_clear), ('push', self.v_push), ('push_back', self.v_push),
                         ('pop', self.v_pop), ('pop_front', self.v_pop), ('pop_back', self.v_pop), ('len', self.v_len), ('is_empty', self.v_is_empty),
                         ('capacity', self.v_capacity), ('drain', self.v_drain), ('append', self.v_append), ('truncate', self.v_truncate),
                         ('swap_remove', self.v_swap_remove), ('remove', self.v_swap_remove), ('retain', self.v_retain), ('iter', self.s_iter),
                         ('iter_mut', self.s_iter), ('as_slice', self.ident), ('as_mut_slice', self.ident), ('insert', self.v_insert),
                         ('extend_from_slice', self.v_extend), ('get', self.v_get), ('into_vec', self.ident), ('into_sorted_vec', self.ident)):
                T.setdefault(c + '::' + n, m)
            T[c + '::reserve'] = T[c + '::reserve_exact'] = self.v_reserve
            T[c + '::shrink_to_fit'] = self.noop
        T['alloc::collections::VecDeque::push_front'] = self.v_pushf
        for n, m in (('iter', self.s_iter), ('iter_mut', self.s_iter), ('len', self.v_len), ('is_empty', self.v_is_empty), ('get', self.v_get), ('get_mut', self.v_get),
                     ('swap', self.v_swap), ('to_vec', self.clone), ('contains', self.v_contains), ('split_at', self.split_at),
                     ('split_at_checked', self.split_checked), ('split_first', self.split_first), ('first_chunk', self.chunk), ('split_first_chunk', self.chunk), ('first', self.v_first), ('first_mut', self.v_first), ('last', self.v_last), ('last_mut', self.v_last)):
            T['core::slice::[T]::' + n] = m
            T['alloc::slice::[T]::' + n] = m
        for ty in INTT:
            for n, m in (('saturating_add', self.n_sat_add), ('saturating_sub', self.n_sat_sub), ('wrapping_add', self.n_wrap_add), ('wrapping_sub', self.n_wrap_sub),
                         ('checked_add', self.n_checked), ('checked_sub', self.n_checked), ('checked_div', self.n_checked), ('saturating_mul', self.n_sat_mul),
                         ('overflowing_add', self.n_overflowing), ('overflowing_sub', self.n_overflowing), ('abs_diff', self.n_absdiff),
                         ('to_be_bytes', self.n_be_bytes), ('from_be_bytes', self.n_from_be)):
                T['core::num::%s::%s' % (ty, n)] = m
        T['core::num::NonZero::get'] = self.nz_get
        T['core::num::NonZero::new'] = self.nz_new
        for n in ('core::ops::RangeInclusive', 'core::ops::range::RangeInclusive'):
            T[n + '::new'] = self.r_incl
            T[n + '::contains'] = self.r_contains
        for n in ('core::ops::Range', 'core::ops::range::Range'):
            T[n + '::contains'] = self.r_contains
        T['core::mem::take'] = self.m_take
        T['core::mem::replace'] = self.m_replace
        T['core::mem::swap'] = self.m_swap
        T['core::mem::drop'] = self.noop
        T['core::mem::discriminant'] = self.discriminant
        T['core::option::Option::unwrap_or_default'] = self.unwrap_or_default
        T['core::result::Result::unwrap_or_default'] = self.unwrap_or_default
        T['core::option::Option::take'] = self.opt_take
        T['core::option::Option::iter'] = T['core::option::Option::iter_mut'] = self.into_iter
        T['core::option::Option::replace'] = self.opt_replace
        T['core::option::Option::as_ref'] = self.as_ref
        T['core::option::Option::as_mut'] = self.as_ref
        T['core::option::Option::as_deref'] = self.as_ref
        T['core::option::Option::cloned'] = self.clone
        T['core::option::Option::copied'] = self.clone
        T['alloc::boxed::Box::new'] = self.box_new
        T['core::bool::then'] = self.ctl_bool
        T['core::bool::bool::then'] = self.ctl_bool
        T['core::bool::bool::then_some'] = self.ctl_bool
        T['core::hint::black_box'] = self.ident
        T['core::convert::identity'] = self.ident
        for n in ('get_ref', 'get_mut', 'into_inner'):
            T['bytes::buf::Limit::' + n] = self.lim_ref
        T['bytes::buf::Limit::limit'] = self.lim_limit
        # traits
        I = 'Iterator'
        TT[(I, 'next')] = self.i_next
        TT[(I, 'find')] = self.i_find
        TT[(I, 'find_map')] = self.i_find_map
        TT[(I, 'position')] = self.i_position
        TT[(I, 'any')] = self.i_any
        TT[(I, 'all')] = self.i_all
        TT[(I, 'count')] = self.i_count
        TT[(I, 'collect')] = self.i_collect
        TT[(I, 'for_each')] = self.i_for_each
        TT[(I, 'try_for_each')] = self.i_for_each
        for n, k, ar in (('filter', 'filter', 2), ('map', 'map', 2), ('filter_map', 'filter_map', 2), ('skip', 'skip', 2), ('take', 'take', 2), 
                         ('rev', 'rev', 1), ('cloned', 'cloned', 1), ('copied', 'cloned', 1), ('peekable', 'peek', 1), ('fuse', 'fuse', 1), ('chain', 'chain', 2), ('zip', 'zip', 2), ('flatten', 'flatten', 1)):
            TT[(I, n)] = Models.adapt(k, ar).__get__(self)
        TT[(I, 'enumerate')] = self.i_enumerate
        TT[(I, 'by_ref')] = self.ident
        TT[(I, 'fold')] = self.i_fold
        TT[(I, 'try_fold')] = self.i_fold
        TT[(I, 'sum')] = self.i_sum
        TT[(I, 'nth')] = self.i_nth
        TT[('IntoIterator', 'into_iter')] = self.into_iter
        TT[('Extend', 'extend')] = self.v_extend
        TT[('Clone', 'clone')] = self.clone
        TT[('ToOwned', 'to_owned')] = self.clone
        TT[('Borrow', 'borrow')] = self.ident
        TT[('AsRef', 'as_ref')] = self.ident
        TT[('AsMut', 'as_mut')] = self.ident
        TT[('BorrowMut', 'borrow_mut')] = self.ident
        TT[('Deref', 'deref')] = self.ident
        TT[('DerefMut', 'deref_mut')] = self.ident
        TT[('Into', 'into')] = self.into_local
        TT[('From', 'from')] = self.from_local
        TT[('TryFrom', 'try_from')] = self.try_into
        TT[('TryInto', 'try_into')] = self.try_into
        TT[('Default', 'default')] = self.default
        TT[('PartialEq', 'eq')] = self.eq
        TT[('PartialEq', 'ne')] = self.eq
        TT[('Ord', 'cmp')] = self.o_cmp
        TT[('Ord', 'clamp')] = self.o_clamp
        T['core::mem::size_of'] = self.size_of
        T['core::slice::[T]::copy_from_slice'] = self.copy_in
        T['core::slice::[T]::clone_from_slice'] = self.copy_in
        TT[('Ord', 'max')] = self.o_minmax
        TT[('Ord', 'min')] = self.o_minmax
        T['core::cmp::max'] = self.o_minmax
        T['core::cmp::min'] = self.o_minmax
        TT[('PartialOrd', 'partial_cmp')] = self.o_partial_cmp
        for n, m in (('lt', 1), ('le', 3), ('gt', 4), ('ge', 6)):
            TT[('PartialOrd', n)] = Models.p_cmp(m).__get__(self)
        TT[('Index', 'index')] = self.v_index
        TT[('IndexMut', 'index_mut')] = self.v_index
        TT[('Rng', 'random_range')] = self.r_range
        TT[('Rng', '*')] = self.r_other
        TT[('RngCore', '*')] = self.r_other
        TT[('IteratorRandom', '*')] = self.r_choose
        TT[('IndexedRandom', '*')] = self.r_choose
        TT[('SliceRandom', '*')] = self.r_shuffle
        TT[('Buf', 'remaining')] = self.b_remaining
        TT[('Buf', 'has_remaining')] = self.b_has_remaining
        TT[('Buf', 'get_u16')] = Models.b_get(2).__get__(self)
        TT[('Buf', 'get_u8')] = Models.b_get(1).__get__(self)
        TT[('Buf', 'get_u32')] = Models.b_get(4).__get__(self)
        for w in (1, 2, 4):
            TT[('Buf', 'try_get_u%d' % (8 * w))] = Models.b_try_get(w).__get__(self)
        TT[('Buf', 'copy_to_bytes')] = self.b_copy
        TT[('Buf', 'advance')] = self.b_advance
        TT[('Buf', 'chunk')] = self.peel1
        TT[('BufMut', 'remaining_mut')] = self.w_remaining
        TT[('BufMut', 'has_remaining_mut')] = self.w_has
        for n in ('put_u8', 'put_u16', 'put_u32', 'put_u64', 'put_slice', 'put'):
            TT[('BufMut', n)] = self.w_put
        TT[('BufMut', 'limit')] = self.lim
        TT[('Runtime', '*')] = self.runtime
        TT[('Codec', '*')] = self.codec
        TT[('BroadcastHandler', '*')] = self.handler
        TT[('Identity', '*')] = self.ident_trait
        TT[('Invalidates', 'invalidates')] = self.invalidates
        TT[('ToString', 'to_string')] = self.clone
        TT[('Debug', 'fmt')] = self.fmt
        TT[('Display', 'fmt')] = self.fmt
        for n in ('from_millis', 'from_secs', 'from_nanos', 'from_micros', 'as_secs'):
            T['core::time::Duration::' + n] = self.pure
        for n in ('as_secs_f64', 'as_secs_f32', 'as_millis', 'as_micros', 'as_nanos', 'subsec_millis', 'subsec_nanos',
                  'saturating_add', 'saturating_sub', 'saturating_mul', 'checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'is_zero'):
            T['core::time::Duration::' + n] = self.pure
        for n in ('new', 'from_secs_f64', 'from_secs_f32', 'mul_f64', 'mul_f32', 'div_f64', 'div_f32'):
            T['core::time::Duration::' + n] = self.dur_f64
        for m in ('std::f64::f64::', 'core::f64::f64::', 'std::f32::f32::', 'core::f32::f32::'):
            for n in ('log10', 'log2', 'ln', 'sqrt', 'max', 'min', 'ceil', 'floor', 'round', 'trunc', 'abs', 'powf', 'powi', 'exp'):
                T[m + n] = self.pure_f
            T[m + 'clamp'] = self.clamp_f
        T['bytes::Bytes::copy_from_slice'] = self.clone
        for c in ('bytes::BytesMut::', 'bytes::Bytes::'):
            for n, m in (('new', self.v_new), ('len', self.v_len), ('is_empty', self.v_is_empty), ('clear', self.v_clear), ('truncate', self.v_truncate),
                         ('freeze', self.peel1), ('split', self.by_split), ('split_to', self.by_split), ('split_off', self.by_split), ('extend_from_slice', self.v_extend),
                         ('reserve', self.v_reserve)):
                T[c + n] = m
        T['bytes::BytesMut::with_capacity'] = self.by_new

    def by_new(self, st, f, args, fid, stack, t):
        if args:
            self.fits_alloc(st, stack, t, self.e.val(st, args[0]))
        return [(st, VEMPTY)]

    def by_split(self, st, f, args, fid, stack, t):
        """BytesMut::{split, split_to, split_off}"""
        e = self.e
        s = State_copy(st)
        v = e.val(s, args[0])
        n = e.val(s, args[1]) if len(args) > 1 else lenof(v)
        e.require(s, stack, t, rel(n, lenof(v), 3), f.a[4] + ' within the buffer')
        lo = v if n is lenof(v) else VEMPTY if n is integer(0) else mk('slice', v, integer(0), n)
        hi = VEMPTY if n is lenof(v) else self.adv(v, n)
        if f.a[4] == 'split_off':
            lo, hi = hi, lo
        self.setref(s, args[0], hi, t)
        return [(s, lo)]

    def pure_f(self, st, f, args, fid, stack, t):
        return [(st, app('f_' + f.a[4], *[self.e.snap(st, a) for a in args]))]

    def clamp_f(self, st, f, args, fid, stack, t):
        x, lo, hi = [self.e.snap(st, a) for a in args]
        num = [float(y.a[0]) if y.op in ('float', INT) else None for y in (lo, hi)]
        ok = None not in num and num[0] <= num[1]
        self.e.require(st, stack, t, TRUE if ok else app('fLe', lo, hi), 'clamp to a non-empty range')
        return [(st, app('f_min', app('f_max', x, lo), hi))]

    def dur_f64(self, st, f, args, fid, stack, t):
        a = [self.e.snap(st, x) for x in args]
        self.e.require(st, stack, t, app('duration_ok', f.a[4], *a), f.a[4] + ' of a representable value')
        return [(st, app(f.a[4], *a))]

    def s_iter(self, st, f, args, fid, stack, t):
        return [(st, self.mkit(st, args[0]))]

    def into_iter(self, st, f, args, fid, stack, t):
        d = (t.get('dty') if t else '') or ''
        if d.startswith('core::option::I') or f.a[4] in ('iter', 'iter_mut') and 'option' in f.a[1]:
            # an optional value, as a list of none or one
            e = self.e
            byref = not d.startswith('core::option::IntoIter<')
            v = e.val(st, args[0])
            base = self.lastref(st, args[0])
            path = (('v', 'Some'), ('f', 0, '0'))
            out = [(s, mk('it', 'arrit', ())) for s in e.assume_var_is(st, v, OPT, 'None')]
            for s in e.assume_var_is(st, v, OPT, 'Some'):
                if byref:
                    x = mk('ref', base.a[0], base.a[1] + path) if base.op == 'ref' else mk('ref', ('P', base), path)
                else:
                    x = e.project(e.project(v, path[0]), path[1])
                out.append((s, mk('it', 'arrit', (x,))))
            return out
        return [(st, self.mkit(st, args[0]))]

    def discriminant(self, st, f, args, fid, stack, t):
        ty = re.sub(r'^&(mut )?|<.*$', '', (t.get('argtys') or [''])[0])
        key = ty if ty in self.e.p.adts else 'foca::' + ty
        return [(st, self.e.discr(st, args[0], key))] if key in self.e.p.adts else None

    def noop(self, st, f, args, fid, stack, t):
        return [(st, UNIT)]

    def v_first(self, st, f, args, fid, stack, t):
        return self.v_get(st, f, [args[0], integer(0)], fid, stack, t)

    def r_incl(self, st, f, args, fid, stack, t):
        # a ..= b as a .. b + 1, over the integers
        if not (f.a[4] and t and any(x in str(t.get('dty')) for x in INTT)):
            return None
        return [(st, adt('core::ops::range::Range', 'Range', 0, (args[0], add(args[1], integer(1))), ('start', 'end')))]

    def r_contains(self, st, f, args, fid, stack, t):
        r, x = self.e.val(st, args[0]), self.e.val(st, args[1])
        if r.op != 'adt' or r.a[4][:2] != ('start', 'end'):
            return None
        return [(st, mk_and(rel(r.a[3][0], x, 3), rel(x, r.a[3][1], 1)))]

    def v_pushf(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        self.setref(s, args[0], mk('pushf', self.e.val(s, args[0]), self.e.snap(s, args[1])), t)
        return [(s, UNIT)]

    def opt_replace(self, st, f, args, fid, stack, t):
        s = State_copy(st)
        old = self.e.val(s, args[0])
        self.setref(s, args[0], some(args[1]), t)
        return [(s, old)]

    def lim_limit(self, st, f, args, fid, stack, t):
        return [(st, app('limit_of', self.e.val(st, args[0])))]

    def from_local(self, st, f, args, fid, stack, t):
        return [(st, args[0])]

    into_local = from_local

    def invalidates(self, st, f, args, fid, stack, t):
        return [(st, app('invalidates', *[self.e.snap(st, a) for a in args]))]


def State_copy(st):
    from engine import State
    return State(dict(st.mem), st.f, st.tr)


def build(eng):
    return Models(eng)
