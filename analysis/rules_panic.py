"""C06: no reachable panic, overflow or out-of-bounds access.

Every local body is symbolically executed from some entry (the API entries,
then whatever they do not reach).  Every `assert` terminator (overflow, bounds,
division), every precondition of a panicking library call and every reachable
diverging call is an obligation: it has to be excluded by the facts of its
path, by difference bounds over them, or by one of the listed invariants, whose
preservation is an obligation of its own."""
import math
import os
import re
from core import *
from engine import bag, strip_drain, State, TR0
from terms import feasible
import contracts
from models import NONE, norm

# documented to panic under some condition (tools/mkpanicdocs.py)
PANICS = frozenset(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'panicdocs.txt')).read().split())
CRATES = ('core', 'alloc', 'std', 'bytes', 'rand', 'rand_core', 'bincode', 'postcard', 'serde', 'serde_core', 'tracing', 'tracing_core')


def total(n):
    """a call without a body or a model whose documentation knows no panic"""
    if n == 'indirect':
        return True
    q = norm(n).split('::')
    if len(q) > 2 and q[0] not in CRATES and not q[0].startswith('<'):
        return False
    q = q[-2:]
    if re.match(r'[ui](8|16|32|64|128|size)$', q[0]):
        q[0] = 'uint_macros' if q[0][0] == 'u' else 'int_macros'
    return '::'.join(q) not in PANICS


BYTES = {'put_u8': 1, 'put_u16': 2, 'put_u32': 4, 'put_u64': 8}
LEN_MAX = 1 << 56       # no address space holds more elements
COUNT_MAX = 1 << 60     # no loop runs this often in steps of one


class Prover:
    """difference bounds a - b <= c over the facts of one state"""

    def __init__(self, c, e, st, extra=(), depth=0):
        self.c, self.e, self.st = c, e, st
        self.extra, self.depth = extra, depth
        self.edges = {}
        self.atoms = set()
        for k, v in st.f.d.items():
            if k[0] == 'rel':
                self.fact(k[1], k[2], v)
            elif k[0] == 'iv':
                self.atom(k[1])
        for a, b, m in extra:
            self.fact(a, b, m)
        self.closure(self.atoms)

    def atom(self, x):
        if x.op not in ('lin', INT):
            self.atoms.add(x)

    def edge(self, a, b, c):
        """a - b <= c"""
        k = (a, b)
        if c < self.edges.get(k, math.inf):
            self.edges[k] = c

    def fact(self, a, b, m):
        d = add(a, b, -1)
        if m in (1, 2, 3):
            self.le(d, -1 if m == 1 else 0)
        if m in (4, 2, 6):
            self.le(add(integer(0), d, -1), -1 if m == 4 else 0)

    def le(self, d, c):
        """linear form d <= c"""
        k, p = lin_parts(d)
        pos = [x for x, n in p.items() if n == 1]
        neg = [x for x, n in p.items() if n == -1]
        if len(pos) + len(neg) != len(p):
            return
        for x in p:
            self.atoms.add(x)
        # further non-negative summands on the small side may be dropped
        for a in pos or [None]:
            if len(neg) <= 1:
                self.edge(a, neg[0] if neg else None, c - k)

    def derive(self, x):
        """facts about one atom; returns further atoms"""
        lo, hi = self.st.f.iv(x)
        for a, b, m in self.extra:
            if a is x and b.op == INT and m == 6:
                lo = max(lo, b.a[0])
        # values it is known to differ from
        if x.op not in (INT, 'lin'):
            while lo >= 0 and lo < 4 and self.st.f.relmask(x, integer(int(lo))) & 2 == 0:
                lo += 1
        if lo != -INF:
            self.edge(None, x, -lo)
        if hi != INF:
            self.edge(x, None, hi)
        out = []
        if is_len(x):
            out += self.lens(x.a[1][0])
        if x.op == 'app' and x.a[0] == 'room':
            v = x.a[1][0]
            if v.op == 'put' and len(v.a) > 2:
                n = BYTES.get(v.a[0])
                y = app('room', v.a[2])
                size = integer(n) if n else lenof_(self.e, v.a[1])
                # the space left shrinks by what was written
                self.fact(add(x, size), y, 2)
                out.append(y)
            g, base = written(self.e, v)
            if base is not None and base.op == 'limit':
                # nothing beyond the limit is accepted
                self.fact(add(x, integer(g)), base.a[1], 3)
                out += [z for z in lin_parts(base.a[1])[1]]
        if x.op == 'sat':
            y = x.a[0]
            self.edge(None, x, -max(self.low(y), 0))
            out += list(lin_parts(y)[1])
        if x.op == 'app' and x.a[0] == 'rem':
            # (dividing by zero is an obligation of its own)
            self.fact(add(x, integer(1)), x.a[1][1], 3)
            out += list(lin_parts(x.a[1][1])[1])
        if x.op == 'app' and x.a[0] == 'div' and x.a[1][1].op == INT and x.a[1][1].a[0] > 0:
            n = x.a[1][1].a[0]
            l2 = self.low(x.a[1][0])
            self.edge(None, x, -(max(l2, 0) // n))
        return [y for y in out if isinstance(y, T)]

    def low(self, t):
        """a lower bound of a term by its own difference bounds"""
        if self.depth > 3:
            return self.st.f.iv(t)[0]
        p = Prover(self.c, self.e, self.st, self.extra, self.depth + 1)
        k, parts = lin_parts(t)
        pos = [x for x, n in parts.items() if n == 1]
        neg = [x for x, n in parts.items() if n == -1]
        if len(pos) + len(neg) != len(parts) or len(pos) > 1 or len(neg) > 1:
            return self.st.f.iv(t)[0]
        p.closure(parts)
        d = p.dist(neg[0] if neg else None, pos[0] if pos else None)
        return max(self.st.f.iv(t)[0], k - d if d != math.inf else -math.inf)

    def closure(self, todo):
        todo = list(todo)
        seen = set()
        self.atoms.update(todo)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.derive(x):
                self.atoms.add(y)
                todo.append(y)

    def lens(self, v):
        """how the length of one value relates to that of what it was made from"""
        out = []
        e = self.e
        for base in lineage(e, v):
            g = grows(e, v, base)
            if g is not None:
                y = lenof_(e, base)
                self.fact(add(y, integer(g)), lenof_(e, v), 3)
                out += list(lin_parts(y)[1])
        if v.op == 'lv':
            # a vector that grows at least as fast as a counter of the same loop
            lev = e.loopinfo.get(v.a[0])
            if lev is not None:
                ini = {p.a[0]: p.a[1] for p in lev.a[3].a[0]}
                for w in ini:
                    if w is v or ini[w].op not in (INT, 'lin'):
                        continue
                    if ini[w].op == INT and ini[w].a[0] > 0 and self.e.evalb(self.st, rel(ini[w], lenof_(e, ini[v]), 3)) is not True:
                        continue
                    good = True
                    short = []      # facts of the rounds in which the counter outpaces the vector
                    for it in lev.a[2].a[0]:
                        steps = {p.a[0]: p.a[1] for p in it.a[1].a[0]}
                        dc, dp = lin_parts(add(steps.get(w, w), w, -1))
                        g = grows(e, steps.get(v, v), v)
                        if dp or g is None:
                            good = False
                        elif dc > g:
                            short.append(Facts(dict(it.a[2].a[0])))
                    if good and not short:
                        self.fact(w, app('len', v), 3)
                        out.append(w)
                    elif good and ini[w] is integer(0):
                        # ... only once it has reached a bound: len(v) >= min(w, bound)
                        for K in {y for k in short[0].d if k[0] == 'rel' and w in k[1:] for y in k[1:] if y is not w and not is_counter(y, v.a[0])}:
                            if all(e.evalb(State({}, f, TR0), rel(w, K, 6)) is True for f in short):
                                if e.evalb(self.st, rel(w, K, 6)) is True:
                                    self.fact(K, app('len', v), 3)
                                    out.append(K)
                                elif e.evalb(self.st, rel(w, K, 3)) is True:
                                    self.fact(w, app('len', v), 3)
                                    out.append(w)
        return out

    def dist(self, a, b):
        """least c with a - b <= c  (None stands for 0)"""
        # b -> ... -> a : shortest path over edges (x - y <= c  is an edge y -> x)
        best = {b: 0}
        for _ in range(len(self.atoms) + 2):
            ch = False
            for (x, y), c in self.edges.items():
                if y in best and best[y] + c < best.get(x, math.inf):
                    best[x] = best[y] + c
                    ch = True
            if not ch:
                break
        return best.get(a, math.inf)

    def holds(self, t):
        if t is TRUE:
            return True
        if t.op == 'and':
            return self.holds(t.a[0]) and self.holds(t.a[1])
        if self.e.evalb(self.st, t) is True:
            return True
        if t.op != 'rel':
            return False
        d = add(t.a[0], t.a[1], -1)
        m = t.a[2]
        if m in (1, 3):
            return self.upto(d, -1 if m == 1 else 0)
        if m in (4, 6):
            return self.upto(add(integer(0), d, -1), -1 if m == 4 else 0)
        if m == 5:
            return self.upto(d, -1) or self.upto(add(integer(0), d, -1), -1)
        if m == 2:
            return self.upto(d, 0) and self.upto(add(integer(0), d, -1), 0)
        return False

    def upto(self, d, c):
        """is the linear form d <= c?"""
        k, p = lin_parts(d)
        pos = [x for x, n in p.items() if n == 1]
        neg = [x for x, n in p.items() if n == -1]
        self.closure(p)
        if len(pos) + len(neg) == len(p):
            if len(pos) <= 1 and len(neg) <= 1 and self.dist(pos[0] if pos else None, neg[0] if neg else None) + k <= c:
                return True
            if len(pos) > 1 and len(neg) == 0 and sum(self.dist(x, None) for x in pos) + k <= c:
                return True
        return self.combined(d, c)

    def combined(self, d, c):
        """is d <= c by some linear combination of the facts?"""
        w = self.st.f.wide()
        if not w:
            return False
        by = {}
        for (x, y), n in self.edges.items():
            if n != math.inf and n != -math.inf:
                t = add(add(integer(int(n)), y, 1) if y is not None else integer(int(n)), x if x is not None else integer(0), -1)
                for z in (x, y):
                    if z is not None:
                        by.setdefault(z, []).append(t)
        for x, ks in w.items():
            for kk in ks:
                m = self.st.f.d[kk]
                t = add(kk[1], kk[2], -1)
                if m in (4, 2, 6):
                    by.setdefault(x, []).append(add(t, integer(1), -1) if m == 4 else t)
                if m in (1, 2, 3):
                    n = add(integer(0), t, -1)
                    by.setdefault(x, []).append(add(n, integer(1), -1) if m == 1 else n)
        atoms, used = [], set()
        todo = list(lin_parts(d)[1])
        while todo:
            x = todo.pop(0)
            if x in atoms:
                continue
            atoms.append(x)
            if len(atoms) > 12:
                return False
            for t in by.get(x, ()):
                if t not in used:
                    used.add(t)
                    todo += lin_parts(t)[1]
            if x.op == 'sat':
                v = x.a[0]
                if any(n < 0 for n in lin_parts(v)[1].values()) or lin_parts(v)[0] < 0:
                    used.add(add(x, v, -1))
                    if self.low(v) >= 0:
                        used.add(add(v, x, -1))
                else:
                    used.add(add(v, x, -1))
                todo += lin_parts(v)[1]
        cons = [lin_parts(t) for t in used] + [lin_parts(add(d, integer(c + 1), -1))]
        return not feasible(cons)


def is_counter(t, lid):
    """changes in the loop"""
    return any(x.op == 'lv' and x.a[0] is lid for x in subterms(t))


def is_len(t):
    return t.op == 'app' and t.a[0] == 'len'


def lenof_(e, v):
    return e.models.lenof(v)


def steps_of(v):
    """(value it was made from, least growth) of a buffer operation"""
    if v.op == 'put' and len(v.a) > 2:
        return v.a[2], BYTES.get(v.a[0], 0)
    if v.op == 'enc':
        return v.a[2], 0
    if v.op == 'filled':
        return v.a[2], 0
    if v.op == 'patch':
        return v.a[0], 0
    if v.op == 'push':
        return v.a[0], 1
    if v.op == 'upd' and all(k[0] == 'e' for k, _ in v.a[1]):
        return v.a[0], 0
    if v.op == 'wr':
        return v.a[0], 0
    return None, None


def lineage(e, v, depth=0):
    """earlier values of a buffer"""
    out = []
    while depth < 60:
        depth += 1
        b, g = steps_of(v)
        if b is None and v.op == 'truncd':
            b = v.a[0]
        if b is None and v.op == 'lv':
            lev = e.loopinfo.get(v.a[0])
            b = {p.a[0]: p.a[1] for p in lev.a[3].a[0]}.get(v) if lev is not None else None
        if b is None:
            break
        out.append(b)
        v = b
    return out


def grows(e, v, base, depth=0):
    """least n with len(v) >= len(base) + n, None if unknown"""
    if v is base:
        return 0
    if depth > 40:
        return None
    b, g = steps_of(v)
    if b is not None:
        r = grows(e, b, base, depth + 1)
        return None if r is None else r + g
    if v.op == 'truncd':
        # cut back to an earlier length
        p = v.a[1]
        if is_len(p) and grows(e, v.a[0], p.a[1][0], depth + 1) is not None:
            return grows(e, p.a[1][0], base, depth + 1)
        return None
    if v.op == 'lv':
        lev = e.loopinfo.get(v.a[0])
        if lev is None:
            return None
        ini = {p.a[0]: p.a[1] for p in lev.a[3].a[0]}
        if v not in ini:
            return None
        for it in lev.a[2].a[0]:
            for p in it.a[1].a[0]:
                if p.a[0] is v and grows(e, p.a[1], v, depth + 1) is None:
                    return None
        return grows(e, ini[v], base, depth + 1)
    return None


def written(e, v):
    """(least number of bytes written since, the bounded buffer it started as)"""
    for b in [v] + lineage(e, v):
        if b.op == 'limit':
            g = grows(e, v, b)
            return (g, b) if g is not None else (0, None)
    return 0, None


# ---- ranges of floating point terms -------------------------------------------------
def fiv(c, e, st, t):
    """interval of a real valued term"""
    if t.op == INT:
        return (float(t.a[0]), float(t.a[0]))
    if t.op == 'float':
        x = float(t.a[0])
        return (x, x)
    r = (-math.inf, math.inf)
    if t.op == 'app':
        n, a = t.a[0], t.a[1]
        sub = [fiv(c, e, st, x) for x in a if isinstance(x, T)]
        if n == 'fAdd':
            r = (sub[0][0] + sub[1][0], sub[0][1] + sub[1][1])
        elif n == 'fSub':
            r = (sub[0][0] - sub[1][1], sub[0][1] - sub[1][0])
        elif n == 'fMul':
            ps = [x * y for x in sub[0] for y in sub[1]]
            r = (min(ps), max(ps)) if not any(p != p for p in ps) else r
        elif n == 'f_log10' and sub[0][0] > 0:
            r = (math.log10(sub[0][0]), math.log10(sub[0][1]))
        elif n in ('f_ln', 'f_log2') and sub[0][0] > 0:
            g = math.log if n == 'f_ln' else math.log2
            r = (g(sub[0][0]), g(sub[0][1]))
        elif n == 'f_max':
            r = (max(sub[0][0], sub[1][0]), max(sub[0][1], sub[1][1]))
        elif n == 'f_min':
            r = (min(sub[0][0], sub[1][0]), min(sub[0][1], sub[1][1]))
        elif n in ('f_ceil', 'f_floor', 'f_round', 'f_trunc'):
            g = {'f_ceil': math.ceil, 'f_floor': math.floor, 'f_round': round, 'f_trunc': math.trunc}[n]
            r = tuple(g(x) if abs(x) != math.inf else x for x in sub[0])
        elif n == 'f_sqrt' and sub[0][0] >= 0:
            r = (math.sqrt(sub[0][0]), math.sqrt(sub[0][1]))
        elif n == 'as_secs_f64':
            r = secs(a[0])
        elif n == 'nzget' or n.startswith('trunc_'):
            lo, hi = st.f.iv(t)
            r = (float(max(lo, 0)), min(float(hi) if hi != INF else math.inf, 2.0 ** 32 if n == 'nzget' else math.inf))
    elif t.op == 'sat':
        lo, hi = st.f.iv(t.a[0])
        w = 2.0 ** e.WIDTH.get(t.a[1], 64)
        r = (float(max(lo, 0)) if lo != -INF else 0.0, min(w, float(hi) if hi != INF else w))
    elif t.op in ('lin', 'fld', 'sym'):
        lo, hi = st.f.iv(t)
        r = (float(lo) if lo != -INF else -math.inf, float(hi) if hi != INF else math.inf)
    # comparisons on the way here
    lo, hi = r
    nan = lo == -math.inf and hi == math.inf
    for k, v in st.f.d.items():
        if k[0] == 'b' and k[1].op == 'app' and k[1].a[0] in ('fLt', 'fLe', 'fGt', 'fGe') and (v or not nan):
            x, y = k[1].a[1]
            if x is t and y.op == 'float':
                up = (k[1].a[0] in ('fLt', 'fLe')) == v
                b = float(y.a[0])
                strict = (k[1].a[0] in ('fLt', 'fGt')) == v
                if up:
                    hi = min(hi, b)
                else:
                    lo = max(lo, b)
    return (lo, hi)


def secs(t):
    if t.op == 'app' and t.a[0] in ('from_secs', 'from_millis', 'from_micros', 'from_nanos') and t.a[1][0].op == INT:
        x = t.a[1][0].a[0] / {'from_secs': 1, 'from_millis': 1e3, 'from_micros': 1e6, 'from_nanos': 1e9}[t.a[0]]
        return (x, x)
    return (0.0, math.inf)


def float_contradiction(c, e, st):
    """a truncated float cannot have the value the path needs"""
    for k, v in st.f.d.items():
        if k[0] == 'iv' and k[1].op == 'app' and k[1].a[0].startswith('FloatToInt_'):
            lo, hi = fiv(c, e, st, k[1].a[1][0])
            if lo != -math.inf and math.trunc(lo) > v[1] or hi != math.inf and math.trunc(max(hi, 0)) < v[0]:
                return True
    return False


# ---- the obligations ---------------------------------------------------------------
def upper(c, e, st, t, pr):
    """an upper bound of an integer term"""
    hi = st.f.iv(t)[1]
    if is_len(t):
        return min(hi, LEN_MAX)
    if t.op in ('ix', 'discr'):
        return min(hi, LEN_MAX)
    if t.op == 'lv':
        return min(hi, counter_bound(c, e, st, t))
    if t.op == 'sat':
        k, p = lin_parts(t.a[0])
        mx = e.MAXV.get(t.a[1], math.inf)
        if k < 0 and sum(1 for v in p.values() if v > 0) == 1 and max(p.values()) == 1:
            # a value of the type less something
            mx = max(mx + k, 0)
        return min(hi, mx)
    if t.op == 'lin':
        k, p = lin_parts(t)
        if all(v > 0 for v in p.values()):
            return min(hi, k + sum(v * upper(c, e, st, x, pr) for x, v in p.items()))
        return hi
    # bounded by something that is bounded
    for b in list(pr.atoms):
        if is_len(b) or b.op == 'ix':
            d = pr.dist(t, b)
            if d != math.inf:
                hi = min(hi, LEN_MAX + d)
    return hi


def counter_bound(c, e, st, v):
    """a loop counter: how far it can get"""
    lev = e.loopinfo.get(v.a[0])
    if lev is None:
        return math.inf
    ini = {p.a[0]: p.a[1] for p in lev.a[3].a[0]}
    if v not in ini:
        return math.inf
    lo, hi = st.f.iv(ini[v])
    limit = math.inf
    drained = [w for w in ini if w.op == 'drain']
    walked = None
    pre, M = e.loopmeta.get(v.a[0], (None, ()))
    for it in lev.a[2].a[0]:
        steps = {p.a[0]: p.a[1] for p in it.a[1].a[0]}
        n = steps.get(v, v)
        k, p = lin_parts(add(n, v, -1))
        if p or k > 1:
            return math.inf
        if k == 1:
            drained = [w for w in drained if w in steps and steps[w].op == 'popd' and strip_drain(steps[w]) is w]
            # elements of iterators that were there before the loop
            ixs = {x for key, _ in it.a[2].a[0] for x in subterms(key[1:]) if x.op == 'ix' and x in e.pulled}
            ixs = {x for x in ixs if all(g[0] in pre.mem and not any(m[0] == g[0] for m in M) for g in e.pulled[x].values())}
            walked = ixs if walked is None else walked & ixs

    def most(b):
        if b.op == 'chosen' and b.a[1].op == 'vempty':
            n = st.f.d.get(('wanted', b.a[0]))
            if n is not None:
                return high(c, e, st, n)
        if b.op == 'arr':
            return len(b.a[0])
        return math.inf
    for w in drained:
        n = most(bag(w))
        if n != math.inf and any(x.op == 'popd' and x.a[0] is w for y in st.mem.values() for x in subterms(y)):
            # the element of the current round is still to be counted
            n -= 1
        limit = min(limit, n)
    for x in walked or ():
        n = max(most(g[2]) for g in e.pulled[x].values())
        if n != math.inf and any(k[0] in ('rel', 'iv') and x in k[1:] for k in st.f.d):
            n -= 1
        limit = min(limit, n)
    if hi == INF:
        return math.inf
    return hi + min(limit, COUNT_MAX)


def high(c, e, st, n):
    hi = st.f.iv(n)[1]
    for b in (255, 65535, 2 ** 32 - 1):
        if hi > b and e.evalb(st, rel(n, integer(b), 3)) is True:
            hi = b
    return hi


def discharge(c, e, p, msg, cond, st, extra):
    pr = Prover(c, e, st, extra)
    if msg == 'allocation size' and cond.op == 'rel':
        n = add(cond.a[0], cond.a[1], -1)
        for y in lin_parts(n)[1]:
            pr.atoms.add(y)
            pr.derive(y)
        if upper(c, e, st, n, pr) <= 0:
            return True
    if cond.op == 'app' and cond.a[0].startswith('overflow'):
        op, ty = cond.a[0][len('overflow'):].split('_', 1)
        a, b = cond.a[1]
        mx = e.MAXV.get(ty)
        if mx is None:
            return False
        if op == 'Add':
            for x in (a, b):
                for y in lin_parts(x)[1]:
                    pr.atoms.add(y)
                    pr.derive(y)
            def top(x):
                # a value of this type, and what it is known to differ from
                hi = min(upper(c, e, st, x, pr), mx)
                while x.op not in (INT, 'lin') and hi >= 0 and st.f.relmask(x, integer(int(hi))) & 2 == 0:
                    hi -= 1
                return hi
            if top(a) + top(b) <= mx or upper(c, e, st, add(a, b), pr) <= mx:
                return True
            # steps of one on a 64 bit counter
            if mx >= 2 ** 64 - 1 and (b.op == INT and b.a[0] <= 1 and step_field(c, p, e, a)):
                return True
            return False
        if op == 'Sub':
            return pr.holds(rel(a, b, 6))
        return False
    if cond.op == 'app' and cond.a[0] == 'duration_ok':
        name, a = cond.a[1][0], cond.a[1][1:]
        if name == 'new':
            return len(a) == 2 and a[1].op == INT and a[1].a[0] < 10 ** 9
        lo, hi = fiv(c, e, st, a[0]) if name.startswith('from') else (-math.inf, math.inf)
        if name.startswith('mul') and secs(a[0])[1] != math.inf:
            l2, h2 = fiv(c, e, st, a[1])
            lo, hi = l2 * secs(a[0])[0], h2 * secs(a[0])[1]
        return lo >= 0 and hi < 1e15
    if cond.op == 'not':
        x = cond.a[0]
        if x.op == 'rel':
            return pr.holds(mk('rel', x.a[0], x.a[1], 7 ^ x.a[2]))
        return False
    return pr.holds(cond)


def step_field(c, p, e, t):
    """a 64 bit counter that only ever moves by small constants or restates a
    length: the machine is long gone before it wraps"""
    if t.op != 'fld' or t.a[0].op != 'sym':
        return False
    for q in e.lastpaths:
        for ev in q.ev:
            if is_write(ev) and wfields(ev)[-1:] == (t.a[1],):
                v = ev.a[2]
                if v.op in ('sat', 'wrap'):
                    v = v.a[0]
                n, d = lin_parts(add(v, t, -1))
                if not (v.op == INT and v.a[0] < 2 ** 32 or not d and abs(n) < 2 ** 16):
                    return False
    return slow_field(p, t.a[1])


def slow_field(p, name):
    if name not in p.__dict__.setdefault('slow', {}):
        p.slow[name] = all(slow_in(p, b['body'], name) for b in p.local)
    return p.slow[name]


def slow_in(p, body, name, cap=None):
    """every value this body stores in a field of that name (or in the captured
    reference number cap) is small, a length, or a small step from another such value"""
    blocks = [b for b in body['blocks'] if b]
    own = [['f', cap, str(cap)]]
    alias = {st[1][0] for blk in blocks for st in blk['s'] if cap is not None and st[0] == '=' and not st[1][1] and st[2][0] == 'use'
             and st[2][1][0] in ('cp', 'mv') and st[2][1][1][0] == 1 and [x for x in st[2][1][1][1] if x != ['*']] == own}

    def is_f(pl):
        if cap is not None:
            return pl[0] in alias and pl[1] == [['*']] or pl[0] == 1 and [x for x in pl[1] if x != ['*']] == own and len(pl[1]) > 1 and pl[1][-1] == ['*']
        return any(pe[0] == 'f' and pe[2] == name for pe in pl[1][-1:])

    def captured(l):
        """the reference l goes into closures only, which behave"""
        used = False
        for blk in blocks:
            for st in blk['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1].get('a') == 'closure':
                    for k, o in enumerate(st[2][2]):
                        if o[0] in ('cp', 'mv') and o[1][0] == l:
                            used = True
                            if not slow_in(p, p.bodies[st[2][1]['key']]['body'], name, k):
                                return False
                elif st[0] == '=' and st[1][0] != l and ["mv", [l, []]] in st[2] or st[0] == '=' and st[2][0] == 'ref' and st[2][2][0] == l:
                    return False
            if blk['t']['t'] == 'call' and any(o[0] in ('cp', 'mv') and o[1][0] == l for o in blk['t']['args']):
                return False
        return used

    def good(o, seen, d=0):
        if o[0] == 'c':
            return o[1].get('k') == 'int' and abs(int(o[1]['v'])) < 2 ** 32
        l, pr = o[1]
        if is_f(o[1]):
            return True
        if pr and pr[0][:2] != ['f', 0] or len(pr) > 1 or l in seen or d > 8:
            return False
        seen = seen | {l}
        defs = 0
        for blk in blocks:
            for st in blk['s']:
                if st[0] == '=' and st[1][0] == l:
                    defs += 1
                    r = st[2]
                    if st[1][1]:
                        return False
                    if r[0] == 'use':
                        if not good(r[1], seen, d + 1):
                            return False
                    elif r[0] == 'bin' and r[1] in ('Add', 'AddWithOverflow', 'Sub', 'SubWithOverflow'):
                        if not (good(r[2], seen, d + 1) and small(r[3])):
                            return False
                    else:
                        return False
            t = blk['t']
            if t['t'] == 'call' and t['dest'][0] == l:
                defs += 1
                n = t['f'][1].get('name') if t['f'][0] == 'c' else None
                if n in ('saturating_add', 'wrapping_add', 'saturating_sub'):
                    if not (good(t['args'][0], seen, d + 1) and small(t['args'][1])):
                        return False
                elif n not in ('count', 'len'):
                    return False
        return defs > 0

    def small(o):
        return o[0] == 'c' and o[1].get('k') == 'int' and 0 <= int(o[1]['v']) < 2 ** 16
    for blk in blocks:
        for st in blk['s']:
            if st[0] != '=':
                continue
            if is_f(st[1]) and not (st[2][0] == 'use' and good(st[2][1], set()) or st[2][0] == 'bin' and st[2][1] in ('Add', 'Sub') and good(st[2][2], set()) and small(st[2][3])):
                return False
            r = st[2]
            if cap is None and r[0] == 'agg' and r[1].get('a') == 'adt' and name in (r[1].get('fields') or ()):
                if not good(r[2][r[1]['fields'].index(name)], set()):
                    return False
            if r[0] == 'ref' and r[1] in ('mut', 'rawMut') and is_f(r[2]) and not captured(st[1][0]):
                return False
        t = blk['t']
        if t['t'] == 'call' and is_f(t['dest']):
            n = t['f'][1].get('name') if t['f'][0] == 'c' else None
            if not (n in ('count', 'len') or n in ('saturating_add', 'saturating_sub') and good(t['args'][0], set()) and small(t['args'][1])):
                return False
    return True


def leaf_order(p, taken):
    """the bodies not reached yet, callers before callees"""
    rest = [b for b in p.local if b['key'] not in taken]
    calls = {}
    for b in p.local:
        s = set()
        todo = [b]
        for blk in b['body']['blocks']:
            if blk and blk['t']['t'] == 'call' and blk['t']['f'][0] == 'c':
                f = blk['t']['f'][1]
                s.add(f.get('res') or f.get('key'))
            for x in (blk or {}).get('s', ()):
                if x[0] == '=' and 'Closure' in str(x[2])[:400]:
                    for k in p.bodies:
                        if k in str(x[2]):
                            s.add(k)
        calls[b['key']] = s
    callers = {}
    for k, s in calls.items():
        for x in s:
            if x != k:
                callers.setdefault(x, set()).add(k)
    bnd = set(contracts.boundary(p)) | {'Probe::receive_ack', 'Probe::receive_indirect_ack'}
    pinned = [b for b in rest if p.nice(b) in bnd]
    roots = [b for b in rest if b not in pinned and b['kind'] != 'Closure' and not callers.get(b['key'])]
    other = [b for b in rest if b not in pinned and b not in roots and b['kind'] != 'Closure']
    clos = [b for b in rest if b['kind'] == 'Closure']
    return pinned + roots + other + clos


API = ('Foca::with_custom_broadcast', 'Foca::announce', 'Foca::gossip', 'Foca::broadcast', 'Foca::leave_cluster', 'Foca::add_broadcast', 'Foca::handle_timer',
       'Foca::set_config', 'Foca::change_identity', 'Foca::reuse_down_identity', 'Foca::apply_many', 'Foca::iter_members', 'Foca::num_members',
       'Foca::iter_membership_state', 'Foca::updates_backlog', 'Foca::custom_broadcast_backlog', 'Foca::identity')


def addr_is_self(c, cfg, p, b):
    """Identity impl whose address is the identity itself and that never renews:
    two of its identities never conflict"""
    def ret(name):
        bs = [x for x in p.local if x.get('impl_trait') == b.get('impl_trait') and x['name'] == name]
        if len(bs) != 1:
            return None
        e = c.engine('leaf', cfg)
        return {q.ret for q in e.run(p.nice(bs[0]), key=bs[0]['key'])}
    return 'identity::Identity>' in (b.get('impl_trait') or '') and b['name'] == 'win_addr_conflict' \
        and ret('addr') == {SELF} and ret('renew') == {NONE}


def run_cfg(c, cfg):
    p = c.prog(cfg)
    taken = set()
    runs = []           # (label, engine, paths, obligations, panics)

    def go(mode, entry, key=None):
        e = c.engine(mode, cfg, True)
        e.oblog, e.panics, e.opaque = [], [], {}
        e.loopinfo = {}
        try:
            ps = e.run(entry, key=key)
        except AnalysisError as x:
            c.ob(False, entry, 'its panics can be analysed (%s)' % cfg)
            c.detail(entry, 'its panics can be analysed (%s)' % cfg, str(x))
            return
        e.lastpaths = ps
        c.entries.add((entry, mode + '/' + cfg))
        c.npaths += len(ps)
        taken.update(e.inlined)
        check(c, cfg, p, e, mode, entry)
        invariants(c, e, p, entry)
    for E in API:
        go('foca', E)
    go('data', 'Foca::handle_data')
    go('send', 'Foca::send_message')
    while True:
        rest = [b for b in leaf_order(p, taken) if not b.get('derived')]
        if not rest:
            break
        b = rest[0]
        go('leaf', p.nice(b), b['key'])
        taken.add(b['key'])
    return len(taken)


def invariants(c, e, p, entry):
    """every method of a backlog leaves its scratch queue empty; whoever fills
    the backlogs respects what their methods rely on"""
    if entry.startswith('Broadcasts::'):
        for q in e.lastpaths:
            if ('O', 'self') not in q.st.mem:
                continue
            v = get(c.final(q), 'flop')
            ok = v is S('flop') or lenof_(e, v) is integer(0) or Prover(c, e, q.st).holds(rel(lenof_(e, v), integer(0), 2))
            c.ob(ok, entry, 'leaves the scratch queue empty')
    for q in e.lastpaths:
        for seg in c.segs(q):
            for ev in seg.ev:
                if is_call(ev, 'backlog_add'):
                    a = eargs(ev)
                    st = c.state(seg.f)
                    pr = Prover(c, e, st)
                    c.ob(pr.holds(rel(a[3], integer(0), 4)), entry, 'whatever enters a backlog may be sent at least once', c.site(q, ev))
                    if a[0] is not mk('k', 'updates'):
                        n = lenof_(e, a[2])
                        ok = pr.holds(rel(n, integer(65535), 3))
                        c.ob(ok, entry, 'a custom broadcast fits its u16 length prefix', c.site(q, ev))
                        if not ok:
                            c.detail(entry, 'a custom broadcast fits its u16 length prefix', show(n))
                elif is_call(ev, 'fill_prefixed'):
                    c.ob(eargs(ev)[0] is mk('k', 'custom_broadcasts'), entry, 'only items that fit a length prefix are sent with one', c.site(q, ev))


def check(c, cfg, p, e, mode, entry):
    for loc, span, msg, ok, cond, st in e.oblog:
        fn = p.nice(p.bodies[loc[-1]]) if loc else entry
        if not ok:
            ok = discharge(c, e, p, msg, cond, st, inv_facts(c, e, p, entry, st, cond))
        what = '%s cannot fail' % msg
        c.ob(ok, fn, what, span)
        if not ok:
            c.detail(fn, what, '%s, reached from %s (%s)' % (show(cond)[:300], entry, cfg))
    for stack, path, span, st, t, args in e.panics:
        loc = [k for k in stack if p.bodies[k]['local']]
        fn = p.nice(p.bodies[loc[-1]]) if loc else entry
        ok = infeasible(c, e, p, entry, st, fn, loc, path, cfg)
        what = 'panic (%s) unreachable' % panic_text(path, args)
        c.ob(ok, fn, what, span)
        if not ok:
            c.detail(fn, what, 'reached from %s (%s)' % (entry, cfg))
    for n in e.opaque:
        c.ob(total(n), entry, 'calls only functions known not to panic')
        if not total(n):
            c.detail(entry, 'calls only functions known not to panic', n)
    c.ob(True, entry, 'analysed for panics')


def panic_text(path, args):
    s = [x.a[0] for x in args if isinstance(x, T) and x.op == 'k']
    return str(s[0])[:70] if s else path


def node_of_backlog(x):
    """an entry taken from a queue of a backlog"""
    if x.op != 'elem':
        return False
    y = x.a[0]
    while y.op in ('perm', 'popd'):
        y = y.a[0]
    if y.op == 'lv':
        # a loop's view of one of the queues (what enters them is checked where it does)
        return y.a[1].endswith(("'flip')", "'flop')"))
    return y.op == 'fld' and y.a[1] in ('flip', 'flop')


def names_of(p, entry, ty):
    """parameters of a type"""
    for b in p.local:
        if p.nice(b) == entry:
            return [b['body']['locals'][i + 1].get('name', 'arg%d' % (i + 1)) for i, x in enumerate(b.get('inputs') or []) if x == ty]
    return []


def inv_facts(c, e, p, entry, st, cond):
    """representation invariants: queued entries have transmissions left"""
    out = []
    seen = set()
    for k in list(st.f.d) + [('', cond)]:
        for x in subterms(k[1:]):
            if x in seen:
                continue
            seen.add(x)
            if node_of_backlog(x):
                out.append((mk('fld', x, 'remaining_tx'), integer(1), 6))
                if entry == 'Broadcasts::fill_with_len_prefix':
                    out.append((app('len', mk('fld', x, 'data')), integer(65535), 3))
            elif x is S('flop') or x is S('buf') and entry.startswith('<AccumulatingRuntime'):
                out.append((app('len', x), integer(0), 2))
    # num_active counts the active records (M.count, M.apply)
    for x in list(seen):
        if x.op == 'fld' and x.a[1] == 'num_active':
            tab = mk('fld', x.a[0], 'inner')
            out.append((x, app('len', tab), 3))
            if any(y.op == 'elem' and y.a[0] is tab and e.evalb(st, c.isv(mk('fld', y, 'state'), 'State', 'Down')) is False for y in list(seen)):
                out.append((x, integer(1), 6))
    if entry == 'Broadcasts::add_or_replace':
        out += [(sym(a), integer(1), 6) for a in names_of(p, entry, 'usize')]
    # what a parser reports as unread is no longer than what it was given
    for ev in events(st.tr):
        if ev.op == 'ev' and ev.a[0] == 'call' and ev.a[1] == 'postcard::take_from_bytes':
            r = mk('fld', mk('fld', mk('as', eres(ev), 'Ok'), '0'), '1')
            out.append((app('len', r), lenof_(e, eargs(ev)[0]), 3))
    return out


def infeasible(c, e, p, entry, st, fn, loc, path, cfg):
    if len(loc) == 1 and addr_is_self(c, cfg, p, p.bodies[loc[0]]):
        return True
    if float_contradiction(c, e, st):
        return True
    # contradiction with the invariants of the queues
    pr = Prover(c, e, st, inv_facts(c, e, p, entry, st, UNIT))
    if any(pr.dist(x, x) < 0 for x in list(pr.atoms) + [None]):
        return True
    return False


@rule('P.none', 'C06 C20', 'every overflow, bounds, division and precondition check and every panicking call in the crate is excluded on every path, '
      'with and without debug assertions', floor=200)
def panics(c):
    for cfg in ('debug', 'codecs'):
        n = run_cfg(c, cfg)
        c.ob(n >= 120, 'crate', 'bodies analysed for panics (%s)' % cfg)
