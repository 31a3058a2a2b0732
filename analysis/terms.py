"""Hash-consed value numbers ("terms") and the branch-fact domain."""
INT = 'int'
_tab = {}


class T:
    __slots__ = ('op', 'a', '_r', 'n')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._r = None
        t.n = len(_tab)
        _tab[key] = t
    return t


def integer(v):
    return mk(INT, v)


TRUE = integer(1)
FALSE = integer(0)
UNIT = mk('tup', ())


def sym(name):
    return mk('sym', name)


def app(f, *args):
    return mk('app', f, tuple(args))


def adt(key, vname, vidx, fields, names):
    return mk('adt', key, vname, vidx, tuple(fields), tuple(names))


def skey(t):
    return repr(t)


def is_int(t):
    return t.op == INT


def show(t):
    if not isinstance(t, T):
        return str(t)
    if t._r is not None:
        return t._r
    o, a = t.op, t.a
    if o == INT:
        r = str(a[0])
    elif o == 'sym':
        r = a[0]
    elif o == 'app':
        r = f"{a[0]}({', '.join(map(show, a[1]))})"
    elif o == 'adt':
        nm = a[1] or a[0].split('::')[-1]
        if a[3]:
            r = nm + '{' + ', '.join(f"{n}:{show(v)}" for n, v in zip(a[4], a[3])) + '}'
        else:
            r = nm
    elif o == 'tup':
        r = '(' + ', '.join(map(show, a[0])) + ')'
    elif o == 'fld':
        r = f"{show(a[0])}.{a[1]}"
    elif o == 'as':
        r = f"{show(a[0])}@{a[1]}"
    elif o == 'elem':
        r = f"{show(a[0])}[{show(a[1])}]"
    elif o == 'rel':
        m = {1: '<', 2: '==', 3: '<=', 4: '>', 5: '!=', 6: '>=', 7: '?', 0: '!'}[a[2]]
        r = f"({show(a[0])} {m} {show(a[1])})"
    elif o == 'not':
        r = f"!{show(a[0])}"
    elif o == 'eq':
        r = f"({show(a[0])} == {show(a[1])})"
    elif o == 'isv':
        r = f"({show(a[0])} is {a[2]})"
    elif o == 'lin':
        r = '(' + ' + '.join([str(a[0])] * (a[0] != 0) + [(f"{k}*" if k != 1 else '') + show(t) for t, k in a[1]]) + ')'
    elif o == 'ref':
        r = '&' + '/'.join(map(str, (a[0],) + a[1]))
    elif o == 'upd':
        r = show(a[0]) + '{..' + ', '.join(f"{'.'.join(map(str, k))}:={show(v)}" for k, v in a[1]) + '}'
    elif o == 'clo':
        r = f"closure[{a[0]}]"
    elif o == 'fn':
        r = f"fn[{a[0]}]"
    elif o == 'fr':
        r = f"f{t.n}"
    else:
        r = f"{o}({', '.join(show(x) if isinstance(x, T) else str(x) for x in a)})"
    if len(r) > 400:
        r = r[:400] + '…'
    t._r = r
    return r


# ---- linear integer terms -------------------------------------------------

def lin_parts(t):
    if t.op == INT:
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return integer(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: skey(kv[0]))))


def add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, d)


FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}


def rel(a, b, mask):
    """Integer comparison: mask bits 1:< 2:== 4:>."""
    if a.op == INT and b.op == INT:
        x, y = a.a[0], b.a[0]
        bit = 1 if x < y else 2 if x == y else 4
        return TRUE if mask & bit else FALSE
    if a is b:
        return TRUE if mask & 2 else FALSE
    if mask == 7:
        return TRUE
    if mask == 0:
        return FALSE
    c, d = lin_parts(add(a, b, -1))
    if not d:
        bit = 1 if c < 0 else 2 if c == 0 else 4
        return TRUE if mask & bit else FALSE
    left = {k: v for k, v in d.items() if v > 0}
    right = {k: -v for k, v in d.items() if v < 0}
    if not left or (right and skey(next(iter(sorted(left, key=skey)))) > skey(next(iter(sorted(right, key=skey))))):
        left, right, c = right, left, -c
        mask = FLIP[mask]
    # left + c (mask) right   ==>  left (mask) right - c
    cc = -c
    if right:
        if mask == 1 and cc == 1:
            mask, cc = 3, 0
        elif mask == 3 and cc == -1:
            mask, cc = 1, 0
        elif mask == 4 and cc == -1:
            mask, cc = 6, 0
        elif mask == 6 and cc == 1:
            mask, cc = 4, 0
    L = mk_lin(0, left)
    R = mk_lin(cc, right)
    return mk('rel', L, R, mask)


def mk_not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'rel':
        return mk('rel', t.a[0], t.a[1], 7 ^ t.a[2])
    return mk('not', t)


def mk_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    return mk('and', *sorted((a, b), key=skey))


def mk_or(a, b):
    return mk_not(mk_and(mk_not(a), mk_not(b)))


def mk_eq(a, b):
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=skey)
    return mk('eq', x, y)


INF = float('inf')


TOP = {'be_u8': 255, 'be_u16': 65535, 'be_u32': 2**32 - 1, 'trunc_u8': 255, 'trunc_u16': 65535, 'trunc_u32': 2**32 - 1}
TYTOP = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1}


def natural(t):
    """greatest value a term of its kind can have"""
    if t.op == 'app':
        return TOP.get(t.a[0], INF)
    if t.op in ('wrap', 'sat'):
        return TYTOP.get(t.a[1], INF)
    return INF


_diff = {}


def difference(a, b):
    """(x, y, c) with a - b = x - y + c; None for another shape"""
    k = (a, b)
    if k in _diff:
        return _diff[k]
    c, d = lin_parts(add(a, b, -1))
    r = None
    if d and len(d) <= 2:
        x = [t for t, v in d.items() if v == 1]
        y = [t for t, v in d.items() if v == -1]
        if len(x) + len(y) == len(d) and len(x) <= 1 and len(y) <= 1:
            r = x[0] if x else None, y[0] if y else None, c
    _diff[k] = r
    return r


def feasible(cons):
    """may all of  c + sum(d) >= 0  hold (rationally)? exact unless it grows too large"""
    def norm(c, d):
        from math import gcd
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            # over the integers
            return c // g, {k: v // g for k, v in d.items()}
        return c, d
    rows = {}

    def put(rows, c, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c >= 0
        c, d = norm(c, d)
        key = frozenset(d.items())
        if key not in rows or rows[key] > c:
            rows[key] = c
        return True
    for c, d in cons:
        if not put(rows, c, d):
            return False
    while rows:
        count = {}
        for key in rows:
            for k, v in key:
                n = count.setdefault(k, [0, 0])
                n[v > 0] += 1
        x = min(count, key=lambda k: (count[k][0] * count[k][1], skey(k)))
        nxt = {}
        ups, downs = [], []
        for key, c in rows.items():
            d = dict(key)
            v = d.pop(x, 0)
            if v > 0:
                ups.append((c, d, v))
            elif v < 0:
                downs.append((c, d, -v))
            elif not put(nxt, c, d):
                return False
        for c1, d1, v1 in ups:
            for c2, d2, v2 in downs:
                d = {k: n * v2 for k, n in d1.items()}
                for k, n in d2.items():
                    d[k] = d.get(k, 0) + n * v1
                if not put(nxt, c1 * v2 + c2 * v1, d):
                    return False
        if len(nxt) > 150:
            return True
        rows = nxt
    return True


class Facts:
    """variant sets, ordering masks between term pairs, integer intervals, opaque booleans"""
    __slots__ = ('d', 'adj', 'wid')

    def __init__(self, d=None):
        self.d = dict(d) if d else {}
        self.adj = None
        self.wid = None

    def copy(self):
        return Facts(self.d)

    # -- intervals
    def iv(self, t):
        if t.op == INT:
            return (t.a[0], t.a[0])
        base = self.d.get(('iv', t))
        lo, hi = base if base else (0, natural(t))
        if t.op == 'lin':
            c, parts = t.a[0], t.a[1]
            l2 = h2 = c
            for k, v in parts:
                kl, kh = self.iv(k)
                if v > 0:
                    l2 += v * kl
                    h2 += v * kh
                else:
                    l2 += v * kh if kh != INF else -INF
                    h2 += v * kl
            if base is None:
                return (l2, h2)
            return (max(lo, l2), min(hi, h2))
        if t.op == 'phi' and base is None:
            ivs = [self.iv(x) for x in t.a[1]]
            return (min(i[0] for i in ivs), max(i[1] for i in ivs))
        return (lo, hi)

    def relmask(self, a, b, deep=False):
        """possible orderings of a vs b"""
        m = self.d.get(('rel', a, b), 7)
        la, ha = self.iv(a)
        lb, hb = self.iv(b)
        if ha < lb:
            m &= 1
        elif ha <= lb:
            m &= 3
        if la > hb:
            m &= 4
        elif la >= hb:
            m &= 6
        if a.op == 'app' and a.a[0] == 'rem' and a.a[1][1] is b:
            m &= 1
        if b.op == 'app' and b.a[0] == 'rem' and b.a[1][1] is a:
            m &= 4
        if m not in (0, 1, 2, 4):
            m &= self.through(a, b)
        if deep and m not in (0, 1, 2, 4):
            m = self.linear(a, b, m)
        return m

    # -- sums of several unknowns
    def wide(self):
        """atoms of the facts that are no difference bounds -> those facts"""
        if self.wid is None:
            w = {}
            for k, m in self.d.items():
                if k[0] != 'rel' or m in (5, 7):
                    continue
                dd = lin_parts(add(k[1], k[2], -1))[1]
                if difference(k[1], k[2]) is None or any(x.op == 'sat' for x in dd):
                    for x in dd:
                        w.setdefault(x, []).append(k)
                        if x.op == 'sat':
                            for y in lin_parts(x.a[0])[1]:
                                w.setdefault(y, []).append(k)
            self.wid = w
        return self.wid

    def linear(self, a, b, m):
        """the orderings of a vs b that no linear combination of facts excludes"""
        goal = add(a, b, -1)
        gc, gd = lin_parts(goal)
        w = self.wide()
        if not gd or not any(x in w or x.op == 'sat' for x in gd):
            return m
        atoms, cons, used = set(), [], set()
        todo = [(x, 0) for x in gd]
        byatom = {}
        for k, km in self.d.items():
            if k[0] == 'rel' and km not in (5, 7):
                for x in lin_parts(add(k[1], k[2], -1))[1]:
                    byatom.setdefault(x, []).append((k, km))

        def ge(t, c=0):
            c0, d = lin_parts(t)
            cons.append((c0 + c, d))
            return d
        while todo:
            x, dep = todo.pop(0)
            if x in atoms:
                continue
            atoms.add(x)
            if len(atoms) > 10:
                return m
            lo, hi = self.iv(x)
            if lo != -INF:
                ge(add(x, integer(int(lo)), -1))
            if hi != INF:
                ge(add(integer(int(hi)), x, -1))
            new = []
            if x.op == 'sat':
                v = x.a[0]
                if any(n < 0 for n in lin_parts(v)[1].values()) or lin_parts(v)[0] < 0:
                    ge(add(x, v, -1))
                    if self.relmask(v, integer(0)) & 1 == 0:
                        ge(add(v, x, -1))
                    elif self.relmask(v, integer(0)) & 4 == 0:
                        ge(add(integer(0), x, -1))
                else:
                    ge(add(v, x, -1))
                new += lin_parts(v)[1]
            if dep < 3:
                for k, km in byatom.get(x, ()):
                    if k in used:
                        continue
                    used.add(k)
                    e = add(k[1], k[2], -1)
                    if km in (4, 2, 6):
                        ge(e, -1 if km == 4 else 0)
                    if km in (1, 2, 3):
                        ge(add(integer(0), e, -1), -1 if km == 1 else 0)
                    new += lin_parts(e)[1]
            todo += [(y, dep + 1) for y in new]
        r = 0
        neg = add(integer(0), goal, -1)
        for bit, extra in ((1, [(neg, -1)]), (2, [(neg, 0), (goal, 0)]), (4, [(goal, -1)])):
            if m & bit and feasible(cons + [(lin_parts(t)[0] + c, lin_parts(t)[1]) for t, c in extra]):
                r |= bit
        return r

    def through(self, a, b):
        """what chains of known orderings say about a vs b"""
        xy = difference(a, b)
        if xy is None:
            return 7
        x, y, c = xy
        out = self.adj
        if out is None:
            out = self.adj = self.edges()
        if not out:
            return 7
        r = 7
        up = self.dist(out, y, x)
        if up + c < 0:
            return 1
        if up + c == 0:
            r &= 3
        down = self.dist(out, x, y)
        if down - c < 0:
            return 4
        if down - c == 0:
            r &= 6
        return r

    def edges(self):
        """y -> [(x, w)]: x <= y + w (None stands for zero)"""
        out = {}
        for k, m in self.d.items():
            if k[0] != 'rel' or m in (5, 7):
                continue
            pq = difference(k[1], k[2])
            if pq is None:
                continue
            p, q, c0 = pq
            if m in (1, 2, 3):
                out.setdefault(q, []).append((p, -c0 - (m == 1)))
            if m in (4, 2, 6):
                out.setdefault(p, []).append((q, c0 - (m == 4)))
        return out

    def dist(self, out, src, dst):
        best = {src: 0}
        cur = [src]
        for _ in range(5):
            nxt = []
            for u in cur:
                es = list(out.get(u, ()))
                if u is not None:
                    lo = self.iv(u)[0]
                    es.append((None, -lo))
                    if dst is not None:
                        pass
                elif dst is not None:
                    hi = self.iv(dst)[1]
                    if hi != INF:
                        es.append((dst, hi))
                for v, w in es:
                    # v <= u + w
                    if best[u] + w < best.get(v, INF):
                        best[v] = best[u] + w
                        nxt.append(v)
            cur = nxt
            if not cur:
                break
        return best.get(dst, INF)

    def set_rel(self, a, b, m):
        if m == 0:
            return False
        self.adj = None
        self.wid = None
        if m != 7:
            self.d[('rel', a, b)] = m
        if b.op == INT and a.op != 'lin':
            lo, hi = self.iv(a)
            c = b.a[0]
            if m == 1:
                hi = min(hi, c - 1)
            elif m == 2:
                lo, hi = max(lo, c), min(hi, c)
            elif m == 3:
                hi = min(hi, c)
            elif m == 4:
                lo = max(lo, c + 1)
            elif m == 6:
                lo = max(lo, c)
            elif m == 5:
                if lo == c:
                    lo += 1
                if hi == c:
                    hi -= 1
            while lo <= hi and lo != INF and lo == int(lo) and self.d.get(('rel', a, integer(lo))) == 5:
                lo += 1
            while lo <= hi and hi != INF and self.d.get(('rel', a, integer(hi))) == 5:
                hi -= 1
            if lo > hi:
                return False
            self.d[('iv', a)] = (lo, hi)
        if not self.sums(a, b, m):
            return False
        # two things kept apart must not have become equal
        for k, m5 in self.d.items():
            if m5 == 5 and k[0] == 'rel' and self.relmask(k[1], k[2]) == 0:
                return False
        return True

    def sums(self, a, b, m):
        """sums of naturals: zero iff every part is"""
        def plain(x):
            return x.op == 'lin' and x.a[0] == 0 and all(v > 0 for _, v in x.a[1])
        if a.op == 'lin':
            if b is integer(0) and plain(a) and m in (2, 3):
                return all(self.set_rel(k, b, 2) for k, _ in a.a[1] if self.iv(k)[1] != 0)
            return True
        if b is not integer(0) or self.iv(a)[1] != 0:
            return True
        for k, mk_ in list(self.d.items()):
            if k[0] == 'rel' and k[2] is b and mk_ in (4, 5) and plain(k[1]) and any(x is a for x, _ in k[1].a[1]):
                left = [x for x, _ in k[1].a[1] if self.iv(x)[1] != 0]
                if not left or (len(left) == 1 and self.iv(left[0])[0] == 0 and not self.set_rel(left[0], b, 4)):
                    return False
        return True

    def var(self, x):
        return self.d.get(('var', x))


def subterms(t, seen=None):
    """all terms inside t (t: a term or a tuple of terms)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def replace(t, a, b):
    """t with every a replaced by b"""
    memo = {}

    def go(x):
        if x is a:
            return b
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                r = memo[x] = mk(x.op, *[go(y) for y in x.a])
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)
