"""Rule framework: program dumps, cached dataflow runs, obligations, verdicts."""
import itertools
import json
import os
import subprocess
import sys
import time
from terms import *
from engine import Engine, Prog, AnalysisError, State, TR0, events, Path
import contracts
from models import norm

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

CFGS = {
    'default': ('false', []),
    'debug': ('true', []),
    'codecs': ('false', ['--features', 'std,bincode-codec,postcard-codec,unstable-notifications']),
}

SCRATCH = ('send_buf', 'choice_buf', 'updates_buf')


class Missing(Exception):
    """an anchor the rules need is not there"""


class Seg:
    """a straight stretch of one path: the path itself or one loop iteration"""
    __slots__ = ('path', 'ev', 'f', 'kind', 'loop', 'steps', 'parent')

    def __init__(self, path, ev, f, kind, loop=None, steps=(), parent=None):
        self.path, self.ev, self.f, self.kind, self.loop, self.steps, self.parent = path, ev, f, kind, loop, steps, parent


class Rule:
    def __init__(self, fn, rid, props, text, floor):
        self.fn, self.id, self.props, self.text, self.floor = fn, rid, props, text, floor


RULES = {}


def rule(rid, props, text, floor=1):
    def d(fn):
        if rid in RULES:
            raise Exception('duplicate rule ' + rid)
        RULES[rid] = Rule(fn, rid, props.split(), text, floor)
        return fn
    return d


def is_call(ev, *names):
    return ev.op == 'ev' and ev.a[0] == 'call' and ev.a[1] in names


def is_write(ev):
    return ev.op == 'ev' and ev.a[0] == 'write'


def is_loop(ev):
    return ev.op == 'ev' and ev.a[0] == 'loop'


def eargs(ev):
    return ev.a[2].a[0]


def eres(ev):
    return ev.a[3]


def cur(ev, *names):
    """value of a field of the instance when the call was made"""
    v = ev.a[4]
    for n in names:
        v = get(v, n)
    return v


def evid_of(ev):
    """event id of a boundary call"""
    r = ev.a[3]
    return r.a[0] if r.op == 'res' else None


def get(v, name):
    """field of a (possibly partly known) struct value"""
    if v.op == 'adt':
        if name in v.a[4]:
            return v.a[3][v.a[4].index(name)]
        return mk('fld', v, name)
    if v.op == 'upd':
        for k, x in v.a[1]:
            if k[0] == 'f' and k[2] == name:
                return x
        return get(v.a[0], name)
    if v.op == 'tup' and name.isdigit():
        return v.a[0][int(name)]
    if v.op == 'phi':
        xs = {get(x, name) for x in v.a[1]}
        if len(xs) == 1:
            return xs.pop()
    return mk('fld', v, name)


def payload(v, variant, idx='0'):
    if v.op == 'adt':
        return get(v, idx)
    return mk('fld', mk('as', v, variant), idx)


def wroot(ev):
    return ev.a[1].a[0]


def wfields(ev):
    """field names of a written place"""
    return tuple(p[-1] for p in ev.a[1].a[1] if p[0] == 'f')


class Ctx:
    def __init__(self, build=None):
        self.build = build or os.environ.get('VP_BUILD') or os.path.join(ROOT, 'build')
        self.progs = {}
        self.runs = {}
        self.engs = {}
        self.cur = None
        self.obs = {}
        self.entries = set()
        self.npaths = 0
        self.dump_s = 0.0
        self.alias = {}     # build configurations standing in for others (thorough)

    # ---- programs -----------------------------------------------------
    def prog(self, cfg='default'):
        cfg = self.alias.get(cfg, cfg)
        p = self.progs.get(cfg)
        if p is None:
            pre = os.environ.get('VP_DUMP_' + cfg.upper())
            if pre:
                out = pre
            else:
                t = time.time()
                out = os.path.join(self.build, 'dump-%s-%d.json' % (cfg, os.getpid()))
                os.makedirs(self.build, exist_ok=True)
                dbg, extra = CFGS[cfg]
                env = dict(os.environ, VP_DBG=dbg, VP_BUILD=self.build)
                r = subprocess.run([os.path.join(ROOT, 'tools', 'dump.sh'), out] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise Missing('the tree cannot be type-checked (%s): %s' % (cfg, r.stdout[-1500:]))
                self.dump_s += time.time() - t
            p = Prog(out)
            if not pre:
                os.unlink(out)
            self.progs[cfg] = p
        return p

    # ---- engines ------------------------------------------------------
    def bounds(self, mode, p):
        if mode == 'leaf':
            return {}
        b = contracts.boundary(p, send=(mode != 'send'))
        if mode == 'data':
            b['Foca::apply_many'] = contracts.c_apply_many
            b['Probe::receive_ack'] = contracts.c_ack('receive_ack')
            b['Probe::receive_indirect_ack'] = contracts.c_ack('receive_indirect_ack')
            b['Foca::change_identity'] = contracts.c_change_identity
        if mode == 'cid':
            b['Foca::change_identity'] = contracts.c_change_identity
        return b

    def engine(self, mode, cfg, obl=False):
        k = (mode, cfg, obl)
        e = self.engs.get(k)
        if e is None:
            p = self.prog(cfg)
            e = Engine(p, boundary=self.bounds(mode, p), merge=False)
            e.collect_obl = obl
            if mode != 'leaf':
                e.ctxroot = ('O', 'self')
            self.engs[k] = e
        return e

    def run(self, entry, mode='foca', cfg='default', key=None, args=None, setup=None, tag=None):
        k = (entry, mode, cfg, key, tag)
        if k in self.runs and (setup is None and args is None or tag):
            return self.runs[k]
        e = self.engine(mode, cfg)
        if key is None:
            bs = self.prog(cfg).find(entry)
            if len(bs) != 1:
                raise Missing('%s: %d definitions' % (entry, len(bs)))
        try:
            ps = e.run(entry, args=args, setup=setup, key=key)
        except AnalysisError as x:
            raise Missing('%s: %s' % (entry, x))
        if not ps:
            raise Missing('%s: no path returns' % entry)
        self.runs[k] = ps
        self.entries.add((entry, mode))
        self.npaths += len(ps)
        return ps

    def param(self, entry, i, cfg='default'):
        """symbol of the i-th parameter (0 = self) of an entry"""
        bs = self.prog(cfg).find(entry)
        if len(bs) != 1:
            raise Missing('%s: %d definitions' % (entry, len(bs)))
        return sym(bs[0]['body']['locals'][i + 1].get('name', 'arg%d' % (i + 1)))

    def has(self, entry, cfg='default'):
        return len(self.prog(cfg).find(entry)) == 1

    # ---- facts --------------------------------------------------------
    def state(self, f):
        return State({}, f if isinstance(f, Facts) else Facts(f), TR0)

    def ev(self, seg, t):
        """True / False / None under the facts of a segment (or path)"""
        f = seg.f if isinstance(seg, (Seg, Path)) else seg
        e = seg.path.eng if isinstance(seg, Seg) else seg.eng if isinstance(seg, Path) else self.engine('leaf', 'default')
        return e.evalb(self.state(f), t)

    def isv(self, x, adtname, variant):
        if x.op == 'adt':
            return TRUE if x.a[1] == variant else FALSE
        return mk('isv', x, self.adtkey(adtname), variant)

    def adtkey(self, name):
        if name == 'Option':
            return contracts.OPT
        if name == 'Result':
            return contracts.RES
        return self.engine('leaf', next(iter(self.progs), 'default')).adt_named(name)

    def eq(self, a, b):
        return self.engine('leaf', 'default')._eq(a, b)

    def consistent(self, f, conj):
        """can the conjunction of (term, truth) hold together with f? returns list of facts"""
        e = self.engine('leaf', 'default')
        sts = [self.state(f.copy())]
        for t, truth in conj:
            nxt = []
            for s in sts:
                nxt += e.assume(s, t, truth)
            sts = nxt
        return [s.f for s in sts]

    def table(self, f, dims):
        """all assignments of dims consistent with f; dims: list of
        [(label, [(term, truth), ...]), ...]"""
        return [combo for combo, _ in self.tablef(f, dims)]

    def tablef(self, f, dims):
        """like table, with the refined facts of each assignment"""
        e = self.engine('leaf', 'default')
        out = []

        def go(i, sts, combo):
            if i == len(dims):
                out.append((combo, [s.f for s in sts]))
                return
            for l, cs in dims[i]:
                nxt = [s.copy() for s in sts]
                for t, truth in cs:
                    nxt = [s2 for s in nxt for s2 in e.assume(s, t, truth)]
                    if not nxt:
                        break
                if nxt:
                    go(i + 1, nxt, combo + (l,))
        go(0, [self.state(f.copy())], ())
        return out

    def always(self, fs, t):
        """value of t under all the given facts, None if it is not determined"""
        vs = {self.ev(f, t) for f in fs}
        return vs.pop() if len(vs) == 1 else None

    def d_bool(self, t):
        return [(True, [(t, True)]), (False, [(t, False)])]

    def d_var(self, x, adtname):
        key = self.adtkey(adtname)
        vs = self.engine('leaf', 'default').p.variants(key) or {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err']}.get(adtname)
        return [(v, [(self.isv(x, adtname, v), True)]) for v in vs]

    def d_rel(self, a, b):
        return [('<', [(rel(a, b, 1), True)]), ('=', [(rel(a, b, 2), True)]), ('>', [(rel(a, b, 4), True)])]

    # ---- segments -----------------------------------------------------
    def segs(self, path, iters=True):
        out = []
        top = Seg(path, path.ev, path.f, 'path')
        out.append(top)
        if iters:
            for ev in path.ev:
                if is_loop(ev):
                    self._iters(path, ev, top, out)
        return out

    def _iters(self, path, lev, parent, out):
        for it in lev.a[2].a[0]:
            evs = events(it.a[0])
            s = Seg(path, evs, Facts(dict(it.a[2].a[0])), 'iter', lev, [(x.a[0], x.a[1]) for x in it.a[1].a[0]], parent)
            out.append(s)
            for ev in evs:
                if is_loop(ev):
                    self._iters(path, ev, s, out)

    def calls(self, path, *names):
        """[(seg, event)] over the path and all its loop iterations"""
        return [(s, ev) for s in self.segs(path) for ev in s.ev if is_call(ev, *names)]

    def writes(self, path, *fields):
        return [(s, ev) for s in self.segs(path) for ev in s.ev if is_write(ev) and (not fields or any(x in fields for x in wfields(ev)))]

    def final(self, path, obj='self'):
        return path.eng.snap(path.st, mk('ref', ('O', obj), ()))

    # ---- verdicts -----------------------------------------------------
    def ob(self, ok, anchor, what, site=None):
        """one obligation: `anchor` names the construct, `what` the requirement"""
        key = (self.cur.id, anchor, what)
        o = self.obs.setdefault(key, {'rule': self.cur.id, 'anchor': anchor, 'what': what, 'n': 0, 'bad': 0, 'site': None, 'detail': None})
        o['n'] += 1
        if not ok:
            o['bad'] += 1
            if o['site'] is None and site is not None:
                o['site'] = str(site)
        return ok

    def detail(self, anchor, what, text):
        o = self.obs.get((self.cur.id, anchor, what))
        if o is not None and o['detail'] is None:
            o['detail'] = text

    def site(self, path, ev):
        return path.eng.sites.get(ev)

    def runrule(self, r):
        self.cur = r
        n0 = len(self.obs)
        try:
            r.fn(self)
        except Missing as x:
            self.ob(False, 'anchor', 'missing: %s' % x)
        except AnalysisError as x:
            self.ob(False, 'anchor', 'not analysable: %s' % x)
        except RecursionError:
            self.ob(False, 'anchor', 'not analysable: recursion')
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.ob(False, 'anchor', 'not analysable: %s: %s (%s:%d)' % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        mine = [o for k, o in self.obs.items() if k[0] == r.id]
        if sum(o['n'] for o in mine) < r.floor:
            self.ob(False, 'anchor', 'fewer than %d obligations were generated' % r.floor)
        return mine


# ---- the recurring terms ---------------------------------------------------
SELF = sym('self')


def S(*names):
    t = SELF
    for n in names:
        t = mk('fld', t, n)
    return t


def nz(t):
    return app('nzget', t)


def vname(t):
    return t.a[1] if t.op == 'adt' else None
