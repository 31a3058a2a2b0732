"""Path-sensitive interprocedural dataflow over the dumped MIR.

Abstract state = store (access path -> value number), branch facts (variant
sets, orderings, intervals, opaque booleans) and the sequence of
property-relevant events.  Local functions and closures are inlined, loops are
summarised by one generic iteration from a havocked head, states that agree on
the relevant trace and returned value are merged when a callee returns
(property simulation).  No constraint solver, nothing is executed.
"""
import json
import re
from terms import *

MAXSTEPS = 3_000_000


class AnalysisError(Exception):
    pass


# Private names the rules are written in.  They are nobody's interface: a field
# (or private type) that is called something else is read under these names.
PRIVATE = {
    'foca::Foca': (('identity', 'T'), ('codec', 'C'), ('rng', 'RNG'), ('incarnation', 'u16'), ('config', 'config::Config'),
                   ('connection_state', 'ConnectionState'), ('timer_token', 'u8'), ('members', 'member::Members<T>'),
                   ('probe', 'probe::Probe<T>'), ('updates_buf', 'alloc::vec::Vec<member::Member<T>>'),
                   ('choice_buf', 'alloc::vec::Vec<member::Member<T>>'), ('send_buf', 'alloc::vec::Vec<u8>'),
                   ('updates', 'broadcast::Broadcasts<Addr<<T as identity::Identity>::Addr>>'), ('broadcast_handler', 'B'),
                   ('custom_broadcasts', 'broadcast::Broadcasts<<B as broadcast::BroadcastHandler<T>>::Key>')),
    'foca::probe::Probe': (('direct', 'core::option::Option<member::Member<T>>'), ('indirect', 'alloc::vec::Vec<T>'), ('probe_number', 'u8'),
                           ('direct_ack_ok', 'bool'), ('indirect_ack_count', 'usize'), ('reached_indirect_probe_stage', 'bool')),
    'foca::broadcast::Broadcasts': (('flip', 'alloc::collections::BinaryHeap<broadcast::Entry<V>>'), ('flop', 'alloc::collections::BinaryHeap<broadcast::Entry<V>>')),
    'foca::broadcast::Entry': (('remaining_tx', 'usize'), ('data', 'alloc::vec::Vec<u8>'), ('item', 'T')),
    'foca::member::Members': (('inner', 'alloc::vec::Vec<member::Member<T>>'), ('cursor', 'usize'), ('num_active', 'usize')),
    'foca::member::Member': (('id', 'T'), ('incarnation', 'u16'), ('state', 'member::State')),
    'foca::runtime::AccumulatingRuntime': (('to_send', 'alloc::collections::VecDeque<(T, bytes::Bytes)>'),
                                           ('to_schedule', 'alloc::collections::VecDeque<(core::time::Duration, runtime::Timer<T>)>'),
                                           ('notifications', 'alloc::collections::VecDeque<runtime::OwnedNotification<T>>'), ('buf', 'bytes::BytesMut')),
}


def load(path):
    text = open(path).read()
    d = json.loads(text)

    def fields(key):
        a = d['adts'].get(key)
        return a['variants'][0]['fields'] if a and a['kind'] == 'struct' else []

    # private types: the element of a Broadcasts heap, the key of the updates
    swaps = []
    for key, pat, canon in (('foca::broadcast::Broadcasts', r'alloc::collections::BinaryHeap<([\w:]+)<V>>$', 'broadcast::Entry'),
                            ('foca::Foca', r'broadcast::Broadcasts<([\w:]+)<<T as identity::Identity>::Addr>>$', 'Addr')):
        seen = {m.group(1) for f in fields(key) for m in [re.match(pat, f['ty'])] if m}
        if len(seen) == 1 and canon not in seen and 'foca::' + canon not in d['adts']:
            swaps.append((seen.pop(), canon))
    for name, canon in swaps:
        text = re.sub(r'(?<![\w:])(foca::)?%s(?![\w:])' % re.escape(name), lambda m: (m.group(1) or '') + canon, text)
    if swaps:
        d = json.loads(text)
    # private fields, told apart by type (and order among equals)
    ren = {}
    for key, want in PRIVATE.items():
        have = [(f['name'], f['ty']) for f in fields(key)]
        names = [n for n, _ in have]
        for ty in {t for _, t in want}:
            gone = [n for n, t in want if t == ty and n not in names]
            new = [n for n, t in have if t == ty and n not in [w for w, _ in want]]
            if gone and len(gone) == len(new):
                ren.setdefault(key, {}).update(zip(new, gone))
    if ren:
        for key, m in ren.items():
            for f in fields(key):
                f['name'] = m.get(f['name'], f['name'])
        st = [d['bodies']]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('a') == 'adt' and x.get('adt') in ren:
                    x['fields'] = [ren[x['adt']].get(n, n) for n in x['fields']]
                st += [v for v in x.values() if isinstance(v, (dict, list))]
            elif x and x[0] == 'f' and len(x) == 4:
                if x[3] in ren:
                    x[2] = ren[x[3]].get(x[2], x[2])
            else:
                st += [v for v in x if isinstance(v, (dict, list))]
    private_fns(d)
    return d


def fn_table(d):
    """The crate's unreachable functions: where each lives, what it takes and
    returns, and what it touches (fields, callees that are not ours)."""
    inner, out = {}, []
    for b in d['bodies']:
        if b['kind'] == 'Closure' and b.get('parent'):
            inner.setdefault(b['parent'], []).append(b)
    for b in d['bodies']:
        if b.get('local') not in (True, 'true') or b.get('reachable') in (True, 'true') or b.get('impl_trait') \
                or b['kind'] not in ('Fn', 'AssocFn') or b.get('output') is None:
            continue
        feats, st = {}, [b.get('body')]
        more = list(inner.get(b['key'], ()))
        while st or more:
            if not st:
                c = more.pop()
                more += inner.get(c['key'], ())
                st.append(c.get('body'))
                continue
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'fn':
                    n = '(ours)' if x.get('key', '').startswith('foca::') else x['name']
                    feats[n] = feats.get(n, 0) + 1
                st += [v for v in x.values() if isinstance(v, (dict, list))]
            elif isinstance(x, list):
                if len(x) == 4 and x[0] == 'f' and isinstance(x[2], str):
                    k = '%s.%s' % (x[3], x[2])
                    feats[k] = feats.get(k, 0) + 1
                st += [v for v in x if isinstance(v, (dict, list))]
        out.append({'home': b.get('impl_self') or b['path'].rpartition('::')[0], 'name': b['name'], 'inputs': b['inputs'],
                    'output': b['output'], 'feats': feats, 'key': b['key']})
    return out


def private_fns(d):
    """Give a renamed private function the name the rules know it by: same
    home, same signature, and (nearly) the same things touched."""
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'private_fns.json')) as f:
        known = json.load(f)
    have = fn_table(d)
    names = {(h['home'], h['name']) for h in have} | {
        (b.get('impl_self') or b['path'].rpartition('::')[0], b['name']) for b in d['bodies']
        if b.get('local') in (True, 'true') and not b.get('impl_trait')}
    gone = [k for k in known if (k['home'], k['name']) not in names]
    old = {(k['home'], k['name']) for k in known}
    new = [h for h in have if (h['home'], h['name']) not in old]

    def like(a, b):
        keys = set(a) | set(b)
        both = sum(min(a.get(k, 0), b.get(k, 0)) for k in keys)
        return both / max(1, sum(max(a.get(k, 0), b.get(k, 0)) for k in keys)) if keys else 1.0

    pairs = sorted(((like(g['feats'], n['feats']), g['name'], n['key'], g, n) for g in gone for n in new
                    if g['home'] == n['home'] and g['inputs'] == n['inputs'] and g['output'] == n['output']),
                   key=lambda p: (-p[0], p[1], p[2]))
    ren, taken = {}, set()
    for score, _, key, g, n in pairs:
        if score >= 0.75 and key not in ren and (g['home'], g['name']) not in taken:
            ren[key] = (n['name'], g['name'])
            taken.add((g['home'], g['name']))
    if not ren:
        return

    def fix(s):
        for key, (a, b) in ren.items():
            if s == key or s.startswith(key + '::'):
                return key[:-len(a)] + b + s[len(key):]
        return s

    def walk(x):
        if isinstance(x, dict):
            k = x.get('key')
            hit = ren.get(k) if isinstance(k, str) else None
            for n, v in x.items():
                if isinstance(v, str):
                    if n in ('key', 'parent', 'res', 'res_key') or v.startswith('foca::'):
                        x[n] = fix(v)
                    elif hit and n == 'name' and v == hit[0]:
                        x[n] = hit[1]
                    elif hit and n in ('path', 'full') and v.endswith('::' + hit[0]):
                        x[n] = v[:-len(hit[0])] + hit[1]
                else:
                    walk(v)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, str):
                    if v.startswith('foca::'):
                        x[i] = fix(v)
                else:
                    walk(v)

    walk(d['bodies'])


class Prog:
    def __init__(self, path):
        d = load(path)
        self.bodies = {b['key']: b for b in d['bodies']}
        self.adts = d['adts']
        self._loops = {}
        for b in d['bodies']:
            b['derived'] = b.get('derived') in (True, 'true')
            b['local'] = b.get('local') in (True, 'true')
        self.local = [b for b in d['bodies'] if b['local']]
        # field names that stand for a number wherever they occur in the crate
        num, other = set(), set()
        for a in self.adts.values():
            if a.get('local') in (True, 'true'):
                for v in a['variants']:
                    for f in v['fields']:
                        (num if f['ty'] in ('u8', 'u16', 'u32', 'u64', 'usize') else other).add(f['name'])
        self.numfields = {n for n in num - other if not n.isdigit()}
        # variants that carry nothing, whichever type has one of that name
        vs = [v for a in self.adts.values() if a['kind'] == 'enum' for v in a['variants']]
        self.unit_variants = {v['name'] for v in vs} - {v['name'] for v in vs if v['fields']}

    def find(self, suffix):
        """local body whose def path ends with `suffix` (e.g. 'Members::apply')"""
        out = [b for b in self.local if self.nice(b) == suffix]
        return out

    def nice(self, b):
        """Type::method, module::function or parent::{closure}"""
        if b['kind'] == 'Closure':
            return self.nice(self.bodies[b['parent']]) + '::{closure}' if b.get('parent') in self.bodies else b['path']
        if b.get('impl_self'):
            t = b['impl_self']
            t = t.split('<')[0] if not t.startswith('&') else t
            t = t.split('::')[-1]
            if b.get('impl_trait'):
                tr = b['impl_trait'].split(' as ')[-1].rstrip('>')
                tr = tr.split('<')[0].split('::')[-1]
                return f"<{t} as {tr}>::{b['name']}"
            return f"{t}::{b['name']}"
        return b['path']

    def variants(self, adtkey):
        a = self.adts.get(adtkey)
        return [v['name'] for v in a['variants']] if a else None

    def discr_of(self, adtkey, name):
        for v in self.adts[adtkey]['variants']:
            if v['name'] == name:
                return int(v['discr'])

    # ---- loops -------------------------------------------------------
    def loops(self, body):
        k = id(body)
        if k in self._loops:
            return self._loops[k]
        blocks = body['blocks']
        n = len(blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            if b is None:
                continue
            t = b['t']
            if t['t'] in ('goto', 'drop', 'assert'):
                succ[i] = [t['to']]
            elif t['t'] == 'switch':
                succ[i] = [c[1] for c in t['cases']] + [t['else']]
            elif t['t'] == 'call' and 'to' in t:
                succ[i] = [t['to']]
            succ[i] = [s for s in succ[i] if blocks[s] is not None]
        # reverse postorder, dominators (iterative)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for u in rpo:
            for v in succ[u]:
                preds[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if dom(v, u):
                    bs = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in bs:
                            bs.add(x)
                            st.extend(preds[x])
        self._loops[k] = loops
        return loops


class State:
    __slots__ = ('mem', 'f', 'tr')

    def __init__(self, mem, f, tr):
        self.mem = mem
        self.f = f
        self.tr = tr

    def copy(self):
        return State(dict(self.mem), self.f.copy(), self.tr)


TR0 = mk('tr0')


def events(tr):
    out = []
    while tr is not TR0:
        out.append(tr.a[1])
        tr = tr.a[0]
    out.reverse()
    return out


class Path:
    """one merged outcome of an entry"""

    def __init__(self, eng, kind, st, ret, info=None):
        self.eng, self.kind, self.st, self.ret, self.info = eng, kind, st, ret, info
        self._ev = None

    @property
    def ev(self):
        if self._ev is None:
            self._ev = events(self.st.tr)
        return self._ev

    @property
    def f(self):
        return self.st.f


class Frame:
    __slots__ = ('id', 'b', 'body', 'key', 'stack', 'prom', 'round')

    def __init__(self, fid, b, body, key, stack):
        self.id, self.b, self.body, self.key, self.stack = fid, b, body, key, stack
        self.round = None


def strip_drain(v):
    while isinstance(v, T) and v.op == 'popd':
        v = v.a[0]
    return v


def bag(v):
    """provenance of a vector: the value it was drained from"""
    while True:
        if v.op == 'popd' or v.op == 'drain':
            v = v.a[0]
        else:
            return v


class Engine:
    def __init__(self, prog, boundary=None, relevant=None, split=None, merge=True, log_facts=None, inline_filter=None):
        self.p = prog
        self.boundary = boundary or {}
        self.relevant = relevant or (lambda ev: True)
        self.split = split or (lambda key: False)
        self.merge = merge
        self.log_facts = log_facts or (lambda key: False)
        self.inline_filter = inline_filter
        self.ctxroot = None
        self.steps = 0
        self.sites = {}
        self.loopinfo = {}
        self.loopmeta = {}
        self.pulled = {}
        self.panics = []
        self.oblog = []
        self.opaque = {}
        self.inlined = set()
        self.collect_obl = False
        self.pickers = {}
        import models
        self.models = models.build(self)

    def adt_named(self, name):
        ks = [k for k in self.p.adts if k.split('::')[-1] == name and k.startswith('foca::')]
        if len(ks) != 1:
            raise AnalysisError(f'anchor type {name}: {len(ks)} definitions')
        return ks[0]

    def models_bag(self, v):
        return bag(v)

    def picked(self, st, elem):
        """what the picker it was chosen by guarantees about a chosen member"""
        v = elem.a[0]
        got = self.pickers.get(v.a[0]) if v.op == 'chosen' and v.a[1].op == 'vempty' else None
        if got is None:
            return st
        ph, cases = got
        yes = [dict(x.a[1].a[0]) for x in cases if x.a[0] is TRUE]
        if not yes:
            return st
        f = dict(yes[0])
        for o in yes[1:]:
            for k in list(f):
                if k not in o:
                    del f[k]
                elif k[0] == 'var':
                    f[k] = f[k] | o[k]
                elif f[k] != o[k]:
                    del f[k]
        f = {k: x for k, x in f.items() if k[0] in ('b', 'var') and any(y is ph for y in subterms(k[1:]))}
        sts = [st]
        for k, x in f.items():
            t = replace(k[1], ph, elem)
            if k[0] == 'var':
                sts = [s2 for s in sts for s2 in self.assume_var(s, t, x if ('var', t) not in s.f.d else x & s.f.d[('var', t)])]
            elif k[1].op == 'eq':
                sts = [s2 for s in sts for s2 in self.assume(s, mk_eq(*t.a), x)]
            else:
                sts = [s2 for s in sts for s2 in self.assume(s, t, x)]
        return sts[0] if len(sts) == 1 else st

    def assume_var_is(self, st, v, key, name):
        if v.op == 'adt':
            return [st] if v.a[1] == name else []
        return self.assume(st, mk('isv', v, key, name), True)

    def require(self, st, stack, t, cond, msg):
        """a condition without which the callee panics"""
        if not self.collect_obl:
            return
        loc = [k for k in stack if self.p.bodies[k]['local']]
        if not loc:
            return
        self.oblog.append((loc, t.get('span') if t else None, msg, self.evalb(st, cond) is True, cond, st))

    # ================= store ==========================================
    def project(self, v, pe):
        o = v.op
        if pe[0] == 'v':
            if o == 'adt':
                return v
            if o == 'upd':
                for k, x in v.a[1]:
                    if k == pe:
                        return x
                return self.project(v.a[0], pe)
            if o == 'phi':
                xs = [x for x in v.a[1] if not (x.op == 'adt' and x.a[1] != pe[1])]
                xs2 = [self.project(x, pe) for x in xs]
                if xs2 and all(x is xs2[0] for x in xs2):
                    return xs2[0]
                return mk('as', v, pe[1]) if not xs2 else self.mkphi(mk('pj', v.a[0], pe[1]), xs2)
            return mk('as', v, pe[1])
        if pe[0] == 'f':
            if o == 'adt':
                if pe[1] < len(v.a[3]):
                    return v.a[3][pe[1]]
                return mk('fld', v, pe[2])
            if o == 'tup':
                if pe[1] < len(v.a[0]):
                    return v.a[0][pe[1]]
            if o == 'clo':
                return v.a[1][pe[1]]
            if o == 'upd':
                for k, x in v.a[1]:
                    if k == pe:
                        return x
                return self.project(v.a[0], pe)
            if o == 'phi':
                xs = [self.project(x, pe) for x in v.a[1]]
                if all(x is xs[0] for x in xs):
                    return xs[0]
                return self.mkphi(mk('pj', v.a[0], pe[2]), xs)
            if o == 'rep':
                return v.a[0]
            return mk('fld', v, pe[2])
        if pe[0] == 'e':
            if o == 'upd':
                other = False
                for k, x in v.a[1]:
                    if k == pe:
                        return x
                    other = other or k[0] == 'e'
                if other:
                    return mk('elem', v, pe[1])
                return self.project(v.a[0], pe)
            if o == 'slice':
                return self.project(v.a[0], ('e', add(v.a[1], pe[1])))
            if o == 'adv':
                return self.project(v.a[0], ('e', add(v.a[1], pe[1])))
            if o == 'arr' and pe[1].op == INT and pe[1].a[0] < len(v.a[0]):
                return v.a[0][pe[1].a[0]]
            return mk('elem', bag(v), pe[1])
        raise AnalysisError(f'project {pe}')

    def mkphi(self, site, xs):
        flat = set()
        for x in xs:
            if x.op == 'phi':
                flat.update(x.a[1])
            else:
                flat.add(x)
        if len(flat) == 1:
            return next(iter(flat))
        return mk('phi', site, frozenset(flat))

    def store(self, v, path, val):
        if not path:
            return val
        pe, rest = path[0], path[1:]
        o = v.op
        if pe[0] == 'v' and o == 'adt' and v.a[1] == pe[1]:
            return self.store(v, rest, val)
        if pe[0] == 'f' and o == 'adt' and pe[1] < len(v.a[3]):
            fs = list(v.a[3])
            fs[pe[1]] = self.store(fs[pe[1]], rest, val)
            return mk('adt', v.a[0], v.a[1], v.a[2], tuple(fs), v.a[4])
        if pe[0] == 'f' and o == 'tup' and pe[1] < len(v.a[0]):
            fs = list(v.a[0])
            fs[pe[1]] = self.store(fs[pe[1]], rest, val)
            return mk('tup', tuple(fs))
        if pe[0] == 'f' and o == 'clo':
            fs = list(v.a[1])
            fs[pe[1]] = self.store(fs[pe[1]], rest, val)
            return mk('clo', v.a[0], tuple(fs))
        cur = self.project(v, pe)
        new = self.store(cur, rest, val)
        base, items = (v.a[0], dict(v.a[1])) if o == 'upd' else (v, {})
        if new is self.project(base, pe):
            items.pop(pe, None)
        else:
            items[pe] = new
        if not items:
            return base
        if pe[0] == 'e' and new.op == 'elem' and new.a[0].op == 'app' and new.a[0].a[0] == 'be_bytes' and new.a[1].op == INT:
            # a number written byte by byte
            num, w = new.a[0].a[1][0], new.a[0].a[1][1].a[0]
            at = add(pe[1], new.a[1], -1)
            ks = [('e', add(at, integer(k))) for k in range(w)]
            if all(items.get(k) is mk('elem', new.a[0], integer(n)) for n, k in enumerate(ks)):
                for k in ks:
                    del items[k]
                inner = mk('upd', base, tuple(sorted(items.items(), key=lambda kv: repr(kv[0])))) if items else base
                return mk('patch', inner, at, mk('put', 'put_u%d' % (8 * w), num))
        return mk('upd', base, tuple(sorted(items.items(), key=lambda kv: repr(kv[0]))))

    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'P':
                return root[1]
            return mk('uninit', str(root))
        return v

    def read(self, st, root, path):
        v = self.rootval(st, root)
        for pe in path:
            v = self.project(v, pe)
        return v

    def write(self, st, root, path, val):
        if path:
            st.mem[root] = self.store(self.rootval(st, root), path, val)
        else:
            st.mem[root] = val

    def deref(self, st, v):
        while v.op == 'phi' and False:
            pass
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return ('P', v), ()

    def val(self, st, v, depth=0):
        """peel references"""
        n = 0
        while v.op == 'ref' and n < 12:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        if v.op == 'phi' and any(x.op == 'ref' for x in v.a[1]):
            xs = [self.val(st, x) for x in v.a[1]]
            return self.mkphi(v.a[0], xs)
        m = st.mem.get(('P', v))
        if m is not None and m is not v and n < 12:
            return m
        return v

    def snap(self, st, v, depth=0):
        v = self.val(st, v)
        if depth > 6:
            return v
        if v.op == 'adt' and v.a[3]:
            fs = tuple(self.snap(st, x, depth + 1) for x in v.a[3])
            return mk('adt', v.a[0], v.a[1], v.a[2], fs, v.a[4])
        if v.op == 'tup' and v.a[0]:
            return mk('tup', tuple(self.snap(st, x, depth + 1) for x in v.a[0]))
        return v

    # ================= places / operands ==============================
    def resolve(self, st, fr, place):
        root, path = ('L', fr.id, place[0]), ()
        proj = place[1]
        for el in proj:
            k = el[0]
            if k == '*':
                v = self.read(st, root, path)
                root, path = self.deref(st, v)
            elif k == 'f':
                path = path + (('f', el[1], el[2]),)
            elif k == 'd':
                path = path + (('v', el[2]),)
            elif k == 'i':
                path = path + (('e', self.read(st, ('L', fr.id, el[1]), ())),)
            elif k == 'ci':
                base = self.read(st, root, path)
                if el[3] in (True, 'true'):
                    path = path + (('e', add(self.models.lenof(base), integer(el[1]), -1)),)
                else:
                    path = path + (('e', integer(el[1])),)
            elif k == 'sub':
                v = self.val(st, self.read(st, root, path))
                n = integer(el[2])
                if el[3] in (True, 'true'):
                    n = add(self.models.lenof(v), n, -1)
                root, path = ('P', self.models.sliced(v, integer(el[1]), n)), ()
            else:
                path = path + (('f', 0, '?'),)
        return root, path

    def readplace(self, st, fr, place):
        root, path = self.resolve(st, fr, place)
        return self.read(st, root, path)

    def operand(self, st, fr, o):
        if o[0] in ('cp', 'mv'):
            return self.readplace(st, fr, o[1])
        if o[0] == 'c':
            return self.const(st, fr, o[1])
        return mk('rtconst', str(o[1]))

    def const(self, st, fr, c):
        k = c['k']
        if k == 'int':
            return integer(int(c['v']))
        if k == 'fn':
            key = c.get('res') or c['key']
            t = mk('fn', key, c['path'], c.get('trait') or '', c.get('self') or '', c['name'])
            self.p.__dict__.setdefault('fnrefs', {})[t] = c
            return t
        if k == 'closure':
            return mk('clo', c['key'], ())
        if k == 'promoted':
            b = self.p.bodies.get(c['key'])
            if b and c['idx'] < len(b['promoted']):
                v = self.run_promoted(b, c['idx'])
                if v is not None:
                    return v
            return mk('k', f"promoted {c['key']}#{c['idx']}")
        if k == 'float':
            return mk('float', c.get('v', '?'))
        if 'vname' in c:
            names = self.p.variants(c['adt'])
            if c.get('nfields', 0) == 0:
                return adt(c['adt'], c['vname'], int(c['variant']), (), ())
        if c.get('ty') == '()':
            return UNIT
        s = c.get('s', '')
        if c.get('adt') and self.p.adts.get(c['adt'], {}).get('kind') == 'struct' and not self.p.adts[c['adt']]['variants'][0]['fields']:
            return adt(c['adt'], self.p.adts[c['adt']]['variants'][0]['name'], 0, (), ())
        return mk('k', s or c.get('name', '?'))

    def run_promoted(self, b, idx):
        cache = self.p.__dict__.setdefault('promcache', {})
        kk = (b['key'], idx)
        if kk in cache:
            return cache[kk]
        body = b['promoted'][idx]
        fid = mk('fr', 'prom', b['key'], idx)
        fr = Frame(fid, b, body, b['key'], ())
        st = State({}, Facts(), TR0)
        try:
            res = self.run_region(fr, 0, st, None, None)
        except AnalysisError:
            return None
        rets = res[2]
        v = None
        if len(rets) == 1:
            v = self.snap(rets[0], self.read(rets[0], ('L', fid, 0), ()))
        cache[kk] = v
        return v

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            root, path = self.resolve(st, fr, r[2])
            if not path and root[0] == 'P' and root not in st.mem:
                return root[1]
            return mk('ref', root, path)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if r[3] == 'bool' or v in (TRUE, FALSE) or v.op in ('rel', 'not', 'eq', 'isv', 'and'):
                    return mk_not(v)
                return app('bitnot', v)
            if r[1] == 'PtrMetadata':
                return self.models.lenof(self.val(st, v))
            return app('neg', v)
        if k == 'discr':
            v = self.readplace(st, fr, r[1])
            return self.discr(st, v, r[2])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a['a'] == 'adt':
                return self.whole(a, ops) or adt(a['adt'], a['vname'], a['variant'], ops, a['fields'])
            if a['a'] == 'tuple':
                return mk('tup', tuple(ops))
            if a['a'] == 'closure':
                return mk('clo', a['key'], tuple(ops))
            if a['a'] == 'array':
                return mk('arr', tuple(ops))
            return app('agg', *ops)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'repeat':
            return mk('rep', self.operand(st, fr, r[1]))
        return mk('k', 'rv ' + str(r[1])[:60])

    def whole(self, a, ops):
        """a struct rebuilt from every field of one value is that value"""
        if a.get('enum') in (True, 'true') or len(ops) < 2 or not ops[0].op == 'fld' or a['fields'][0].isdigit():
            return None
        x = ops[0].a[0]
        return x if all(o.op == 'fld' and o.a[0] is x and o.a[1] == n for o, n in zip(ops, a['fields'])) else None

    WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'bool': 1, 'char': 32}

    def cast(self, st, kind, v, to, frm):
        if kind == 'IntToInt':
            if to in self.WIDTH and frm in self.WIDTH:
                if self.WIDTH[to] >= self.WIDTH[frm]:
                    return v
                lo, hi = st.f.iv(v)
                if hi < (1 << self.WIDTH[to]):
                    return v
                if v.op == INT:
                    return integer(v.a[0] & ((1 << self.WIDTH[to]) - 1))
                return app('trunc_' + to, v)
            if v.op == INT or v.op == 'discr':
                return v
            return app('cast_' + to, v)
        if kind.startswith('PointerCoercion') or kind.startswith('Transmute') or kind.startswith('PtrToPtr'):
            return v
        if v.op == 'float' and kind == 'IntToFloat':
            return v
        return app(kind + '_' + to, v)

    def discr(self, st, v, adtkey):
        v = self.val(st, v)
        if v.op == 'upd':
            b = v.a[0]
            if not any(k == ('discr',) for k, _ in v.a[1]):
                v = b
        if v.op == 'adt':
            if adtkey and adtkey in self.p.adts:
                d = self.p.discr_of(v.a[0], v.a[1])
                if d is not None:
                    return integer(d)
            return integer(v.a[2])
        if v.op == 'ordv':
            return mk('discr', v, 'Ordering')
        return mk('discr', v, adtkey)

    def binop(self, st, op, a, b, ty):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ov = op.endswith('WithOverflow')
        if base in ('Add', 'Sub', 'Mul'):
            if 'f64' == ty or 'f32' == ty:
                return app('f' + base, a, b)
            if base == 'Add':
                v = add(a, b)
            elif base == 'Sub':
                v = add(a, b, -1)
            else:
                if a.op == INT and b.op == INT:
                    v = integer(a.a[0] * b.a[0])
                elif b.op == INT and not ov:
                    v = app('mul', a, b)
                else:
                    v = app('mul', *sorted((a, b), key=skey))
            if ov:
                return mk('tup', (v, app('overflow' + base + '_' + ty, a, b)))
            return v
        if base in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            m = {'Lt': 1, 'Le': 3, 'Gt': 4, 'Ge': 6, 'Eq': 2, 'Ne': 5}[base]
            if ty == 'bool':
                r = self.iff(a, b)
                return r if m == 2 else mk_not(r)
            if ty in ('f64', 'f32'):
                return app('f' + base, a, b)
            if ty.startswith('*') or ty.startswith('fn'):
                r = mk_eq(a, b)
                return r if m == 2 else mk_not(r)
            if a.op == 'discr' or b.op == 'discr':
                x, y = (a, b) if a.op == 'discr' else (b, a)
                if m in (2, 5):
                    if y.op == INT:
                        r = self.discr_is(x, y.a[0])
                    else:
                        r = self._eq(x, y)
                    return r if m == 2 else mk_not(r)
            return rel(a, b, m)
        if base == 'BitAnd' and ty == 'bool':
            return mk_and(a, b)
        if base == 'BitOr' and ty == 'bool':
            return mk_or(a, b)
        if base == 'BitXor' and ty == 'bool':
            return mk_not(self.iff(a, b))
        if a.op == INT and b.op == INT:
            x, y = a.a[0], b.a[0]
            if base == 'BitAnd':
                return integer(x & y)
            if base == 'BitOr':
                return integer(x | y)
            if base == 'Shl':
                return integer(x << y)
            if base == 'Shr':
                return integer(x >> y)
            if base == 'Div' and y:
                return integer(x // y)
            if base == 'Rem' and y:
                return integer(x % y)
        if base == 'Cmp':
            return mk('ordv', a, b)
        if base == 'Offset':
            return app('offset', a, b)
        return app(base.lower(), a, b)

    def discr_is(self, d, n):
        x, key = d.a
        if key == 'Ordering':
            n = {0: 2, 1: 4, -1: 1, 255: 1, (1 << 128) - 1: 1, (1 << 64) - 1: 1}[n]
            return self.ord_is(x, n)
        for v in self.p.adts[key]['variants']:
            if int(v['discr']) == n:
                return mk('isv', x, key, v['name'])
        return FALSE

    def ord_is(self, o, mask):
        return rel(o.a[0], o.a[1], mask)

    def iff(self, a, b):
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return mk_not(b)
        if b is FALSE:
            return mk_not(a)
        if a is mk_not(b):
            return FALSE
        if any(x.op in ('rel', 'isv', 'and', 'not', 'eq') for x in (a, b)):
            return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))
        return mk_eq(a, b)

    # ================= equality of structured values ====================
    def eqterm(self, st, a, b):
        a, b = self.snap(st, a), self.snap(st, b)
        return self._eq(a, b)

    def _eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == INT and b.op == INT:
            return FALSE
        if a.op == 'adt' and b.op == 'adt':
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[3], b.a[3]):
                r = mk_and(r, self._eq(x, y))
            return r
        if b.op == 'adt' and a.op != 'adt':
            a, b = b, a
        if a.op == 'adt':
            key = a.a[0]
            vs = self.p.variants(key)
            if vs is not None and self.p.adts[key]['kind'] == 'enum' and len(vs) > 0:
                r = mk('isv', b, key, a.a[1])
                if b.op == 'phi':
                    xs = {self._eq(a, x) for x in b.a[1]}
                    if len(xs) == 1:
                        return xs.pop()
                for i, x in enumerate(a.a[3]):
                    r = mk_and(r, self._eq(x, self.project(mk('as', b, a.a[1]), ('f', i, a.a[4][i]))))
                return r
        if a.op == 'tup' and b.op == 'tup':
            r = TRUE
            for x, y in zip(a.a[0], b.a[0]):
                r = mk_and(r, self._eq(x, y))
            return r
        if a.op == 'discr' and b.op == 'discr':
            ad = self.p.adts.get(a.a[1])
            if ad and a.a[1] == b.a[1] and not any(v['fields'] for v in ad['variants']):
                return self._eq(a.a[0], b.a[0])         # such a value is its discriminant
            return mk_eq(a, b)
        if a.op == 'discr' and b.op == INT:
            return self.discr_is(a, b.a[0])
        if b.op == 'discr' and a.op == INT:
            return self.discr_is(b, a.a[0])
        if a.op in (INT, 'lin', 'len') or b.op in (INT, 'lin'):
            return rel(a, b, 2)
        if any(x.op == 'fld' and x.a[1] in self.p.numfields for x in (a, b)):
            return rel(a, b, 2)
        return mk_eq(a, b)

    # ================= facts ============================================
    def _log(self, st, key, v):
        if self.log_facts(key):
            st.tr = mk('tr', st.tr, mk('fact', key[0], *(key[1:] + (v,))))

    def evalb(self, st, t):
        """TRUE / FALSE / None"""
        o = t.op
        if o == INT:
            return t.a[0] != 0
        f = st.f
        if o == 'not':
            r = self.evalb(st, t.a[0])
            return None if r is None else not r
        if o == 'rel':
            m = f.relmask(t.a[0], t.a[1], True)
            if not m:
                return None
            if m & t.a[2] == m:
                return True
            if m & t.a[2] == 0:
                return False
            return None
        if o == 'isv':
            vs = self.varset(st, t.a[0], t.a[1])
            if t.a[2] not in vs:
                return False
            if len(vs) == 1:
                return True
            return None
        if o == 'and':
            x, y = self.evalb(st, t.a[0]), self.evalb(st, t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if o == 'phi':
            rs = {self.evalb(st, x) for x in t.a[1]}
            if len(rs) == 1 and None not in rs:
                return rs.pop()
        v = f.d.get(('b', t))
        if v is not None:
            return v
        if o == 'eq':
            a, b = t.a
            lo = f.d.get(('rel', a, b))
            if lo is not None:
                if lo == 2:
                    return True
                if not lo & 2:
                    return False
            # variant sets of both sides disjoint
            va, vb = f.d.get(('var', a)), f.d.get(('var', b))
            if a.op == 'discr' and b.op == 'discr':
                va, vb = self.varset(st, *a.a), self.varset(st, *b.a)
                if len(va) == len(vb) == 1 and set(va) == set(vb):
                    return True
                va, vb = set(va), set(vb)
            if va and vb and not (va & vb):
                return False
            if va and vb and len(va) == len(vb) == 1 and next(iter(va)) in self.p.unit_variants:
                return True
            return self.eq_closure(f, a, b)
        return None

    def eq_closure(self, f, a, b):
        """what symmetry and transitivity of the known equalities say about a == b"""
        link, apart = {}, []
        for k, v in f.d.items():
            if k[0] == 'b' and k[1].op == 'eq':
                x, y = k[1].a
                if v:
                    link.setdefault(x, []).append(y)
                    link.setdefault(y, []).append(x)
                else:
                    apart.append((x, y))
        if not link:
            return None

        def cls(x):
            seen, todo = {x}, [x]
            while todo:
                for y in link.get(todo.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        ca = cls(a)
        if b in ca:
            return True
        if apart:
            cb = cls(b)
            if len(ca) > 1 or len(cb) > 1:
                for x, y in apart:
                    if x in ca and y in cb or x in cb and y in ca:
                        return False
        return None

    def varset(self, st, x, key):
        r = st.f.d.get(('var', x))
        if r is not None:
            return r
        if x.op == 'adt':
            return frozenset([x.a[1]])
        if x.op == 'phi':
            s = set()
            for y in x.a[1]:
                s |= self.varset(st, y, key)
            return frozenset(s)
        if x.op == 'upd':
            return self.varset(st, x.a[0], key)
        return frozenset(self.p.variants(key) or ())

    def assume(self, st, t, truth):
        """states in which t has the given truth value (st may be reused)"""
        r = self.evalb(st, t)
        if r is not None:
            return [st] if r == truth else []
        o = t.op
        if o == 'not':
            return self.assume(st, t.a[0], not truth)
        if o == 'rel':
            m = st.f.relmask(t.a[0], t.a[1], True)
            if not m:
                return []
            want = t.a[2] if truth else 7 ^ t.a[2]
            st = st.copy()
            if not st.f.set_rel(t.a[0], t.a[1], m & want):
                return []
            self._log(st, ('rel', t.a[0], t.a[1]), m & want)
            return [st]
        if o == 'isv':
            vs = self.varset(st, t.a[0], t.a[1])
            new = frozenset([t.a[2]]) if truth else vs - {t.a[2]}
            return self.assume_var(st, t.a[0], new)
        if o == 'and':
            if truth:
                out = []
                for s in self.assume(st, t.a[0], True):
                    out += self.assume(s, t.a[1], True)
                return out
            out = self.assume(st, t.a[0], False)
            for s in self.assume(st, t.a[0], True):
                out += self.assume(s, t.a[1], False)
            return out
        st = st.copy()
        st.f.d[('b', t)] = truth
        self._log(st, ('b', t), truth)
        if o == 'eq' and truth:
            # congruence for variant facts
            a, b = t.a
            va, vb = st.f.d.get(('var', a)), st.f.d.get(('var', b))
            if va and not vb:
                st.f.d[('var', b)] = va
            elif vb and not va:
                st.f.d[('var', a)] = vb
            elif va and vb:
                n = va & vb
                if not n:
                    return []
                st.f.d[('var', a)] = n
                st.f.d[('var', b)] = n
        return [st]

    def assume_var(self, st, x, new):
        if not new:
            return []
        st = st.copy()
        if x.op == 'phi':
            # refine through the alternatives that are known constants
            pass
        st.f.d[('var', x)] = frozenset(new)
        self._log(st, ('var', x), frozenset(new))
        return [st]

    def emit(self, st, ev, span=None):
        if self.ctxroot and ev.a[0] == 'call' and len(ev.a) == 4:
            # what the instance looks like when the call is made
            ev = mk('ev', *ev.a, st.mem.get(self.ctxroot, UNIT))
        if span and ev not in self.sites:
            self.sites[ev] = span
        if self.relevant(ev):
            st.tr = mk('tr', st.tr, ev)

    # ================= execution =======================================
    def run_fn(self, st, key, args, fid, stack):
        """inline a local/extern body; returns [(state, retval)]"""
        b = self.p.bodies[key]
        if key in stack and stack.count(key) >= 2 or len(stack) > 60:
            raise AnalysisError('recursion in ' + key)
        self.inlined.add(key)
        body = b['body']
        fr = Frame(fid, b, body, key, stack + (key,))
        st = State(dict(st.mem), st.f, st.tr)
        n = body['argc']
        if b['kind'] == 'Closure':
            # args = [closure, tuple-args...]; body params: self, a, b, ...
            if body.get('spread') not in (None, 'null'):
                args = [args[0], mk('tup', tuple(args[1:]))]
        for i, a in enumerate(args[:n]):
            st.mem[('L', fid, i + 1)] = a
        base = st
        backs, exits, rets = self.run_region(fr, 0, st, None, None)
        out = []
        for s in rets:
            rv = s.mem.get(('L', fid, 0), UNIT)
            # drop the frame
            if rv.op == 'ref' and rv.a[0][:2] == ('L', fid):
                rv = self.val(s, rv)
            for k in [k for k in s.mem if k[0] == 'L' and k[1] is fid]:
                del s.mem[k]
            out.append((s, rv))
        if self.merge and len(out) > 1:
            out = self.merge_outcomes(out, fid, base)
        return out

    def skel(self, v, d=0):
        if v.op == 'adt':
            return ('adt', v.a[1]) + (tuple(self.skel(x, d + 1) for x in v.a[3]) if d < 4 else ())
        if v.op == INT:
            return v.a[0]
        if v.op == 'tup':
            return ('tup',) + tuple(self.skel(x, d + 1) for x in v.a[0])
        if v.op == 'clo':
            return ('clo', v.a[0])
        return '_'

    def merge_outcomes(self, outs, site, base):
        groups = {}
        for s, rv in outs:
            sp = tuple(sorted(((repr(k), repr(sorted(v) if isinstance(v, frozenset) else v)) for k, v in s.f.d.items() if self.split(k)), key=repr)) if self.split else ()
            key = (self.skel(rv), s.tr, sp)
            groups.setdefault(key, []).append((s, rv))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            res.append(self.join(g, site))
        return res

    def join(self, g, site):
        s0, rv = g[0]
        mem = dict(s0.mem)
        f = dict(s0.f.d)
        for i, (s, r) in enumerate(g[1:]):
            for k in list(mem):
                o = s.mem.get(k)
                if o is None:
                    if k[0] == 'P':
                        o = k[1]
                    else:
                        del mem[k]
                        continue
                if o is not mem[k]:
                    mem[k] = self.joinval(mem[k], o, mk('js', site, str(k)))
            for k in s.mem:
                if k not in mem and k[0] == 'P':
                    mem[k] = self.joinval(k[1], s.mem[k], mk('js', site, str(k)))
            if r is not rv:
                rv = self.joinval(rv, r, mk('js', site, 'ret'))
            for k in list(f):
                o = s.f.d.get(k)
                if o is None:
                    del f[k]
                elif o != f[k]:
                    if k[0] == 'var':
                        f[k] = f[k] | o
                    elif k[0] == 'rel':
                        m = f[k] | o
                        if m == 7:
                            del f[k]
                        else:
                            f[k] = m
                    elif k[0] == 'iv':
                        f[k] = (min(f[k][0], o[0]), max(f[k][1], o[1]))
                    else:
                        del f[k]
        return State(mem, Facts(f), s0.tr), rv

    def joinval(self, a, b, site):
        if a is b:
            return a
        if a.op == 'adt' and b.op == 'adt' and a.a[1] == b.a[1] and a.a[0] == b.a[0]:
            fs = tuple(self.joinval(x, y, mk('jf', site, i)) for i, (x, y) in enumerate(zip(a.a[3], b.a[3])))
            return mk('adt', a.a[0], a.a[1], a.a[2], fs, a.a[4])
        if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
            return mk('tup', tuple(self.joinval(x, y, mk('jf', site, i)) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
        ba, ia = (a.a[0], dict(a.a[1])) if a.op == 'upd' else (a, {})
        bb, ib = (b.a[0], dict(b.a[1])) if b.op == 'upd' else (b, {})
        if ba is bb:
            items = {}
            for k in set(ia) | set(ib):
                x = ia.get(k)
                x = self.project(ba, k) if x is None else x
                y = ib.get(k)
                y = self.project(ba, k) if y is None else y
                j = self.joinval(x, y, mk('jf', site, str(k)))
                if j is not self.project(ba, k):
                    items[k] = j
            if not items:
                return ba
            return mk('upd', ba, tuple(sorted(items.items(), key=lambda kv: repr(kv[0]))))
        xs = set()
        for v in (a, b):
            if v.op == 'phi' and v.a[0] is site:
                xs |= v.a[1]
            else:
                xs.add(v)
        return mk('phi', site, frozenset(xs))

    def run_region(self, fr, start, st, loopset, header):
        """DFS from `start`; returns (backs, exits, rets)"""
        backs, exits, rets = [], [], []
        loops = self.p.loops(fr.body)
        blocks = fr.body['blocks']
        work = [(start, st, True)]
        while work:
            bb, st, first = work.pop()
            if loopset is not None and not first:
                if bb == header:
                    backs.append(st)
                    continue
                if bb not in loopset:
                    exits.append((bb, st))
                    continue
            if bb in loops and not (first and header == bb):
                for nb, ns in self.loop(fr, bb, loops[bb], st):
                    # continue after the inner loop
                    if loopset is not None and nb == header:
                        backs.append(ns)
                    elif loopset is not None and nb not in loopset:
                        exits.append((nb, ns))
                    else:
                        work.append((nb, ns, False))
                continue
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise AnalysisError('step budget exceeded in ' + fr.key)
            blk = blocks[bb]
            if blk is None:
                continue
            st = State(dict(st.mem), st.f, st.tr)
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2])
                    root, path = self.resolve(st, fr, s[1])
                    self.assign(st, root, path, v, s[3] if len(s) > 3 else None)
                else:
                    root, path = self.resolve(st, fr, s[1])
                    self.write(st, root, path, mk('setdiscr', integer(s[2])))
            t = blk['t']
            k = t['t']
            if k in ('goto', 'drop'):
                work.append((t['to'], st, False))
            elif k == 'return':
                rets.append(st)
            elif k == 'switch':
                for nb, ns in self.switch(st, fr, t):
                    work.append((nb, ns, False))
            elif k == 'assert':
                c = self.operand(st, fr, t['cond'])
                exp = t['expected'] in (True, 'true')
                self.obligation(st, fr, t, c, exp)
                # overflow flags are checked as obligations, not as branches
                if c.op == 'app' and c.a[0].startswith('overflow'):
                    work.append((t['to'], st, False))
                else:
                    for ns in self.assume(st, c, exp):
                        work.append((t['to'], ns, False))
            elif k == 'call':
                for ns, rv in self.call(st, fr, bb, t):
                    if rv is None or 'to' not in t:
                        continue
                    ns = State(dict(ns.mem), ns.f, ns.tr)
                    root, path = self.resolve(ns, fr, t['dest'])
                    self.assign(ns, root, path, rv, t.get('span'))
                    work.append((t['to'], ns, False))
            elif k == 'unreachable':
                pass
            else:
                raise AnalysisError('terminator ' + str(t)[:80])
        return backs, exits, rets

    def assign(self, st, root, path, v, span):
        if root[0] != 'L' and self.relevant_write(root, path):
            old = self.read(st, root, path)
            self.write(st, root, path, v)
            ev = mk('ev', 'write', self.locname(root, path), self.snap(st, v), old)
            self.emit(st, ev, span)
            return
        self.write(st, root, path, v)

    def relevant_write(self, root, path):
        return root[0] in ('O', 'P')

    def locname(self, root, path):
        base = mk('sym', root[1]) if root[0] == 'O' else root[1] if root[0] == 'P' else mk('sym', 'local')
        return mk('loc', base, tuple((p[0],) + p[1:] for p in path))

    def obligation(self, st, fr, t, cond, expected):
        if not self.collect_obl or not fr.b['local']:
            return
        r = self.evalb(st, cond)
        ok = (r is not None and r == expected)
        if not ok and cond.op == 'app' and cond.a[0].startswith('overflow'):
            ok = self.no_overflow(st, cond)
        loc = [k for k in fr.stack if self.p.bodies[k]['local']]
        if not expected and not (cond.op == 'app' and cond.a[0].startswith('overflow')):
            cond = mk_not(cond)
        self.oblog.append((loc, t.get('span'), t['msg'], ok, cond, st))

    MAXV = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1}

    def no_overflow(self, st, cond):
        name = cond.a[0][len('overflow'):]
        op, ty = name.split('_', 1)
        a, b = cond.a[1]
        la, ha = st.f.iv(a)
        lb, hb = st.f.iv(b)
        mx = self.MAXV.get(ty)
        if mx is None:
            return False
        if op == 'Add':
            return ha + hb <= mx
        if op == 'Sub':
            if la >= hb:
                return True
            return self.evalb(st, rel(a, b, 6)) is True
        if op == 'Mul':
            return ha * hb <= mx
        return False

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['on'])
        cases, els = t['cases'], t['else']
        out = []
        if v.op == INT:
            for c, bb in cases:
                if int(c) == v.a[0] or (t['ty'].startswith('i') and v.a[0] < 0 and int(c) == v.a[0] + (1 << {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[t['ty']])):
                    return [(bb, st)]
            return [(els, st)]
        if v.op == 'phi' and all(x.op == INT for x in v.a[1]) and t['ty'] != 'bool':
            pass
        if v.op == 'discr':
            x, key = v.a
            if key == 'Ordering' and x.op == 'ordv':
                rest = 7
                m0 = st.f.relmask(*self._ordpair(x))
                for c, bb in cases:
                    mask = {0: 2, 1: 4}.get(int(c), 1)
                    rest &= ~mask
                    for s in self.assume(st, rel(x.a[0], x.a[1], mask), True):
                        out.append((bb, s))
                if rest:
                    for s in self.assume(st, rel(x.a[0], x.a[1], rest), True):
                        out.append((els, s))
                return out
            vs = self.varset(st, x, key)
            a = self.p.adts.get(key)
            if a is None:
                raise AnalysisError('discr of unknown adt ' + str(key))
            byd = {int(q['discr']): q['name'] for q in a['variants']}
            rest = set(vs)
            bytarget = {}
            for c, bb in cases:
                n = byd.get(int(c))
                if n is None:
                    continue
                rest.discard(n)
                if n in vs:
                    bytarget.setdefault(bb, set()).add(n)
            if rest:
                bytarget.setdefault(els, set()).update(rest)
            for bb, names in bytarget.items():
                for s in self.narrow(st, x, frozenset(names), vs):
                    out.append((bb, s))
            return out
        if t['ty'] == 'bool':
            done = {}
            for c, bb in cases:
                truth = int(c) != 0
                done[truth] = bb
            for truth in (False, True):
                bb = done.get(truth, els)
                for s in self.assume(st, v, truth):
                    out.append((bb, s))
            return out
        # integer switch
        cur = [st]
        for c, bb in cases:
            nxt = []
            for s in cur:
                e = rel(v, integer(int(c)), 2)
                for s2 in self.assume(s, e, True):
                    out.append((bb, s2))
                nxt += self.assume(s, e, False)
            cur = nxt
        for s in cur:
            out.append((els, s))
        return out

    def _ordpair(self, x):
        r = rel(x.a[0], x.a[1], 2)
        if r.op == 'rel':
            return r.a[0], r.a[1]
        return x.a[0], x.a[1]

    def narrow(self, st, x, names, vs):
        if names == vs:
            return [st]
        return self.assume_var(st, x, names)

    # ================= loops ============================================
    def loop(self, fr, header, lset, st):
        lid = mk('loopid', fr.id, header)

        def run(hs):
            backs, exits, rets = self.run_region(fr, header, hs, lset, header)
            return backs, exits
        out = self.unroll(fr, header, lset, st) or self.loop_core(lid, st, run, fr)
        if self.merge and len(out) > 1:
            # merge exits that agree
            g = {}
            for nb, s in out:
                g.setdefault((nb, s.tr, self.splitkey(s), self.localskel(fr, s)), []).append((s, UNIT))
            out = []
            for (nb, _, _, _), lst in g.items():
                out.append((nb, lst[0][0] if len(lst) == 1 else self.join(lst, lid)[0]))
        return out

    def unroll(self, fr, header, lset, st):
        """a loop over a short list of known elements, round by round"""
        its = {k[2] for k, v in st.mem.items() if k[0] == 'L' and k[1] is fr.id and len(k) == 3 and v.op == 'it' and self.models.listed(v)}
        if not its:
            return None
        used = any(s[0] == '=' and s[2][0] == 'ref' and s[2][2][0] in its and not s[2][2][1] for b in lset for s in fr.body['blocks'][b]['s'])
        if not used:
            return None
        marks = len(self.oblog), len(self.panics), self.steps
        cur, out = [st], []
        before = fr.round
        for i in range(10):
            nxt = []
            fr.round = mk('round', before or UNIT, header, i)
            try:
                for s in cur:
                    backs, exits, _r = self.run_region(fr, header, s, lset, header)
                    nxt += backs
                    out += exits
            finally:
                fr.round = before
            if self.merge and len(nxt) > 1:
                g = {}
                for s in nxt:
                    g.setdefault((s.tr, self.splitkey(s), self.localskel(fr, s)), []).append((s, UNIT))
                nxt = [v[0][0] if len(v) == 1 else self.join(v, mk('loopid', fr.id, header))[0] for v in g.values()]
            cur = nxt
            if not cur:
                return out
            if len(cur) > 400:
                break
        del self.oblog[marks[0]:]
        del self.panics[marks[1]:]
        return None

    def closure_loop(self, st, it, clo, fid, stack, name, init=None):
        """for_each / try_for_each: the closure run on one generic element;
        fold / try_fold: with what it returned for the element before"""
        lid = mk('loopid', fid, name)
        acc = ('L', mk('fr', fid, 'acc'), 0)
        if init is not None:
            st = State(dict(st.mem), st.f, st.tr)
            st.mem[acc] = self.val(st, init) if init.op != 'ref' else init
        root = ('L', mk('fr', fid, 'feclo'), 0)
        tries = name.startswith('try')
        itv = self.val(st, it)
        if self.models.listed(itv) and not tries and clo.op == 'clo' and clo.a[0] in self.p.bodies:
            out = []
            todo = [(st, itv, clo)]
            while todo:
                s0, cur, c = todo.pop()
                for s, v, rest in self.models.step(s0, cur, fid, stack):
                    if v is None:
                        r = s.mem.pop(acc, UNIT)
                        out.append((s, r))
                        continue
                    s = State(dict(s.mem), s.f, s.tr)
                    byref = self.p.bodies[clo.a[0]]['body']['locals'][1]['ty'].startswith('&')
                    if byref:
                        s.mem[root] = c
                    xs = [v] if init is None else [s.mem[acc], v]
                    for s2, rv in self.run_fn(s, clo.a[0], [mk('ref', root, ()) if byref else c] + xs, mk('fr', fid, 'body%d' % self.models.left(rest)), stack):
                        c2 = s2.mem.pop(root, c)
                        if init is not None:
                            s2 = State(dict(s2.mem), s2.f, s2.tr)
                            s2.mem[acc] = rv
                        todo.append((s2, rest, c2))
            return out

        ty = self.p.bodies[clo.a[0]]['body']['locals'][0]['ty'] if clo.op == 'clo' and clo.a[0] in self.p.bodies else clo.a[0] if clo.op == 'pushok' else ''

        def run(hs):
            itv = self.val(hs, it)
            end = hs.copy()
            end.f.d[('b', mk('itend', itv if itv.op == 'adt' else self.models.desc_it(hs, itv)))] = True
            backs, exits = [], [(('end', None), end)]
            for s, v, i in self.models.pull(hs, it, fid, stack):
                s = State(dict(s.mem), s.f, s.tr)
                c = clo
                if clo.op == 'clo':
                    ty = self.p.bodies[clo.a[0]]['body']['locals'][1]['ty'] if clo.a[0] in self.p.bodies else ''
                    if ty.startswith('&'):
                        s.mem[root] = clo
                        c = mk('ref', root, ())
                xs = [v] if init is None else [s.mem[acc], v]

                def keep(s, r):
                    if init is not None:
                        s = State(dict(s.mem), s.f, s.tr)
                        s.mem[acc] = r
                    return s
                for s2, rv in (self.run_fn(s, clo.a[0], [c] + xs, mk('fr', fid, 'body'), stack) if clo.op == 'clo' and clo.a[0] in self.p.bodies
                               else self.call_value(s, clo, xs, mk('fr', fid, 'body'), stack)):
                    s2.mem.pop(root, None)
                    if not tries:
                        backs.append(keep(s2, rv))
                        continue
                    rv = self.val(s2, rv)
                    akey = rv.a[0] if rv.op == 'adt' else 'core::result::Result'
                    good = {'core::result::Result': 'Ok', 'core::option::Option': 'Some', 'core::ops::ControlFlow': 'Continue'}.get(akey, 'Ok')
                    if rv.op == 'adt':
                        if rv.a[1] == good:
                            backs.append(keep(s2, rv.a[3][0]))
                        else:
                            exits.append((('stop', rv), s2))
                        continue
                    backs += [keep(s3, self.project(self.project(rv, ('v', good)), ('f', 0, '0'))) for s3 in self.assume(s2, mk('isv', rv, akey, good), True)]
                    for s3 in self.assume(s2, mk('isv', rv, akey, good), False):
                        exits.append((('stop', rv), s3))
            return backs, exits
        out = []
        for (k, v), s in self.loop_core(lid, st, run, None):
            r = UNIT
            if init is not None:
                s = State(dict(s.mem), s.f, s.tr)
                r = s.mem.pop(acc)
            if not tries:
                out.append((s, r))
            elif k == 'end':
                out.append((s, self.carry(ty, r)))
            else:
                out.append((s, v))
        return out

    def carry(self, ty, v):
        """v as the way to go on of the type ty"""
        if ty.startswith('core::option::Option'):
            return adt('core::option::Option', 'Some', 1, (v,), ('0',))
        if ty.startswith('core::ops::ControlFlow') or ty.startswith('core::ops::control_flow::ControlFlow'):
            return adt('core::ops::ControlFlow', 'Continue', 0, (v,), ('0',))
        return adt('core::result::Result', 'Ok', 0, (v,), ('0',))

    def mirrored(self, pre, backs, M, root, path):
        x0 = self.read(pre, root, path)
        if not backs or x0.op not in (INT, 'lin', 'app'):
            return None
        for loc in M:
            if loc == (root, path) or M[loc] not in ('', 'try'):
                continue
            try:
                if self.models.lenof(self.val(pre, self.read(pre, *loc))) is x0 and \
                        all(self.models.lenof(self.val(b, self.read(b, *loc))) is self.read(b, root, path) for b in backs):
                    return loc
            except (AnalysisError, AttributeError, IndexError, TypeError):
                continue
        return None

    def loop_core(self, lid, st, run, fr):
        M = {}
        pre = st
        marks = len(self.oblog), len(self.panics)
        for rnd in range(8):
            # only the last round, with the final assumptions about the loop, counts
            del self.oblog[marks[0]:]
            del self.panics[marks[1]:]
            hs = State(dict(pre.mem), pre.f.copy(), TR0)
            for (root, path), kind in M.items():
                if kind == 'drain':
                    v = mk('drain', bag(self.read(pre, root, path)), lid, str((root, path)))
                elif kind and kind[0] == 'len':
                    continue
                else:
                    v = mk('lv', lid, str(path[-1]) if path else (self.lname(fr, root) if fr else str(root[-1])), str((root, path)))
                    if kind and kind[0] == 'mono':
                        lo, hi = pre.f.iv(self.read(pre, root, path))
                        if kind[1] >= 0:
                            hs.f.d[('iv', v)] = (lo, INF)
                        else:
                            hs.f.d[('iv', v)] = (0, hi)
                        i0 = self.read(pre, root, path)
                        if i0.op not in (INT, 'lin'):
                            hs = (self.assume(hs, rel(v, i0, 6 if kind[1] >= 0 else 3), True) or [hs])[0]
                self.write(hs, root, path, v)
            for (root, path), kind in M.items():
                # a variable that mirrors the length of a buffer at every loop head
                if kind and kind[0] == 'len':
                    self.write(hs, root, path, self.models.lenof(self.val(hs, self.read(hs, *kind[1]))))
            backs, exits = run(hs)
            changed = False
            for b in backs:
                for root, v0 in hs.mem.items():
                    if root not in pre.mem and root[0] == 'L':
                        continue
                    v1 = b.mem.get(root)
                    if v1 is None or v1 is v0:
                        continue
                    for path in self.diff(v0, v1, ()):
                        loc = self.covering(M, root, path)
                        if loc is None:
                            # drop finer entries
                            for k in [k for k in M if k[0] == root and k[1][:len(path)] == path]:
                                del M[k]
                            M[(root, path)] = 'drain?'
                            changed = True
                for root, v1 in b.mem.items():
                    if root[0] == 'P' and root not in hs.mem and v1 is not root[1]:
                        for path in self.diff(root[1], v1, ()):
                            if self.covering(M, root, path) is None:
                                M[(root, path)] = 'drain?'
                                changed = True
            if changed:
                for k in M:
                    if M[k] == 'drain?':
                        M[k] = 'try'
                continue
            # classify: pure drains keep their provenance, counters their direction
            redo = False
            for (root, path), kind in list(M.items()):
                if kind in ('try',):
                    v0 = self.read(hs, root, path)
                    ks = set()
                    for b in backs:
                        v1 = self.read(b, root, path)
                        if v1 is v0:
                            continue
                        if strip_drain(v1) is v0 and v1.op == 'popd':
                            ks.add('drain')
                        else:
                            c, d = lin_parts(add(v1, v0, -1)) if v1.op in (INT, 'lin', 'lv') else (None, None)
                            if c is not None and not d and c != 0:
                                ks.add('up' if c > 0 else 'down')
                            else:
                                ks.add('other')
                    if ks == {'drain'}:
                        M[(root, path)] = 'drain'
                        redo = True
                    elif ks == {'up'}:
                        M[(root, path)] = ('mono', 1)
                        redo = True
                    elif ks == {'down'}:
                        M[(root, path)] = ('mono', -1)
                        redo = True
                    else:
                        of = self.mirrored(pre, backs, M, root, path)
                        M[(root, path)] = ('len', of) if of else ''
                        redo = redo or bool(of)
                elif kind and kind[0] == 'len':
                    if any(self.read(b, root, path) is not self.models.lenof(self.val(b, self.read(b, *kind[1]))) for b in backs):
                        M[(root, path)] = ''
                        redo = True
            if not redo:
                break
        else:
            raise AnalysisError('loop did not stabilise in ' + str(lid))
        moved = self.transfer(pre, hs, backs, exits, M, lid)
        if moved is not None:
            return moved
        # iteration summaries
        its = {}
        for b in backs:
            steps = []
            for (root, path) in M:
                v0, v1 = self.read(hs, root, path), self.read(b, root, path)
                if v1 is not v0:
                    steps.append((v0, v1))
            steps = tuple(sorted(steps, key=lambda p: skey(p[0])))
            nf = self.newfacts(hs.f, b.f) if self.merge else b.f.d
            its.setdefault((b.tr, steps) if self.merge else (b.tr, steps, mk('facts', frozenset(nf.items()))), []).append((nf, b))
        items = []
        for (tr, steps, *_), fb in its.items():
            fs = [x[0] for x in fb]
            items.append(mk('iter', tr, mk('steps', tuple(mk('pair', x, y) for x, y in steps)), mk('facts', frozenset((self.joinfacts(fs) if self.merge else fs[0]).items()))))
        inits = tuple(mk('pair', self.read(hs, root, path), self.read(pre, root, path)) for (root, path) in sorted(M, key=repr))
        items.sort(key=lambda t: t.n)
        lev = mk('ev', 'loop', lid, mk('iters', tuple(items)), mk('inits', inits))
        out = []
        for nb, s in exits:
            s2 = State(s.mem, s.f, pre.tr)
            if any(i.a[0] is not TR0 for i in items) or self.relevant(lev):
                s2.tr = mk('tr', s2.tr, lev)
            for e in events(s.tr):
                s2.tr = mk('tr', s2.tr, e)
            out.append((nb, s2))
        self.loopinfo[lid] = lev
        self.loopmeta[lid] = (pre, frozenset(M))
        return out

    def transfer(self, pre, hs, backs, exits, M, lid):
        """a loop that does nothing but move every element of one collection
        into another, until none is left"""
        xs = [k for k in M if M[k] == 'drain']
        if len(M) != 2 or len(xs) != 1 or not backs:
            return None
        x, = xs
        y, = [k for k in M if k != x]
        x0, y0 = self.read(hs, *x), self.read(hs, *y)
        locs = {self.locname(*x), self.locname(*y)}
        for b in backs:
            x1, y1 = self.read(b, *x), self.read(b, *y)
            if x1.op != 'popd' or x1.a[0] is not x0 or y1.op != 'push' or y1.a[0] is not y0:
                return None
            el = y1.a[1]
            if el.op != 'elem' or el.a[1] is not x1.a[1] or el.a[0] is not self.models_bag(x0):
                return None
            if any(ev.a[0] != 'write' or ev.a[1] not in locs for ev in events(b.tr)):
                return None
        out = []
        xp, yp = self.read(pre, *x), self.read(pre, *y)
        for nb, s in exits:
            if s.tr is not TR0 or self.read(s, *x) is not x0 or self.read(s, *y) is not y0:
                return None
            if self.evalb(s, rel(app('len', x0), integer(0), 2)) is not True:
                return None
            s2 = State(dict(s.mem), s.f.copy(), pre.tr)
            self.assign(s2, x[0], x[1], mk('vempty'), None)
            # the order of a random choice says nothing anyway
            v = xp if xp.op == 'chosen' else mk('perm', xp, lid)
            self.assign(s2, y[0], y[1], v if yp.op == 'vempty' else mk('cat', yp, v), None)
            out.append((nb, s2))
        return out

    def lname(self, fr, root):
        if root[0] == 'L' and root[1] is fr.id:
            return fr.body['locals'][root[2]].get('name', '_%d' % root[2])
        return str(root[-1])

    def splitkey(self, s):
        return tuple(sorted((repr(k), repr(sorted(v) if isinstance(v, frozenset) else v)) for k, v in s.f.d.items() if self.split(k)))

    def localskel(self, fr, s):
        return tuple(sorted((k[2], self.skel(v)) for k, v in s.mem.items() if k[0] == 'L' and k[1] is fr.id and self.skel(v) != '_'))

    def newfacts(self, f0, f1):
        return {k: v for k, v in f1.d.items() if f0.d.get(k) != v}

    def joinfacts(self, fs):
        r = dict(fs[0])
        for o in fs[1:]:
            for k in list(r):
                if k not in o:
                    del r[k]
                elif o[k] != r[k]:
                    if k[0] == 'var':
                        r[k] = r[k] | o[k]
                    elif k[0] == 'rel':
                        r[k] = r[k] | o[k]
                    elif k[0] == 'iv':
                        r[k] = (min(r[k][0], o[k][0]), max(r[k][1], o[k][1]))
                    else:
                        del r[k]
        return r

    def covering(self, M, root, path):
        for i in range(len(path) + 1):
            if (root, path[:i]) in M:
                return (root, path[:i])
        return None

    def diff(self, a, b, path):
        if a is b:
            return []
        if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2]:
            out = []
            for i, (x, y) in enumerate(zip(a.a[3], b.a[3])):
                out += self.diff(x, y, path + (('f', i, a.a[4][i]),))
            return out
        if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
            out = []
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                out += self.diff(x, y, path + (('f', i, str(i)),))
            return out
        if a.op == 'clo' and b.op == 'clo' and a.a[0] == b.a[0]:
            out = []
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                out += self.diff(x, y, path + (('f', i, str(i)),))
            return out
        ba, ia = (a.a[0], dict(a.a[1])) if a.op == 'upd' else (a, {})
        bb, ib = (b.a[0], dict(b.a[1])) if b.op == 'upd' else (b, {})
        if ba is bb:
            out = []
            for k in set(ia) | set(ib):
                x = ia[k] if k in ia else self.project(ba, k)
                y = ib[k] if k in ib else self.project(ba, k)
                if k[0] == 'e':
                    # a write to some element: the whole vector is havocked
                    if x is not y:
                        out.append(path)
                    continue
                out += self.diff(x, y, path + (k,))
            return list(dict.fromkeys(out))
        return [path]

    # ================= calls ============================================
    def call(self, st, fr, bb, t):
        f = self.operand(st, fr, t['f'])
        args = [self.operand(st, fr, a) for a in t['args']]
        fid = mk('fr', fr.id, bb) if fr.round is None else mk('fr', fr.id, bb, fr.round)
        return self.call_value(st, f, args, fid, fr.stack, t)

    def call_value(self, st, f, args, fid, stack, t=None):
        """returns [(state, value)]; value None = diverges"""
        f0 = f
        f = self.val(st, f)
        if f.op == 'clo':
            if f.a[0] in self.p.bodies:
                return self.run_fn(st, f.a[0], [f] + list(args), fid, stack)
            return self.opaque_call(st, f, args, fid, t)
        if f.op == 'fn':
            return self.call_fn(st, f, args, fid, stack, t)
        if f.op == 'sum':
            return [(st, add(*[self.val(st, a) for a in args]))]
        if f.op == 'pushing':
            return [(st, mk('push', self.val(st, args[0]), self.snap(st, args[1])))]
        if f.op == 'pushok':
            # collecting into a Result or an Option
            v = self.val(st, args[1])
            key = 'core::option::Option' if f.a[0].startswith('core::option') else 'core::result::Result'
            good = 'Some' if key.endswith('Option') else 'Ok'
            out = []
            for s in self.assume(st, mk('isv', v, key, good), True):
                out.append((s, self.carry(f.a[0], mk('push', self.val(s, args[0]), self.snap(s, self.project(self.project(v, ('v', good)), ('f', 0, '0')))))))
            for s in self.assume(st, mk('isv', v, key, good), False):
                if good == 'Some':
                    out.append((s, adt(key, 'None', 0, (), ())))
                else:
                    out.append((s, adt(key, 'Err', 1, (self.project(self.project(v, ('v', 'Err')), ('f', 0, '0')),), ('0',))))
            return out
        return self.opaque_call(st, f, args, fid, t)

    def call_fn(self, st, f, args, fid, stack, t):
        ref = self.p.fnrefs[f]
        key, path, trait, selfty, name = f.a
        # diverging callee
        if t is not None and 'to' not in t:
            self.panics.append((stack, path, t.get('span'), st, t, args))
            return []
        if ref.get('ctor') in (True, 'true'):
            return [(st, self.ctor(ref, args))]
        b = self.p.bodies.get(key)
        if trait and not ref.get('res') and b and b['local']:
            b = None        # unresolved trait method: only its default body is known
        nice = self.p.nice(b) if b and b['local'] else None
        if nice in self.boundary and not (len(stack) == 1 and stack[0] == key):
            r = self.boundary[nice](self, st, args, fid, t)
            if r is not None:
                return r
        # closures / fn values through Fn* traits
        if trait in ('core::ops::FnOnce', 'core::ops::FnMut', 'core::ops::Fn', 'std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce'):
            tup = self.val(st, args[1])
            targs = list(tup.a[0]) if tup.op == 'tup' else [tup]
            cv = args[0]
            if cv.op == 'ref':
                cv2 = self.val(st, cv)
                if cv2.op == 'clo' and cv2.a[0] in self.p.bodies:
                    # keep by-reference access so FnMut state is written through
                    bb = self.p.bodies[cv2.a[0]]
                    ty = bb['body']['locals'][1]['ty']
                    a0 = cv if ty.startswith('&') else cv2
                    return self.run_fn(st, cv2.a[0], [a0] + targs, fid, stack)
                return self.call_value(st, cv2, targs, fid, stack, t)
            return self.call_value(st, cv, targs, fid, stack, t)
        if b and b['local'] and not self.pure_override(f, b):
            if trait and self.is_eq(f):
                pass
            else:
                if self.inline_filter is None or self.inline_filter(b):
                    return self.run_fn(st, key, args, fid, stack)
        m = self.models.get_model(f, ref)
        if m is not None:
            r = m(st, f, args, fid, stack, t)
            if r is not None:
                return r
        if b and b['local']:
            return self.run_fn(st, key, args, fid, stack)
        if b and self.models.may_inline(f, ref, b):
            return self.run_fn(st, key, args, fid, stack)
        return self.opaque_call(st, f, args, fid, t)

    def is_eq(self, f):
        return f.a[2].endswith('cmp::PartialEq') and f.a[4] in ('eq', 'ne')

    def pure_override(self, f, b):
        """derived comparison / clone impls are modelled, hand-written ones analysed"""
        if f.a[4] == 'clone' and f.a[2].endswith('clone::Clone'):
            return True         # the V rules hold a hand-written one to giving an equal value
        return b.get('derived') and f.a[4] in ('eq', 'ne', 'clone', 'fmt', 'assert_receiver_is_total_eq', 'cmp', 'partial_cmp')

    def ctor(self, ref, args):
        path = ref['path']
        full = ref['key'].replace('::{constructor#0}', '')
        parts = full.split('::')
        # enum variant constructor: <adtkey>::<Variant>
        ak, vn = '::'.join(parts[:-1]), parts[-1]
        if ak in self.p.adts:
            for i, v in enumerate(self.p.adts[ak]['variants']):
                if v['name'] == vn:
                    return adt(ak, vn, i, args, [x['name'] for x in v['fields']])
        if full in self.p.adts:
            v = self.p.adts[full]['variants'][0]
            return adt(full, v['name'], 0, args, [x['name'] for x in v['fields']])
        if ak.startswith('core::result::Result') or ak.startswith('core::option::Option'):
            ad = 'core::result::Result' if 'result' in ak else 'core::option::Option'
            return adt(ad, vn, {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1}[vn], args, ['0'] * len(args))
        return app('ctor ' + full, *args)

    def opaque_call(self, st, f, args, fid, t):
        """unknown code: fresh result, everything reachable through &mut args is unknown"""
        st = State(dict(st.mem), st.f, st.tr)
        nm = f.a[1] if f.op == 'fn' else 'indirect'
        if f.op == 'fn' and f.a[2] and f.a[3]:
            nm = f.a[2].split('::')[-1] + '::' + f.a[4]
        evid = mk('evid', fid)
        snaps = tuple(self.snap(st, a) if a.op != 'clo' else a for a in args)
        res = mk('res', evid)
        ev = mk('ev', 'call', nm, mk('args', snaps), res)
        self.opaque[nm] = self.opaque.get(nm, 0) + 1
        tys = t.get('argtys') if t else None
        for i, a in enumerate(args):
            if a.op == 'ref':
                if tys and i < len(tys) and tys[i].startswith('&') and not tys[i].startswith('&mut'):
                    continue
                self.havoc(st, a, evid)
        self.emit(st, ev, t.get('span') if t else None)
        return [(st, res)]

    def havoc(self, st, ref, evid):
        if ref.op == 'ref':
            old = self.read(st, ref.a[0], ref.a[1])
            if old.op == 'ref':
                return self.havoc(st, old, evid)
            self.write(st, ref.a[0], ref.a[1], mk('after', evid, old))

    # ================= entry points ======================================
    def run(self, name, args=None, setup=None, key=None):
        """analyse an entry; parameters are symbolic objects named after the
        source parameter names"""
        bs = [self.p.bodies[key]] if key else self.p.find(name)
        if len(bs) != 1:
            raise AnalysisError(f'anchor {name}: {len(bs)} definitions')
        b = bs[0]
        body = b['body']
        fid = mk('fr', 'root', b['key'])
        st = State({}, Facts(), TR0)
        a = []
        for i in range(1, body['argc'] + 1):
            nm = body['locals'][i].get('name', f'arg{i}')
            ty = body['locals'][i]['ty']
            v = None
            if args and nm in args:
                v = args[nm]
            elif args and i in args:
                v = args[i]
            if v is None:
                if ty.startswith('&mut'):
                    st.mem[('O', nm)] = sym(nm)
                    v = mk('ref', ('O', nm), ())
                elif ty.startswith('&[') or ty.startswith('&str'):
                    v = sym(nm)
                elif ty.startswith('&'):
                    st.mem[('O', nm)] = sym(nm)
                    v = mk('ref', ('O', nm), ())
                else:
                    v = sym(nm)
            a.append(v)
        sts = [st]
        if setup:
            sts = setup(self, st, a)
        out = []
        for s in sts:
            for s2, rv in self.run_fn(s, b['key'], a, fid, ()):
                out.append(Path(self, 'ret', s2, self.snap(s2, rv)))
        return out

    def eval_closure(self, st, clo, args):
        """outcomes of a pure closure on given (symbolic) arguments"""
        fid = mk('fr', 'evalclo', clo.n)
        s = State(dict(st.mem), st.f, st.tr)
        return self.call_value(s, clo, list(args), fid, ())
