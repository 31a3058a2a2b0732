"""Backstops over the whole crate: sources of nondeterminism, the reply graph,
the defaults of the extension points."""
import re
from core import *
from proto import *
from rules_data import In, E as HD
import contracts

# crates whose functions depend on their arguments only
PURE = ('core', 'alloc', 'bytes', 'rand', 'rand_core', 'serde', 'serde_core', 'bincode', 'postcard', 'tracing', 'tracing_core')
SOURCES = re.compile(r'(^|::)(rng|thread_rng|random|random_iter|from_os_rng|try_from_os_rng|from_entropy|getrandom|fill_bytes_os|current|available_parallelism)$')
SHARED = re.compile(r'sync::atomic::|::cell::|std::sync::|OnceLock|LazyLock|LocalKey|Mutex<|RwLock<|RandomState|std::collections::Hash(Map|Set)|std::time::|Instant|SystemTime|thread::|OsRng|ThreadRng|\*mut |\*const ')
FNRE = re.compile(r'^std::(io|error|f64|f32|net|string|vec)::')


def calls_in(body):
    for blk in body['blocks']:
        if blk and blk['t']['t'] == 'call':
            yield blk['t']


def is_test(b):
    return '::tests::' in b['key']


@rule('X.det', 'C17', 'nothing in the crate reads a clock, an environment, a global, an address, or a generator other than the one it was given', floor=400)
def det(c):
    for cfg in ('default', 'codecs'):
        p = c.prog(cfg)
        keys = {b['key'] for b in p.bodies.values()}
        for b in p.local:
            if is_test(b):
                continue
            nice = p.nice(b)
            bad = sorted({l['ty'] for l in b['body']['locals'] if SHARED.search(l['ty'])})
            c.ob(not bad, nice, 'holds no clock, global, lock, hash table with random order or raw pointer', None)
            if bad:
                c.detail(nice, 'holds no clock, global, lock, hash table with random order or raw pointer', ', '.join(bad)[:300])
            for t in calls_in(b['body']):
                f = t['f']
                if f[0] != 'c' or f[1].get('k') != 'fn':
                    continue
                path = f[1]['path']
                root = re.sub(r'^<+&?(mut )?', '', path).split('::')[0]
                local = f[1]['key'].split('::')[0] == 'foca'
                ok = local or (root in PURE or FNRE.match(path) or f[1].get('trait') is not None and not f[1]['trait'].startswith('std::')) and not SOURCES.search(path)
                if root in ('rand', 'rand_core') and SOURCES.search(path):
                    # rng.random() on the given generator is fine
                    ok = f[1].get('trait') is not None and f[1]['trait'].split('::')[0] in ('rand', 'rand_core') and len(t['args']) > 0
                c.ob(ok, nice, 'calls only functions of their arguments', t.get('span'))
            for blk in b['body']['blocks']:
                for s in (blk or {}).get('s', ()):
                    if s[0] == '=' and s[2][0] == 'cast':
                        c.ob('Expose' not in s[2][1], nice, 'no address is turned into a number', s[-1] if isinstance(s[-1], str) else None)


@rule('X.replies', 'C18', 'the graph "kind received -> kind sent in direct answer" has no cycle, a TurnUndead is only ever answered by a renewed instance, and every path sends a bounded number of datagrams', floor=40)
def replygraph(c):
    kinds = c.engine('leaf', 'default').p.variants(c.adtkey('Message'))
    edges = {}
    for p in c.run(HD, 'data'):
        x = In(c, p)
        if x.hdr is None:
            continue
        sends = [y for y in effects(c, p) if not isinstance(y, (Fan, tuple)) and is_call(y, 'send')]
        loops = [y for y in effects(c, p) if isinstance(y, tuple) and any(is_call(ev, 'send') for s in y[2] for ev in s.ev)]
        fans = [y for y in effects(c, p) if isinstance(y, Fan)]
        c.ob(len(sends) <= 3 and not loops and len(fans) <= 3, HD, 'a datagram causes a bounded number of datagrams', c.site(p, sends[0]) if sends else None)
        for y in sends:
            out = vname(eargs(y)[1])
            c.ob(out is not None, HD, 'the kind of every reply is known', c.site(p, y))
            for k in kinds:
                if c.ev(p, c.isv(x.msg, 'Message', k)) is False:
                    continue
                if out == 'TurnUndead':
                    if k == 'TurnUndead':
                        c.ob(any(is_call(z, 'change_identity') for z in p.ev), HD, 'TurnUndead is answered in kind only under a renewed identity', c.site(p, y))
                    continue
                edges.setdefault(k, {})[out] = c.site(p, y)
    done = set()

    def visit(k, trail):
        for o, site in sorted(edges.get(k, {}).items()):
            c.ob(o not in trail and o != k, HD, 'reply %s to %s closes no cycle' % (o, k), site)
            if o not in trail and o != k and o not in done:
                visit(o, trail | {k})
        done.add(k)
    for k in kinds:
        visit(k, frozenset([k]))


@rule('X.defaults', 'C16 C07', 'NoCustomBroadcast refuses every item; byte strings invalidate each other iff they are equal; handlers want custom data for everybody unless they say otherwise', floor=4)
def defaults(c):
    E = '<NoCustomBroadcast as BroadcastHandler>::receive_item'
    for p in c.run(E, 'leaf'):
        c.ob(vname(p.ret) == 'Err' and not p.ev, E, 'refuses every item')
    bs = [b for b in c.prog().local if c.prog().nice(b).endswith(' as Invalidates>::invalidates') and '[u8]' in c.prog().nice(b)]
    for b in bs:
        E = c.prog().nice(b)
        for p in c.run(E, 'leaf'):
            for (v,), fs in c.tablef(p.f, [c.d_bool(c.eq(c.param(E, 0), c.param(E, 1)))]):
                c.ob(c.always(fs, p.ret) is v, E, 'equal keys invalidate each other')
    bs = [b for b in c.prog().local if c.prog().nice(b).endswith('BroadcastHandler::should_add_broadcast_data')]
    for b in bs:
        for p in c.run(c.prog().nice(b), 'leaf'):
            c.ob(p.ret is TRUE, 'BroadcastHandler::should_add_broadcast_data', 'yes by default')


def seconds(c, p, t):
    """range of a duration term in seconds"""
    from rules_panic import fiv, secs
    if t.op == 'app' and t.a[0] in ('from_secs_f64', 'from_secs_f32'):
        lo, hi = fiv(c, c.engine('leaf', p.cfg if hasattr(p, 'cfg') else 'default'), p, t.a[1][0])
        return (max(lo, 0.0), hi)
    return secs(t)


@rule('X.config', 'C02 C03 C04 C13', 'every configuration constructor leaves room for a probe answer within the probe period, for a refutation before the suspicion times out, and for time to pass between periodic rounds', floor=4)
def configs(c):
    for cfg, names in (('default', ('Config::simple',)), ('codecs', ('Config::new_lan', 'Config::new_wan'))):
        for E in names:
            if not c.has(E, cfg):
                raise Missing(E + ' not found')
            for p in c.run(E, 'leaf', cfg):
                if p.ret is None or p.ret.op != 'adt':
                    continue
                F = dict(zip(p.ret.a[4], p.ret.a[3]))
                period, rtt, sus = (seconds(c, p, F[k]) for k in ('probe_period', 'probe_rtt', 'suspect_to_down_after'))
                c.ob(not rtt[0] >= period[1], E, 'the probe period is longer than the round-trip time waited for within it')
                c.ob(not (sus[1] < period[0] or sus[0] < period[0] and sus[1] != float('inf')), E, 'a suspicion lasts at least a probe period')
                for k in ('periodic_announce', 'periodic_announce_to_down_members', 'periodic_gossip'):
                    v = F[k]
                    if vname(v) == 'Some' and v.a[3][0].op == 'adt':
                        G = dict(zip(v.a[3][0].a[4], v.a[3][0].a[3]))
                        if 'frequency' in G:
                            c.ob(not seconds(c, p, G['frequency'])[1] <= 0, E, 'time passes between rounds of ' + k)
