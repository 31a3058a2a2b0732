"""check <property> [quick|thorough]: runs every rule that the property needs."""
import glob
import importlib
import json
import os
import re
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def known(pid):
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def okey(o):
    return re.sub(r'\s+', '_', '%s|%s|%s' % (o['rule'], o['anchor'], o['what']))


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    import core
    for f in sorted(glob.glob(os.path.join(HERE, 'rules_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    rules = [r for r in core.RULES.values() if pid in r.props]
    c = core.Ctx()
    c.tier = tier
    obs = []
    times = {}
    for r in rules:
        t = time.time()
        obs += c.runrule(r)
        times[r.id] = round(time.time() - t, 2)
    passes = ['default']
    if tier == 'thorough':
        # the same rules on the builds with debug assertions and with every feature
        for alt in ('debug', 'codecs'):
            c2 = core.Ctx()
            c2.tier = tier
            c2.progs = c.progs
            c2.alias = {'default': alt}
            for r in rules:
                obs += [dict(o, anchor=o['anchor'], detail='%s build: %s' % (alt, o['detail'] or '')) for o in c2.runrule(r)]
            c.npaths += c2.npaths
            passes.append(alt)
    kn = known(pid)
    bad = [o for o in obs if o['bad']]
    if not rules:
        bad = [{'rule': '-', 'anchor': '-', 'what': 'no rule decides this property', 'n': 1, 'bad': 1, 'site': None, 'detail': None}]
    listed = [o for o in bad if okey(o) in kn]
    new = [o for o in bad if okey(o) not in kn]
    for k in sorted({okey(o) for o in listed}):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    insts = sum(o['n'] for o in obs)
    fns = sorted({e for e, _ in c.entries})
    cfgs = {k: len(p.local) for k, p in c.progs.items()}
    samples = [{'rule': o['rule'], 'construct': o['anchor'], 'requirement': o['what'], 'instances': o['n'],
                'verdict': 'violated' if o['bad'] else 'holds'} for o in obs]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Path-sensitive symbolic dataflow over the type-checked MIR of the current tree. Every entry listed is '
                           'enumerated path by path (loops through one summarised iteration per path of the body, callees inlined or '
                           'replaced by a contract that another rule checks); each rule is then decided on every path, iteration and call site. '
                           'obligations = distinct (rule, construct, requirement); instances = times an obligation was evaluated on a path or site.',
            'rules': [{'id': r.id, 'rule': r.text, 'seconds': times[r.id]} for r in rules],
            'functions_in_program': cfgs,
            'builds': passes,
            'entries_analysed': fns,
            'paths': c.npaths,
            'obligations': len(obs),
            'instances': insts,
            'discharged': sum(1 for o in obs if not o['bad']),
            'known_findings': len({okey(o) for o in listed}),
            'samples': samples[:400],
        },
        'assumptions': ['user supplied Codec, Runtime, BroadcastHandler, Identity, RNG are correct (their calls are uninterpreted)',
                        'rustc MIR construction, the MIR dumping driver and the models of core/alloc functions in analysis/models.py are faithful'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d rules, %d obligations, %d instances, %d paths, %.1fs' % (pid, tier, len(rules), len(obs), insts, c.npaths, time.time() - t0))
    if new:
        rep = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, pid + '.txt')
        with open(rp, 'w') as f:
            for o in new:
                r = core.RULES.get(o['rule'])
                f.write('rule        %s: %s\n' % (o['rule'], r.text if r else ''))
                f.write('construct   %s\n' % o['anchor'])
                f.write('requirement %s\n' % o['what'])
                f.write('site        %s\n' % (o['site'] or '-'))
                f.write('instances   %d of %d violate it\n' % (o['bad'], o['n']))
                if o['detail']:
                    f.write('detail      %s\n' % o['detail'])
                f.write('key         %s\n\n' % okey(o))
        for o in new[:20]:
            print('  %s: %s: %s  [%s] %s' % (o['rule'], o['anchor'], o['what'], o['site'] or '-', (o['detail'] or '')[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def guarded():
    global rc
    try:
        rc = main()
    except BaseException as x:      # fail closed
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump({'property': pid, 'tier': 'quick', 'seed': 1, 'level': 'other', 'coverage': {'explanation': 'analysis failed: %r' % (x,)},
                   'wall_s': 0.0, 'violations': 1}, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(ROOT, 'evidence', pid + '.json')))
        rc = 1


rc = 1
t = threading.Thread(target=guarded)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc)
