#!/usr/bin/env python3
"""Regenerate analysis/private_fns.json (the private functions the rules know by
name) from a dump: tools/mkprivate.py DUMP.json"""
import json
import os
import sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis')
sys.path.insert(0, here)
import engine
out = os.path.join(here, 'private_fns.json')
if not os.path.exists(out):
    open(out, 'w').write('[]')
rows = sorted(engine.fn_table(engine.load(sys.argv[1])), key=lambda r: (r['home'], r['name']))
with open(out, 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps({k: v for k, v in r.items() if k != 'key'}, sort_keys=True) for r in rows) + '\n]\n')
