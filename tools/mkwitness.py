#!/usr/bin/env python3
"""mkwitness.py PROP KIND OUT [first [last]]: find and minimise a witness."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import driver  # noqa: E402

prop, kind, out = sys.argv[1:4]
a = int(sys.argv[4]) if len(sys.argv) > 4 else 0
b = int(sys.argv[5]) if len(sys.argv) > 5 else a + 3000
mod = importlib.import_module('checks.%s' % prop.lower())
ws = {}
for s in range(a, b):
    sc = mod.gen(s, 'quick')
    sc.setdefault('seed', s)
    w = ws.setdefault(s % 8, driver.Worker(s % 8))
    r = driver.run_one(prop, sc, w=w)
    if kind in [v['kind'] for v in r.get('violations', [])]:
        best = driver.minimise(prop, mod, sc, kind, [], 90, print)
        with open(os.path.join(HERE, out), 'w') as f:
            json.dump(best, f, indent=1)
            f.write('\n')
        print(json.dumps(best), driver.run_one(prop, best)['violations'])
        break
for w in ws.values():
    w.close()
