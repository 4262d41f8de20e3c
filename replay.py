#!/usr/bin/env python3
"""
replay.py <replay-file>: re-executes a minimised scenario in a fresh
interpreter (same hash seed) and compares violation class and event log.
Exit 1 + VIOLATION line when it reproduces, 0 when it does not.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import driver  # noqa: E402

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        rp = json.load(f)
    r = driver.run_one(rp['property'], rp['scenario'], timeout=200, log=True)
    if r.get('error'):
        print(r['error'])
        sys.exit(3)
    if '-v' in sys.argv:
        for lg in r.get('log') or []:
            print('\n'.join(lg))
    for v in r['violations']:
        print(v['kind'], '-', v['msg'])
    same = [v for v in r['violations'] if v['kind'] == rp['kind']]
    if same:
        print('event log identical to the recorded run: %s' % (
            r.get('digest') == rp.get('digest')))
        print('VIOLATION property=%s replay=%s' % (
            rp['property'], os.path.abspath(sys.argv[1])))
        sys.exit(1)
    print('did not reproduce')
    sys.exit(0)
