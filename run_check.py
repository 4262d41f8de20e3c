#!/usr/bin/env python3
"""run_check.py <PROPERTY> [quick|thorough]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import driver  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    nruns = int(os.environ.get('VSIM_RUNS', 0)) or None
    wall = float(os.environ.get('VSIM_WALL', 0)) or None
    sys.exit(driver.main(prop, tier, seed, nruns, wall,
                         do_min=not os.environ.get('VSIM_NOMIN')))
