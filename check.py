#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]   (see DESIGN.md)"""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import harness  # noqa: E402

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='parse every specification')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.selftest:
        sys.exit(harness.selftest())
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        rc = harness.run_check(a.prop, a.tier, seed, a.replay)
    except Exception:
        traceback.print_exc()
        print('ERROR: the check itself failed')
        rc = 2
    sys.exit(rc)
