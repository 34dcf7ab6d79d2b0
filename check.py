#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property from /repo's current source."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a = ap.parse_args()
    from sa import report, frontend
    mod = importlib.import_module('sa.checks.' + a.prop.lower())
    try:
        rep = report.Report(a.prop, a.tier)
        with frontend.Workdir() as w:
            mod.run(rep, w)
        return rep.finish(mod.META)
    except Exception as e:
        traceback.print_exc()
        print('ERROR: %s: analysis could not be carried out: %s: %s' % (a.prop, type(e).__name__, e))
        return 3


if __name__ == '__main__':
    sys.exit(main())
