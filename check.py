#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property from the source of the repository (VERIF_REPO, default
/repo).  Exit 0: holds; 1: violated (VIOLATION line); 2: the analysis itself
could not be carried out (vanished anchor, unreadable source).
"""
import argparse
import importlib
import os
import sys
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--write-contract', action='store_true',
                    help='developer only: (re)generate the committed contract')
    a = ap.parse_args()
    from sa import report
    from sa.project import AnalysisError
    try:
        mod = importlib.import_module('sa.checks.' + a.property.lower())
        rep = report.Report(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1')))
        if a.write_contract:
            mod.write_contract(rep)
            return 0
        mod.check(rep)
        return rep.finish()
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={a.property} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={a.property} internal error")
        return 2


if __name__ == '__main__':
    sys.exit(main())
