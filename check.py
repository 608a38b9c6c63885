#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current tree (see DESIGN.md)"""
import sys, os, importlib, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import report, build, tierp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    tier = 'quick' if a.tier == 'quick' else 'thorough'
    rep = report.Report(a.property, tier, a.seed)
    mod = importlib.import_module('checks.' + a.property.lower())
    try:
        proofs = tierp.start(rep)
        mod.run(rep)
        tierp.finish(rep, proofs)
    except build.BuildError as e:
        print('%s: the tree does not build, nothing decided\n%s' % (a.property, str(e)[-2000:]))
        return 2
    except Exception:
        # the machinery itself failed: no verdict, unless something was found before
        traceback.print_exc()
        print('%s: the check failed' % a.property)
        return (rep.finish() or 2) if rep.violations else 2
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
