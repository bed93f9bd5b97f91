#!/usr/bin/env python3
"""run.py CXX [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import checks  # noqa: E402
from core import Ctx, CheckError, Enough, log  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true', help='only check that everything builds')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.setup:
        c = Ctx('setup', 'quick', 1)
        try:
            c.vdrive()
            c.vsrv()
        finally:
            c.cleanup()
        return 0
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    fn, level, rule = checks.CHECKS[a.prop]
    c = Ctx(a.prop, tier, seed)
    log('%s tier=%s seed=%d' % (a.prop, tier, seed))
    rc = 2
    try:
        try:
            fn(c)
        except Enough:
            pass
        except CheckError as e:
            # what real code did before the check broke still counts
            log('CHECK ERROR: %s' % e)
            if c.violations:
                c.finish(level, rule)
                rc = c.report() or 2
            return rc
        c.finish(level, rule)
        rc = c.report()
        log('%s %s' % (a.prop, 'held on everything explored' if rc == 0 else 'VIOLATED'))
        return rc
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not a.keep:
            c.cleanup()


if __name__ == '__main__':
    sys.exit(main())
