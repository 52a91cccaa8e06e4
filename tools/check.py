#!/usr/bin/env python3
"""Decide one property: python3 tools/check.py P01 (VERIF_TIER, VERIF_SEED)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import Report, ToolError, generate_and_replay, record_and_validate, run_all, SEED, TIER
import plan


def main():
    prop = sys.argv[1]
    rep = Report(prop)
    try:
        plan.run(prop, rep)
    except ToolError as x:
        rep.finish('model_checking', plan.ASSUMPTIONS)
        if rep.violations:
            sys.exit(1)
        print('TOOL ERROR:', x, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(1 if rep.violations else 2)
    rep.finish('model_checking', plan.ASSUMPTIONS)
    lib.log('%s: %d violation(s), %d states, %d traces' % (prop, len(rep.violations), rep.states, rep.traces))
    sys.exit(1 if rep.violations else 0)


main()
