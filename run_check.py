#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import base
from vf.registry import PARTS


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = a.parse_args()
    level, parts = PARTS[a.prop]
    c = base.Ctx(a.prop, a.tier, a.seed)
    try:
        for modname, fn in parts:
            getattr(importlib.import_module('vf.' + modname), fn)(c)
            if c.violations:
                break
        c.evidence(level)
    except base.NoAnswer as e:
        c.evidence(level)
        if not c.violations:
            print('%s: no answer: %s' % (a.prop, e))
            return 2
    finally:
        c.close()
    for k in c.known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    if c.violations:
        return 1
    print('%s: held on everything explored (%s tier, seed %d): %d traces, %d states' %
          (a.prop, a.tier, a.seed, c.cov['traces_validated_against_impl'], c.cov['states']))
    return 0


sys.exit(main())
