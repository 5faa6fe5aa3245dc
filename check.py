#!/usr/bin/env python3
"""python3 check.py [--thorough] <property id>: decides one property for /repo's current source."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import framework


def main():
    rc = 0
    if '--thorough' in sys.argv:
        sys.argv.remove('--thorough')
        os.environ['VERIF_TIER'] = 'thorough'
    for pid in sys.argv[1:]:
        mod = importlib.import_module('checks.' + pid.lower())
        rc |= framework.main(pid, mod.check, mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))
    return rc


if __name__ == '__main__':
    sys.exit(main())
