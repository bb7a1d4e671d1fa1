#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py replay <file>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
sys.dont_write_bytecode = True
import engine, build, vsim
from props import PROPS

def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'replay': return engine.replay(a[1], PROPS)
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        return engine.run_property(PROPS[a[0]], tier, int(os.environ.get('VERIF_SEED', '1')))
    except (build.BuildError, vsim.Harness) as e:
        print('NO-ANSWER: %s' % e, file=sys.stderr)
        return 3

sys.exit(main())
