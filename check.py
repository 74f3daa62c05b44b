#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    from sa.check import Checker
    from sa.terms import Unk
    m = importlib.import_module('props.' + pid)
    C = Checker(pid)
    C.tier = tier
    try:
        m.check(C, tier)
    except (Unk, KeyError, AttributeError) as e:
        import traceback
        traceback.print_exc()
        if not any(r['status'] == 'violated' for r in C.results):
            print('%s: the analysed constructs were not found or not analysable: %s' % (pid, e))
    return C.finish(tier, m.TECHNIQUE, m.ASSUME, m.RULE)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
