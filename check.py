#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from engine import runner
    import registry
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = registry.PROPS[prop]
    only = [a[7:] for a in sys.argv[2:] if a.startswith('--only=')]
    if only:
        spec = dict(spec, jobs=[j for j in spec['jobs']
                                if any(o in j['entry'] for o in only)])
    return runner.check(prop, spec, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
