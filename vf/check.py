#!/usr/bin/env python3
"""python3 vf/check.py PROP [--bless]   decides one property from /repo's current source."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as c
import registry


def main():
    prop = sys.argv[1]
    t0 = time.time()
    p = registry.PROPS[prop]
    obls, stats = p['run']()
    return c.finish(prop, obls, stats, p['note'], t0, level=p.get('level', 'proof'), assumptions=p.get('assumptions', ()),
                    trusted=p.get('trusted', ()), bless='--bless' in sys.argv)


if __name__ == '__main__':
    sys.exit(main())
