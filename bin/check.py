#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import driver, specs

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return driver.replay(a[1], specs.HARNESS, specs.pregen)
    if a and a[0] == '--list':
        print('\n'.join(sorted(specs.PROPS))); return 0
    if a and a[0] == '--build-all':
        b = driver.Builder(specs.HARNESS, specs.pregen)
        b.build({(g['h'], v) for p in specs.PROPS.values() for g in p['groups'] for v in g['variants']})
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for x in a[1:]:
        if x in ('quick', 'thorough'): tier = x
        elif x.startswith('--only='): only = x[7:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return driver.run_check(pid, specs.PROPS[pid], specs.HARNESS, specs.pregen, tier, seed, only)
    except driver.HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        return 3

sys.exit(main())
