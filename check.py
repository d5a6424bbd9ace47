#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property for /repo's current tree.
check.py --replay FILE: run a reported violation again and show what the specification says."""
import importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

def main():
    if sys.argv[1:2] == ['--replay']:
        core.build(); d = json.load(open(sys.argv[2]))
        print(json.dumps(d, indent=1, ensure_ascii=False))
        if d.get('request'): print('now:', json.dumps(core.talk([d['request']])[0], ensure_ascii=False))
        return 0
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    import checks
    r = checks.Run(prop, thorough)
    checks.TABLE[prop](r)
    return r.finish()

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('ERROR: the check could not be carried out'); sys.exit(2)
