#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import engine as E, simrun

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import plans
    mod, fn, level = plans.PLANS[prop]
    ck = E.Check(prop, tier, seed, level)
    try:
        getattr(__import__(mod), fn)(ck)
        rc = ck.finish()
    except E.Failure as e:
        print('check failed: %s' % e); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    finally:
        simrun.cleanup()
    sys.stdout.flush()
    os._exit(rc)

main()
