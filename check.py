#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- decides one property; see DESIGN.md"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import build, core, tlc
import checks


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        return checks.setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = core.Check(prop, tier)
    try:
        checks.CHECKS[prop](ck)
    except build.BuildError as e:
        # the harness uses only the documented interface: code that no longer
        # compiles with it is an error of the build, not a verdict
        print(str(e)[-3000:])
        return 2
    except tlc.TlcViolation as e:
        print(str(e)[-3000:])
        print('the specification itself is violated')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


sys.exit(main())
