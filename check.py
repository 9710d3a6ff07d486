#!/usr/bin/env python3
"""check.py <property>: decides one property on the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import common


def main():
    prop = sys.argv[1]
    ctx = common.Ctx(prop)
    try:
        import props
        level = props.CHECKS[prop](ctx)
        rc = common.finish(ctx, level)
    except common.CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
