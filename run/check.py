#!/usr/bin/env python3
"""check.py ID: decide one property (see DESIGN.md).  Exit 0 held, 1 violated, 2 the check failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, props


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = engine.Ctx(pid, 'thorough' if tier == 'thorough' else 'quick', seed)
    try:
        props.CHECKS[pid](ctx)
        rc = ctx.finish(props.known(pid))
    except engine.Broken as x:
        print('ERROR: %s' % x, flush=True)
        rc = 2
        if ctx.rejections:      # the verdict does not depend on what else went wrong
            rc = ctx.finish(props.known(pid))
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
