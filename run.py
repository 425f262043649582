#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- run one check; exit 0 held, 1 violated (VIOLATION line), 2 harness error"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from vlib import core
    core.prepare_environment()
    mod = importlib.import_module('checks.' + prop)
    ctx = core.Ctx(prop, mod.LEVEL, tier)
    try:
        mod.run(ctx)
    except RuntimeError as err:
        if str(err).startswith('harness error'):
            traceback.print_exc()
            return 2
        ctx.violation('unexpected %s: %s' % (type(err).__name__, err), traceback.format_exc()[-3000:])
    except (MemoryError, KeyboardInterrupt):
        traceback.print_exc()
        return 2
    except BaseException as err:
        # same rule as for worker processes (core._guarded)
        ctx.violation('unexpected %s: %s' % (type(err).__name__, err), traceback.format_exc()[-3000:])
    return core.finish(ctx)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
