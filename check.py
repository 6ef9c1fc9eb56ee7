#!/usr/bin/env python3
"""python3 check.py <PROPERTY>: decide one property on /repo's current source."""
import importlib
import os
import sys
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import threading

threading.stack_size(512 * 1024 * 1024)


def main():
    from checks import lib
    prop = sys.argv[1]
    root = os.environ.get('SA_ROOT', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' or '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = lib.Ctx(prop, root, tier, seed)
    m = importlib.import_module('checks.%s' % prop.lower())
    try:
        m.run(ctx)
    except lib.MissingAnchor as e:
        print('ERROR property=%s anchor missing: %s' % (prop, e))
        return 2
    except (Exception, RecursionError) as e:
        # code the analysis cannot follow: reported as undetermined, not as an alarm
        traceback.print_exc()
        ctx.unk(next(iter(ctx.rules), 'engine'), 'analysis', '', 'analysis failed: %s %s' % (type(e).__name__, e))
    return ctx.finish()


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except Exception:
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
