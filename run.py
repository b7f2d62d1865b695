#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough]   -- decide one property from /repo's current source."""
import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    from checks import common
    cx = common.Cx(a.prop, a.tier, a.repo)
    try:
        try:
            mod = importlib.import_module('checks.' + a.prop.lower())
            mod.run(cx)
        except common.BuildFailed as e:
            cx.fail('build', 'the tree does not compile', str(e)[-1500:])
        except Exception as e:      # fail closed: the analyser met code it cannot decide
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            cx.fail('undecided:' + type(e).__name__, 'the analysis could not decide the current source',
                    f'{type(e).__name__}: {e}\n' + tb[-3000:])
        return cx.finish()
    finally:
        cx.cleanup()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    import gc
    gc.set_threshold(500000, 50, 1000)
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
