"""Command line of the analyses: python -m sa.run C01."""

import importlib
import os
import sys
import threading
import traceback

from . import harness


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ctx = harness.Context(prop, tier if tier in ('quick', 'thorough') else 'quick', seed)
    try:
        mod = importlib.import_module('sa.checks.' + prop.lower())
        mod.run(ctx)
        return harness.finish(ctx)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error of the analysis' % prop)
        return 2


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    code = []
    t = threading.Thread(target=lambda: code.append(main(sys.argv)))
    t.start()
    threading.stack_size(0)
    t.join()
    sys.stdout.flush()
    os._exit(code[0] if code else 2)
