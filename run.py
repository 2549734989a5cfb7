#!/usr/bin/env python3
"""python3 /verif/run.py C01 [C02 ...]: decide properties from the source in /repo."""

import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa.program import AnalysisError  # noqa: E402
from sa.check import Context  # noqa: E402


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    worst = 0
    for pid in argv:
        ctx = Context(pid, tier, seed)
        try:
            mod = importlib.import_module("sa.checks." + pid)
            mod.run(ctx)
            rc = ctx.finish()
        except AnalysisError as error:
            # what has been decided so far still counts
            if ctx.violations and set(ctx.violations) - set(ctx.findings()):
                rc = ctx.finish()
            else:
                print("NO ANSWER property=%s: %s" % (pid, error))
                rc = 2
        except Exception:
            traceback.print_exc()
            print("NO ANSWER property=%s: internal error" % pid)
            rc = 2
        worst = max(worst, rc) if rc != 1 else (1 if worst in (0, 1) else worst)
    return worst


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
