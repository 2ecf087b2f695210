#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: one property's check.
exit 0: holds; exit 1 + VIOLATION line: broken; exit 2: could not be decided."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE) + "/lib"]
sys.setrecursionlimit(20000)
import threading
threading.stack_size(256 << 20)
from common import ToolError
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(registry.MODULES[pid])
    try:
        return mod.check(pid, tier)
    except ToolError as e:
        print("%s: NO VERDICT: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print("%s: NO VERDICT: internal error" % pid, file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc[0] if rc else 2)
