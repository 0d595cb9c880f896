"""Entry point: python3 -m lsa.run C07 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from . import checklib
    c = checklib.Check(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(f"lsa.checks.{a.pid.lower()}")
    try:
        mod.run(c)
    except checklib.Gone as e:
        print(f"analysis broken: {e}")
        return 3
    except Exception as e:                       # the analysis itself gave up: not a violation
        traceback.print_exc()
        c.undecided_run(f"{type(e).__name__}: {e}")
    try:
        return c.finish()
    except checklib.Gone as e:
        print(f"analysis broken: {e}")
        return 3


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":        # same order of sets on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "lsa.run"] + sys.argv[1:])
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def go():
        try:
            rc.append(main())
        except BaseException:
            traceback.print_exc()
            rc.append(4)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 4)
