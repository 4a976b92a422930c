#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--digests N]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

boot.reexec()
boot.setup()


def main():
    import argparse
    import traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    a = ap.parse_args()
    try:
        boot.import_spey()
        from sim import run
        if a.selftest:
            d = [run.digests("C01", 1, 40) for _ in range(2)]
            print("simulator ready, deterministic:", d[0] == d[1])
            code = 0
        elif a.replay:
            code = run.replay(a.prop, a.replay)
        elif a.digests:
            import hashlib
            import json
            d = run.digests(a.prop, a.seed, a.digests)
            print(json.dumps(d) if os.environ.get("VERIF_FULL") else
                  hashlib.sha256(json.dumps(d).encode()).hexdigest())
            code = 0
        else:
            code = run.check(a.prop, a.tier, a.seed)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        print("HARNESS-ERROR: the check could not decide")
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


main()
