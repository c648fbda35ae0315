import argparse
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.utf8_mode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONUTF8"] = "1"
    os.execv(
        sys.executable,
        [sys.executable, "-B", "-X", "utf8", "-m", "wv.run"] + sys.argv[1:],
    )

from . import env, harness  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=env.TIER)
    ap.add_argument("--seed", type=int, default=env.SEED)
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("wv.checks." + a.property.lower())
    check = mod.CHECK
    if a.replay:
        sys.exit(harness.replay(check, a.replay))
    sys.exit(harness.run_check(check, a.tier, a.seed))


main()
