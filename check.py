#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N] | check.py --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and sys.prefix != "/opt/venv" and not os.environ.get("SIMKIT_REEXEC"):
    os.environ["SIMKIT_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from simkit import driver  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--runs", type=int)
    a.add_argument("--run", type=int)
    a.add_argument("--workers", type=int)
    a.add_argument("--replay")
    o = a.parse_args()
    if o.replay:
        return driver.replay(o.property, o.replay)
    return driver.run_check(o.property, o.tier, o.seed, only_run=o.run, n_override=o.runs, workers=o.workers)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
