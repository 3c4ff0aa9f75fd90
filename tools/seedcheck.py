"""
Validate planted bugs in a scratch copy: the patch applies, the tests pass, the demo tells the trees apart;
then run the property's check on the patched copy.   seedcheck.py [--no-tests] [--seed N] ID...
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")


def run(cmd, cwd, t=900, **env):
    e = dict(ENV, **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout, stderr = 124, "", "timeout"
        return R


def main():
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    seed = args[args.index("--seed") + 1] if "--seed" in args else "1"
    workers = args[args.index("--workers") + 1] if "--workers" in args else "8"
    ids = [a for k, a in enumerate(args) if not a.startswith("--") and (k == 0 or args[k - 1] not in ("--seed", "--workers"))]
    for i in ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        top = tempfile.mkdtemp(prefix="plant-")
        try:
            c = os.path.join(top, "repo")
            demo = os.path.join(top, "demo")
            subprocess.run(["cp", "-a", "/repo", c], check=True)
            os.makedirs(demo)
            for f in os.listdir(d):
                if f not in ("patch.diff", "meta.json"):
                    shutil.copy(os.path.join(d, f), demo)
            line = [i, meta["property"]]
            a = run(["bash", os.path.join(demo, "demo.sh")], c, 300)
            line.append("demo-clean=%d" % a.returncode)
            g = run(["git", "apply", os.path.join(d, "patch.diff")], c)
            if g.returncode:
                print(*line, "PATCH DOES NOT APPLY", g.stderr)
                continue
            b = run(["bash", os.path.join(demo, "demo.sh")], c, 300)
            line.append("demo-patched=%d" % b.returncode)
            if tests:
                t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "xdist.plugin", "-n", "4", "test"], c, 900, PYTHONPATH=c,
                        PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
                line.append("tests=" + ("ok" if t.returncode == 0 else "FAIL"))
            t0 = time.time()
            k = run([PY, "check.py", meta["property"], "--tier", "quick", "--workers", workers], HERE, 900, VERIF_REPO=c, VERIF_SEED=seed)
            first = [l for l in k.stdout.splitlines() if l.startswith("run ") or "HARNESS" in l][:1]
            line.append("check=%d (%ds)" % (k.returncode, time.time() - t0))
            print(*line, (first or [""])[0][:230], flush=True)
            if a.returncode:
                print("   clean demo output:", (a.stdout + a.stderr)[-600:])
            if not b.returncode:
                print("   patched demo output:", (b.stdout + b.stderr)[-300:])
        finally:
            shutil.rmtree(top, ignore_errors=True)


main()
