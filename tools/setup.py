"""Nothing to build: check that the interpreter, its libraries and the code under test are usable."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simkit import boot  # noqa: E402

for d in ("evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
r = subprocess.run([sys.executable, "-c", "from simkit import boot; boot.boot(); print('ok')"], cwd=HERE,
                   env=boot.worker_env(scratch=None), capture_output=True, text=True)
print(r.stdout, r.stderr[-2000:])
sys.exit(0 if "ok" in r.stdout else 1)
