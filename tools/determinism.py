"""Same seeds twice, with different worker counts (so different placement and order): digests must agree."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
from simkit import driver

bad = 0
for pid in sys.argv[2:] or ["C%02d" % k for k in range(1, 16)]:
    n = int(sys.argv[1])
    prop = driver.load(pid)
    prop.BUDGET = {"quick": (n, 3000)}
    a, ea = driver.run_check(pid, "quick", 7, workers=8, digest_only=True)
    b, eb = driver.run_check(pid, "quick", 7, workers=3, digest_only=True)
    diff = [i for i in sorted(set(a) | set(b)) if a.get(i) != b.get(i)]
    print(pid, len(a), len(b), "errors", len(ea), len(eb), "different", diff[:10], flush=True)
    bad += bool(diff or ea or eb)
sys.exit(bad)
