"""Search: seeds -> cases -> runs on a pool of fork servers; shrinking; replay files; evidence."""
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import boot
from .rng import derive

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.monotonic


class Worker:
    def __init__(self, pid, scratch, flavour):
        self.pid = pid
        self.scratch = scratch
        self.flavour = flavour
        extra = {}
        env = boot.worker_env(jit=(flavour != "interp"), scratch=scratch, extra=extra)
        self.p = subprocess.Popen([sys.executable, "-m", "simkit.worker", pid], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL, text=True,
                                  start_new_session=True)
        self.ready = False

    def wait_ready(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker did not start (is the code under test importable?)")
        self.ready = True

    def run(self, jid, case):
        if not self.ready:
            self.wait_ready()
        self.p.stdin.write(json.dumps({"id": jid, "case": case}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"error": "worker died", "id": jid}
        return json.loads(line)

    def stop(self):
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass
        self.p.wait()


class Pool:
    def __init__(self, pid, n, jit=0, scratch=None):
        self.workers = [Worker(pid, scratch, "interp") for _ in range(n)] + [Worker(pid, scratch, "jit") for _ in range(jit)]

    def map(self, jobs, on_result, stop, deadline):
        """jobs: {"interp": iterator of (id, case), "jit": iterator}"""
        lock = threading.Lock()
        lost = set()

        def loop(w):
            it = jobs[w.flavour]
            while not stop.is_set() and _now() < deadline:
                with lock:
                    try:
                        nxt = next(it, None)
                    except Exception as e:
                        on_result(-1, None, {"error": "case generator: " + repr(e)})
                        stop.set()
                        return
                if nxt is None:
                    return
                try:
                    ans = w.run(*nxt)
                except Exception as e:
                    ans = {"error": repr(e), "id": nxt[0]}
                if w in lost:
                    return
                with lock:
                    on_result(nxt[0], nxt[1], ans)

        ts = [threading.Thread(target=loop, args=(w,)) for w in self.workers]
        for t in ts:
            t.start()
        grace = None
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(0.2)
            if stop.is_set():
                grace = grace or _now() + 15
                if _now() > grace:
                    # decided already; runs that are still going (hanging, perhaps) do not matter
                    for k, t in enumerate(ts):
                        if t.is_alive():
                            w = self.workers[k]
                            self.workers[k] = Worker(w.pid, w.scratch, w.flavour)
                            lost.add(w)
                            w.stop()
                    for t in ts:
                        t.join()
                    break

    def stop(self):
        for w in self.workers:
            w.stop()


def flavour_of(case):
    return "jit" if case.get("jit") else "interp"


def load(pid):
    return importlib.import_module("simkit.props." + pid.lower())


def make_case(prop, pid, seed, i, tier):
    case = prop.gen(derive(pid, seed, i), i, tier)
    case["run"] = i
    return case


def shrink(prop, pool, case, sig, deadline, log):
    """Greedy parallel minimisation: keep the first smaller case that fails the same way."""
    current = case
    tried = 0
    progress = True
    while progress and _now() < deadline:
        progress = False
        cands = []
        seen = set()
        for c in prop.shrink(current):
            k = json.dumps(c, sort_keys=True)
            if k not in seen and k != json.dumps(current, sort_keys=True):
                seen.add(k)
                cands.append(c)
        i = 0
        width = 1 if current.get("jit") else 7
        while i < len(cands) and _now() < deadline:
            batch = cands[i:i + width]
            i += width
            got = {}
            stop = threading.Event()

            def done(jid, c, ans):
                got[jid] = (c, ans)

            fl = flavour_of(current)
            jobs = {"interp": iter(()), "jit": iter(())}
            jobs[fl] = iter([(n, c) for n, c in enumerate(batch)])
            pool.map(jobs, done, stop, deadline + 60)
            tried += len(batch)
            hit = None
            for n in sorted(got):
                c, ans = got[n]
                if any(v["sig"] == sig for v in ans.get("v", [])):
                    hit = ans.get("case") or c
                    break
            if hit is not None:
                current = hit
                progress = True
                break
    log.append("shrink: %d candidates tried" % tried)
    return current


def run_check(pid, tier, seed, only_run=None, n_override=None, workers=None, digest_only=False):
    t0 = _now()
    prop = load(pid)
    n, cap = prop.BUDGET[tier]
    if os.environ.get("SIMKIT_SECONDS"):
        # longer hunts: more runs of the same tier's cases
        n, cap = 10 ** 7, int(os.environ["SIMKIT_SECONDS"])
    if n_override:
        n = n_override
    scratch = tempfile.mkdtemp(prefix="simkit-")
    nw = workers or 8
    njit = 1 if getattr(prop, "JIT_SHARE", 0) else 0
    pool = Pool(pid, max(1, nw - njit), njit, scratch)
    results = {}
    errors = []
    bad = []
    stop = threading.Event()
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "open"]
    try:
        share = getattr(prop, "JIT_SHARE", 0)

        def gen_iter(fl):
            for i in ([only_run] if only_run is not None else range(n)):
                isjit = bool(share) and i % share == share - 1
                if isjit != (fl == "jit"):
                    continue
                case = make_case(prop, pid, seed, i, tier)
                if isjit:
                    case["jit"] = 1
                elif case.pop("jit", 0):
                    pass
                yield i, case

        def on_result(i, case, ans):
            if "error" in ans:
                errors.append((i, ans["error"]))
                if len(errors) >= 3:
                    stop.set()
                return
            results[i] = ans
            if ans["v"]:
                bad.append((i, case, ans))
                stop.set()

        pool.map({"interp": gen_iter("interp"), "jit": gen_iter("jit")}, on_result, stop, t0 + cap)
        if digest_only:
            return {i: (r["digest"], r["key"], [v["sig"] for v in r["v"]]) for i, r in results.items()}, errors
        extra_lines = []
        extra = None
        if not bad and hasattr(prop, "fixed_cases"):
            # recorded inputs (known findings and their like), judged every time
            extra = prop.fixed_cases(pool, seed, tier)
            extra_lines = extra.get("lines", [])
            for b in extra.get("bad", []):
                bad.append(b)
        rc = 0
        if bad:
            bad.sort(key=lambda b: b[0] if isinstance(b[0], int) else 10**9)
            i, case, ans = bad[0]
            v = ans["v"][0]
            log = []
            small = ans.get("case") or case
            if v["sig"] not in ("hang",) and hasattr(prop, "shrink"):
                small = shrink(prop, pool, small, v["sig"], _now() + getattr(prop, "SHRINK_S", 60), log)
            path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (pid, seed, i))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "run": i, "tier": tier, "sig": v["sig"], "message": v["msg"],
                           "case": small}, f, indent=1, sort_keys=True)
            pool.stop()
            again = replay_once(pid, small, scratch)
            ok = any(x["sig"] == v["sig"] for x in again.get("v", []))
            if not ok:
                # fall back to the unshrunk case
                with open(path, "w") as f:
                    json.dump({"property": pid, "seed": seed, "run": i, "tier": tier, "sig": v["sig"],
                               "message": v["msg"], "case": case}, f, indent=1, sort_keys=True)
                again = replay_once(pid, case, scratch)
                ok = any(x["sig"] == v["sig"] for x in again.get("v", []))
            if ok:
                msg = [x for x in again["v"] if x["sig"] == v["sig"]][0]["msg"]
                print("run %s (VERIF_SEED=%s): %s" % (i, seed, msg))
                for l in log:
                    print(l)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
            else:
                print("HARNESS-ERROR: violation of run %s did not replay: %s / %s" % (i, v["msg"], again))
                rc = 2
        elif errors:
            for i, e in errors[:2]:
                print("HARNESS-ERROR in run %s: %s" % (i, e))
            # a run the harness could not finish is a run not explored (counted in the evidence);
            # more than a stray one means there is no answer
            rc = 2 if len(errors) >= 3 or len(results) < 50 * len(errors) else 0
        else:
            for l in extra_lines:
                print(l)
        wall = _now() - t0
        write_evidence(prop, pid, tier, seed, results, wall, len(bad), n, extra, len(errors))
        if rc == 0:
            print("%s: %d runs, %.0f s, no violation" % (pid, len(results), wall))
        return rc
    finally:
        pool.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def replay_once(pid, case, scratch):
    w = Worker(pid, scratch, flavour_of(case))
    try:
        return w.run(0, case)
    finally:
        w.stop()


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    pid = pid or d["property"]
    prop = load(pid)
    scratch = tempfile.mkdtemp(prefix="simkit-")
    try:
        ans = replay_once(pid, d["case"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if "error" in ans:
        print("HARNESS-ERROR: " + ans["error"])
        return 2
    for v in ans["v"]:
        print("%s: %s" % (v["sig"], v["msg"]))
    if ans["v"]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation on replay (digest %s)" % ans["digest"])
    return 0


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def write_evidence(prop, pid, tier, seed, results, wall, nviol, planned, extra=None, nerr=0):
    stats = {}
    keys = set()
    digests = set()
    steps = 0
    for r in results.values():
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k in (r["key"] if isinstance(r["key"], list) else [r["key"]]):
            if k:
                keys.add(k)
        digests.add(r["digest"])
        steps += r["steps"]
    samples = []
    for i in sorted(results)[:3]:
        samples.append({"run": i, "case": results[i].get("case") or make_case(prop, pid, seed, i, tier),
                        "digest": results[i]["digest"]})
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(keys),
        "rule": prop.RULE,
        "samples": samples,
        "runs_planned": planned,
        "runs_the_harness_could_not_finish": nerr,
        "runs_per_hour": int(len(results) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(len(results) / max(wall, 1e-9) * 3600),
        "simulated_steps": steps,
        "simulated_time": ("%d simulated seconds passed on the simulated clocks" % stats["simulated seconds"]) if stats.get("simulated seconds") else
        "the property involves no clock; simulated time is counted in steps (line or bytecode events of the code under test)",
        "faults_and_events": {k: v for k, v in sorted(stats.items())},
        "distinct_outcome_digests": len(digests),
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
    }
    if extra and extra.get("evidence"):
        cov["recorded_inputs"] = extra["evidence"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
