"""Write MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = "deterministic simulation with fault injection: "
NOTE = {
    "C01": ("seeded random call histories, differential against the same call in a fresh simulated process",
            "Sampled histories (4-60 calls, up to 3 objects, rejected and re-entrant calls). Trusts fork as 'fresh process'; results compared to 1e-6."),
    "C02": ("seeded preemption schedules over simulated caller threads at line/bytecode granularity, cooperative locks, replayable plans",
            "Sampled schedules with 1-4 preemptions, 2-3 threads; oracle is the same call alone. Switches inside compiled dependencies are not simulated."),
    "C03": ("seeded fault placement (interrupts, failed allocations, failing solvers and callbacks at recorded instants), later calls compared with a fault-free process",
            "Sampled instants; faults are placed between lines of the library outside clean-up blocks, at numpy allocations and at dependency calls."),
    "C04": ("seeded histories with a simulated caller that overwrites its inputs, arguments and results and interrupts calls; byte images of everything the caller owns",
            "Sampled histories; all caller-visible arrays are watched after every call."),
    "C05": ("seeded schedules of generator calls against other simulated users of the process-wide random streams; stream model and fresh-process samples as oracles",
            "Sampled histories and schedules; every public generator with random content."),
    "C06": ("simulated persistence and eigen solvers give any legal answer; independent reference model compared through invariants of the target's symmetries",
            "Sampled data sets, classes, scales and solver answers; reference model is independent code (dense linear algebra). Tolerance 1e-4."),
    "C07": ("simulated integer solver gives any feasible or near-integral answer or fails; exact integer cohomology reference decides",
            "Sampled complexes with small primes and perturbed representatives; liftability decided exactly for the sampled complexes."),
    "C08": ("simulated solvers, all class orders; integer class vectors recovered by a reference model, determinant and LLL conditions checked exactly",
            "Sampled data sets with 2-4 classes; class vectors recovered by bounded enumeration."),
    "C09": ("seeded loss and corruption of distance readings; reference model over the surviving points",
            "Sampled subsets of lost/corrupted readings; all kinds of coordinates and reduction modes."),
    "C10": ("simulated clock and output stream with faults; differential against the quiet call",
            "Sampled clock behaviours and output failures at any write."),
    "C11": ("the same seeded calls executed in differently configured simulated processes (compiled/interpreted, poisoned memory, hash seeds) and compared",
            "Sampled calls; three process configurations."),
    "C12": ("seeded interleavings of plotting sessions sharing the figure registry; per-axes artist ledger as the model",
            "Sampled histories and schedules of all plotting helpers on the Agg backend."),
    "C13": ("seeded fault placement with snapshots of process-wide settings around every call",
            "Sampled calls, outcomes and instants; about 30 kinds of settings are compared."),
    "C14": ("step and solver-node budgets on simulated executions with adversarial legal solver answers",
            "Sampled inputs and solver answers; work is counted in simulated steps and solver nodes, not wall time."),
    "C15": ("chains of simulated processes that are killed and restart from saved objects only; saves at seeded instants in the middle of calls; differential against newly built objects",
            "Sampled chains of 1-4 processes; saving with pickle (protocols 2-5), copy and deepcopy."),
    "C16": ("simulated persistence solver gives any legal answer with readings lost on the way; the ingredients shown are judged by an independent reference model (classes compared modulo coboundaries)",
            "Sampled data sets, solver answers, losses and short histories; distances at the cover radius are not judged."),
    "C17": ("seeded histories with faults inside calls and short-lived threads, then the simulated caller drops everything and weak references decide; memory in use over long seeded runs",
            "Sampled histories; long runs of 600-3000 calls; growth below 200 bytes per call is not judged."),
}
NA = {
    "C20": "pure function of its input: no schedule, clock, fault, history or solver choice enters, so there is nothing for a simulator to decide",
    "C21": "pure function of its input (deterministic greedy loop): nothing for a simulator to decide",
    "C22": "pure geometric formulas of their input: nothing for a simulator to decide",
    "C23": "pure arithmetic on its input: nothing for a simulator to decide",
    "C24": "geometry of the samples is a pure function of the arguments once C05 holds: nothing for a simulator to decide",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if not os.path.exists(os.path.join(HERE, "simkit", "props", i.lower() + ".py")):
            na.append({"property": i, "reason": "check not built yet"})
            continue
        m = importlib.import_module("simkit.props." + i.lower())
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + NOTE[i][0], "level": m.LEVEL,
                       "level_note": NOTE[i][1]})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is reached from outside (module namespaces, sys.settrace, fork). Replay: "
                    "/opt/venv/bin/python check.py --replay FILE. Known findings: known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
