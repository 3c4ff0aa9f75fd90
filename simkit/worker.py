"""Fork server: reads cases as JSON lines, executes each in simulated processes, answers JSON lines."""
import importlib
import json
import os
import sys
import traceback


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    from . import boot

    boot.boot()
    prop = importlib.import_module("simkit.props." + pid.lower())
    from . import engine

    out.write(json.dumps({"ready": 1}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        try:
            res = engine.Res()
            try:
                prop.execute(job["case"], res)
            except engine.Violation as v:
                res.bad(v.sig, str(v))
            ans = res.to_json()
        except BaseException:
            ans = {"error": traceback.format_exc()}
        ans["id"] = job["id"]
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
