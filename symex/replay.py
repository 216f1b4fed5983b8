"""Replays assignments on the untouched code: replay.py JOBS.json OUT.jsonl.

JOBS is a list of {"module", "case", "assignment"}.  One result per line, so a
crash of one job is attributable."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    sys.setrecursionlimit(5000)
    from symex import engine, instrument

    instrument.install_concrete()
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    with open(sys.argv[2], "w") as out:
        for i, job in enumerate(jobs):
            mod = importlib.import_module("props." + job["module"])
            case = mod.CASES[job["case"]]
            r = engine.run_concrete(case["fn"], case.get("params", {}), job["assignment"])
            r["i"] = i
            out.write(json.dumps(r) + "\n")
            out.flush()
    sys.stdout = real_stdout
    os._exit(0)


if __name__ == "__main__":
    main()
