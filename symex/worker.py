"""One exploration task: worker.py TASK.json OUT.json (symbolic run)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def plain(x):
    return float(x) if type(x).__name__ == "Fraction" else repr(x)


def main():
    with open(sys.argv[1]) as f:
        task = json.load(f)
    sys.setrecursionlimit(5000)
    from symex import engine, instrument

    instrument.install()
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    mod = importlib.import_module("props." + task["module"])
    case = mod.CASES[task["case"]]
    ex = engine.Explorer(
        case["fn"],
        case.get("params", {}),
        max_seconds=task["max_seconds"],
        max_paths=task.get("max_paths", 10 ** 9),
        shard=tuple(task.get("shard", (0, 0, 1))),
        cross=task.get("cross", False),
        max_witnesses=task.get("max_witnesses", 200),
        witness_every=task.get("witness_every", 1),
        seed=task.get("seed", 1),
        oneshot_s=task.get("oneshot_s", 15),
        max_violations=task.get("max_violations", 3),
    )
    res = ex.run()
    res["encoded"] = {k: v for k, v in instrument.ENCODED.items()}
    sys.stdout = real_stdout
    with open(sys.argv[2] + ".part", "w") as f:
        json.dump(res, f, default=plain)
    os.rename(sys.argv[2] + ".part", sys.argv[2])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
