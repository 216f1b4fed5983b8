#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]

Runs every case of the property's harness symbolically on the current source of
the repository, replays counterexamples and path witnesses on the untouched
code, and writes evidence/<property>.json."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("HSV_PY", "/opt/venv/bin/python")


def load_cases(module):
    """Case names and settings, read in a child so this process stays clean."""
    code = (
        "import sys,json;sys.path.insert(0,%r)\n"
        "from symex import instrument;instrument.install()\n"
        "import importlib\n"
        "m=importlib.import_module('props.%s')\n"
        "keep=('name','shards','depth','quick_s','thorough_s','thorough_only','reach','max_witnesses')\n"
        "print('@@'+json.dumps({'cases':[{k:c[k] for k in keep if k in c} for c in m.CASES],"
        "'meta':getattr(m,'META',{})}))" % (HERE, module)
    )
    p = subprocess.run([PY, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env())
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    sys.stderr.write(p.stdout + p.stderr)
    return None


def env():
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPATH", None)
    return e


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


class Pool(object):
    def __init__(self, n, scratch):
        self.n = n
        self.scratch = scratch
        self.running = []
        self.done = []

    def start(self, idx, argv, deadline, tag):
        e = env()
        e["HSV_TMP"] = self.scratch
        e["TMPDIR"] = self.scratch
        log = open(os.path.join(self.scratch, "log-%s" % tag), "w")
        p = subprocess.Popen(argv, stdout=log, stderr=log, env=e, cwd=HERE, start_new_session=True)
        log.close()
        self.running.append((idx, p, deadline, tag))

    def poll(self):
        still = []
        for idx, p, deadline, tag in self.running:
            rc = p.poll()
            if rc is None and time.time() > deadline:
                kill(p)
                p.wait()
                rc = "timeout"
            if rc is None:
                still.append((idx, p, deadline, tag))
            else:
                kill(p)  # solver children
                self.done.append((idx, rc, tag))
        self.running = still

    def log(self, tag):
        try:
            with open(os.path.join(self.scratch, "log-%s" % tag)) as f:
                return f.read()[-4000:]
        except OSError:
            return ""


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = os.environ.get("HSV_ONLY")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    module = prop
    info = load_cases(module)
    if info is None:
        print("ERROR property=%s the harness does not load" % prop)
        return 2
    cases = info["cases"]
    scratch = tempfile.mkdtemp(prefix="hsv-%s-" % prop)
    try:
        return run(prop, tier, seed, module, info, cases, scratch, t0, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, module, info, cases, scratch, t0, only):
    workers = int(os.environ.get("HSV_WORKERS", "8"))
    tasks = []
    for ci, c in enumerate(cases):
        if only and only not in c["name"]:
            continue
        if c.get("thorough_only") and tier != "thorough":
            continue
        n = c.get("shards", 1)
        if tier == "thorough":
            n = c.get("thorough_shards", n)
        secs = c.get("quick_s", 40) if tier == "quick" else c.get("thorough_s", 300)
        for s in range(n):
            tasks.append(
                {
                    "module": module,
                    "case": ci,
                    "shard": (c.get("depth", 2), s, n) if n > 1 else (0, 0, 1),
                    "max_seconds": secs,
                    "cross": tier == "thorough",
                    "seed": seed,
                    "max_witnesses": max(4, c.get("max_witnesses", 120 if tier == "quick" else 1500) // n),
                    "oneshot_s": 15 if tier == "quick" else 60,
                }
            )
    if tier == "quick":
        # The budgets are those of an idle machine: use what is left of ten minutes on a busy one.
        spare = max(1.0, min(3.0, 600.0 * workers / max(1, sum(t["max_seconds"] for t in tasks))))
        for t in tasks:
            t["max_seconds"] *= spare
    pool = Pool(workers, scratch)
    pending = list(enumerate(tasks))
    results = {}
    errors = []
    while pending or pool.running:
        while pending and len(pool.running) < pool.n:
            i, t = pending.pop(0)
            tf = os.path.join(scratch, "task-%d.json" % i)
            with open(tf, "w") as f:
                json.dump(t, f)
            of = os.path.join(scratch, "out-%d.json" % i)
            pool.start(i, [PY, os.path.join(HERE, "symex/worker.py"), tf, of], time.time() + t["max_seconds"] + 60, "w%d" % i)
        pool.poll()
        for i, rc, tag in pool.done:
            of = os.path.join(scratch, "out-%d.json" % i)
            if rc == 0 and os.path.exists(of):
                with open(of) as f:
                    results[i] = json.load(f)
            elif rc == "timeout":
                results[i] = None
            else:
                errors.append("case %s: worker ended with %s\n%s" % (cases[tasks[i]["case"]]["name"], rc, pool.log(tag)))
        pool.done = []
        time.sleep(0.02)

    # ---- replay: counterexamples first, then path witnesses
    jobs = []
    viols = []
    for i, r in sorted(results.items()):
        if r is None:
            continue
        for v in r["violations"]:
            v["case"] = tasks[i]["case"]
            v["jobs"] = []
            for a in v["candidates"]:
                v["jobs"].append(len(jobs))
                jobs.append({"module": module, "case": v["case"], "assignment": a, "kind": "cex"})
            viols.append(v)
    wit = []
    for i, r in sorted(results.items()):
        if r is None:
            continue
        for w in r["witnesses"]:
            wit.append((len(jobs), tasks[i]["case"], w))
            jobs.append({"module": module, "case": tasks[i]["case"], "assignment": w["assignment"], "kind": "wit"})
    replies = {}
    if jobs:
        nch = min(workers, max(1, len(jobs) // 20 + 1))
        rpool = Pool(workers, scratch)
        outs = []
        for k in range(nch):
            idxs = list(range(k, len(jobs), nch))
            jf = os.path.join(scratch, "jobs-%d.json" % k)
            of = os.path.join(scratch, "rep-%d.jsonl" % k)
            with open(jf, "w") as f:
                json.dump([jobs[j] for j in idxs], f)
            outs.append((k, of, idxs))
            rpool.start(k, [PY, os.path.join(HERE, "symex/replay.py"), jf, of], time.time() + 240, "r%d" % k)
        while rpool.running:
            rpool.poll()
            time.sleep(0.02)
        for k, of, idxs in outs:
            try:
                with open(of) as f:
                    for line in f:
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        replies[idxs[d["i"]]] = d
            except OSError:
                pass
            if len([1 for j in idxs if j in replies]) < len(idxs):
                errors.append("replay %d incomplete: %s" % (k, rpool.log("r%d" % k)))

    from symex.engine import frozen_equal

    agree = mismatch = infeasible = 0
    mism = []
    found = []
    for j, ci, w in wit:
        d = replies.get(j)
        if d is None:
            continue
        if d["status"] == "violated":
            found.append({"case": ci, "label": d["label"], "info": d.get("info", {}), "assignment": w["assignment"], "origin": "path witness"})
        elif d["status"] == "infeasible":
            infeasible += 1
        elif frozen_equal(d["obs"], json.loads(json.dumps(w["obs"]))):
            agree += 1
        else:
            mismatch += 1
            if len(mism) < 5:
                mism.append({"case": cases[ci]["name"], "assignment": w["assignment"], "predicted": w["obs"], "real": d["obs"]})
    unreproduced = []
    for v in viols:
        hit = None
        for j in v["jobs"]:
            d = replies.get(j)
            if d is not None and d["status"] == "violated":
                hit = (j, d)
                if d["label"] == v["label"]:
                    break
        if hit is None:
            unreproduced.append(v)
        else:
            j, d = hit
            found.append({"case": v["case"], "label": d["label"], "info": d.get("info", {}), "assignment": jobs[j]["assignment"], "origin": "solver counterexample"})

    # ---- known findings
    known = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == prop]
    except OSError:
        pass
    news = []
    for f in found:
        for k in known:
            if (
                k["case"] == cases[f["case"]]["name"]
                and k["label"] == f["label"]
                and all(f["assignment"]["choices"].get(a) == b for a, b in k.get("choices", {}).items())
            ):
                k["seen"] = True
                break
        else:
            news.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # ---- vacuity
    reached = {}
    for i, r in results.items():
        if r is None:
            continue
        d = reached.setdefault(tasks[i]["case"], {})
        for l, n in r["reached"].items():
            d[l] = d.get(l, 0) + n
    vacuous = []
    for ci, c in enumerate(cases):
        if ci not in reached and any(t["case"] == ci for t in tasks):
            continue
        for l in c.get("reach", []):
            if any(t["case"] == ci for t in tasks) and not reached.get(ci, {}).get(l):
                vacuous.append("%s never reached %r" % (c["name"], l))

    # ---- evidence
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    reports = []
    seen = set()
    for n, f in enumerate(news):
        key = (f["case"], f["label"])
        if key in seen or len(reports) >= 5:
            continue
        seen.add(key)
        path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as o:
            json.dump({"property": prop, "module": module, "case": f["case"], "case_name": cases[f["case"]]["name"], "label": f["label"], "info": f["info"], "assignment": f["assignment"], "origin": f["origin"]}, o, indent=1)
        reports.append((f, path))
    ok = [r for r in results.values() if r is not None]
    percase = {}
    for i, r in sorted(results.items()):
        d = percase.setdefault(cases[tasks[i]["case"]]["name"], {"paths": 0, "assertions": 0, "queries": 0, "solver_s": 0.0, "complete": True, "seconds": 0.0, "unknown": 0, "unsupported": 0})
        if r is None:
            d["complete"] = False
            continue
        d["paths"] += r["paths"]
        d["assertions"] += r["asserts"]
        d["queries"] += r["queries"]
        d["solver_s"] = round(d["solver_s"] + r["solver_time"], 2)
        d["seconds"] = round(d["seconds"] + r["seconds"], 2)
        d["complete"] = d["complete"] and r["complete"] and not r["n_unknown"] and not r["n_unsupported"]
        d["unknown"] += r["n_unknown"]
        d["unsupported"] += r["n_unsupported"]
    enc = {}
    for r in ok:
        enc.update(r["encoded"])
    samples = []
    for j, ci, w in wit[:: max(1, len(wit) // 3)][:3]:
        samples.append({"case": cases[ci]["name"], "assignment": w["assignment"], "observed": w["obs"][:6]})
    if not samples:
        samples = [{"note": "no witness"}]
    cov = {
        "states": sum(r["paths"] for r in ok),
        "transitions": sum(r["forks"] for r in ok),
        "traces_validated_against_impl": agree,
        "traces_disagreeing": mismatch,
        "witnesses_infeasible_after_rounding": infeasible,
        "samples": samples,
        "assertions_discharged": sum(r["asserts"] for r in ok),
        "solver_queries": sum(r["queries"] for r in ok),
        "solver_seconds": round(sum(r["solver_time"] for r in ok), 2),
        "complete_within_bounds": bool(percase) and all(d["complete"] for d in percase.values()) and not unreproduced,
        "cases": percase,
        "bounds": info["meta"].get("bounds", ""),
        "outside": info["meta"].get("outside", ""),
        "functions_encoded": {k: len(v) for k, v in sorted(enc.items())},
        "functions_of_interest": info["meta"].get("functions", []),
        "lossy_concretisations": sorted(set(x for r in ok for x in r["lossy"]))[:10],
        "unsupported": sorted(set(x for r in ok for x in r["unsupported"]))[:10],
        "unknown": sorted(set(x for r in ok for x in r["unknown"]))[:10],
        "second_solver": {k: sum(r["cross"][k] for r in ok) for k in ("agreed", "unknown", "disagreed")},
        "vacuous": vacuous,
        "undecided": len(unreproduced),
        "mismatch_examples": mism,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": info["meta"].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(news),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("HSV_QUIET"):
        print(
            "%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d/%d path witnesses confirmed on the real code, complete=%s, %.1fs"
            % (prop, tier, cov["states"], cov["assertions_discharged"], cov["solver_queries"], cov["solver_seconds"], agree, len(wit), cov["complete_within_bounds"], ev["wall_s"])
        )
    if os.environ.get("HSV_VERBOSE"):
        print(json.dumps(percase, indent=1))
        for m in mism:
            print("MISMATCH", json.dumps(m)[:2000])
        for k in ("lossy_concretisations", "unsupported", "unknown", "second_solver"):
            print(k, cov[k])
    for f, path in reports:
        print("  %s [%s] %s" % (cases[f["case"]]["name"], f["origin"], f["label"]))
        for k, v in f["info"].items():
            print("    %s: %s" % (k, str(v)[-700:]))
        print("    input: %s" % json.dumps(f["assignment"])[:1000])
    if reports:
        for f, path in reports:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = False
    for e in errors:
        print("ERROR " + e)
        bad = True
    notes = set()
    for v in unreproduced:
        if (v["case"], v["label"]) in notes:
            continue
        notes.add((v["case"], v["label"]))
        # the real code contradicts the encoding: the path counts as undecided
        print("NOTE undecided (a solver counterexample that the real code does not confirm): %s: %s" % (cases[v["case"]]["name"], v["label"]))
        if os.environ.get("HSV_VERBOSE"):
            print("    " + json.dumps(v["info"])[-1500:])
            for a in v["candidates"][:2]:
                print("    " + json.dumps(a)[:1500])
                for j in v["jobs"][:2]:
                    print("    " + json.dumps(replies.get(j))[-1000:])
    if cov["second_solver"]["disagreed"]:
        print("ERROR the two solvers disagree")
        bad = True
    for v in vacuous:
        print("NOTE vacuous: " + v)
    return 2 if bad else 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
