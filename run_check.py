#!/opt/venv/bin/python
"""
run_check.py CNN [quick|thorough]
Decides property CNN on /repo's current tree.  exit 0: held on everything explored; exit 1 + VIOLATION line otherwise.
"""
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")


def child(conn, tasks, n, seed, budget):
    from engine import harness as H
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    name, fn, case, b = tasks[n]
    try:
        r = H.run_task(fn, name, case, min(b, budget), seed=seed)
    except BaseException as e:
        r = H.TaskResult(name, case)
        r.status = "inconclusive"
        r.inconclusive = ["machinery error %s: %s" % (type(e).__name__, e)]
    conn.send(r)
    conn.close()
    os._exit(0)


def schedule(prop, tasks, idx, tier, seed, t0, total):
    """one process per harness instance, eight at a time; a process that dies is retried once"""
    from engine import harness as H
    import multiprocessing.connection as mc
    ctx = mp.get_context("fork")
    results, running, tries = {}, {}, {}
    queue = sorted(idx, key=lambda n: -tasks[n][3])      # stable: longest budgets first

    def failed(n, why):
        r = H.TaskResult(tasks[n][0], tasks[n][2])
        r.status = "inconclusive"
        r.inconclusive = [why]
        results[n] = r

    while queue or running:
        now = time.time()
        while queue and len(running) < 8 and now - t0 < total:
            n = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, tasks, n, seed, total), daemon=True)
            p.start()
            b.close()
            running[a] = (n, p, now + tasks[n][3] * 1.5 + 120)
        if now - t0 >= total:
            for n in queue:
                failed(n, "overall time budget")
            queue = []
        for c in mc.wait(list(running), timeout=1.0):
            n, p, _ = running.pop(c)
            try:
                results[n] = c.recv()
            except Exception as e:
                p.join(5)
                tries[n] = tries.get(n, 0) + 1
                if tries[n] < 2:
                    queue.insert(0, n)
                else:
                    failed(n, "worker died: exit code %s" % p.exitcode)
            c.close()
            p.join(10)
            if p.is_alive():
                p.kill()
        now = time.time()
        for c in list(running):
            n, p, dl = running[c]
            if now > dl or now - t0 > total + 60:
                p.kill()
                p.join()
                c.close()
                del running[c]
                failed(n, "time budget (killed)")
    return results


def task_list(mod, tier):
    out = []
    for t in mod.tasks(tier):
        fn, case = t[0], t[1]
        b = t[2] if len(t) > 2 else (60 if tier == "quick" else 400)
        out.append((fn.__name__, fn, case, b))
    return out


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                out.append(json.loads(l[len("known: "):]))
    return out


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    tasks = task_list(mod, tier)
    only = os.environ.get("VERIF_ONLY")
    total = 600 if tier == "quick" else 3300
    idx = [n for n in range(len(tasks)) if not only or only in tasks[n][0]]
    results = schedule(prop, tasks, idx, tier, seed, t0, total)
    for n in idx:
        if n not in results:
            from engine import harness as H
            r = H.TaskResult(tasks[n][0], tasks[n][2])
            r.status = "inconclusive"
            r.inconclusive = ["overall time budget"]
            results[n] = r
    kn = [k for k in known() if k["property"] == prop]
    violations, knowns = [], []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for n in idx:
        r = results[n]
        if r.status != "violated":
            continue
        label, detail, values, vseed = r.violation
        hit = [k for k in kn if k["harness"] == r.name and k["label"] == label
               and all(r.case.get(x) == y for x, y in k.get("case", {}).items())]
        if hit:
            knowns.append((hit[0]["what"], r))
            continue
        path = os.path.join(HERE, "replays", "%s_%s_%d.json" % (prop, r.name, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": r.name, "case": r.case, "tier": tier, "task": n, "label": label,
                       "detail": detail, "values": values, "seed": vseed}, f, indent=1, default=float)
        if len(violations) >= 5:
            violations.append((path, r, "FAIL %s: %s" % (label, detail)))   # same kind as those already replayed
            continue
        # fresh interpreter, ordinary numpy, unmodified code
        p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "replay.py"), path], capture_output=True, text=True,
                           timeout=300)
        if p.returncode == 1:
            violations.append((path, r, p.stdout.strip()))
        else:
            r.status = "inconclusive"
            r.inconclusive.append("violation did not reproduce in a fresh process: %s" % p.stdout.strip()[-300:])
    wall = time.time() - t0
    write_evidence(mod, prop, tier, seed, [results[n] for n in idx], violations, wall)
    hold = sum(r.status == "holds" for r in results.values())
    inc = [r for r in results.values() if r.status == "inconclusive"]
    print("%s %s: %d harness instances, %d hold, %d inconclusive, %d violated; %d paths, %d obligations, %d queries, "
          "solver %.1fs, wall %.1fs" % (prop, tier, len(results), hold, len(inc), len(violations),
                                        sum(r.paths for r in results.values()),
                                        sum(r.obligations for r in results.values()),
                                        sum(r.queries for r in results.values()),
                                        sum(r.solver_s for r in results.values()), wall))
    for r in inc:
        print("INCONCLUSIVE %s %s: %s" % (r.name, json.dumps(r.case, default=str), "; ".join(r.inconclusive)[:600]))
    if os.environ.get("VERIF_VERBOSE"):
        for n in idx:
            r = results[n]
            print("  %-34s %-60s %s paths=%d obl=%d q=%d solver=%.1f wall=%.1f" % (
                r.name, json.dumps(r.case, default=str)[:60], r.status, r.paths, r.obligations, r.queries, r.solver_s,
                r.wall_s))
    for w, r in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for path, r, o in violations:
        fl = [l for l in o.splitlines() if l.startswith("FAIL")]
        print("  %s %s: %s" % (r.name, json.dumps(r.case, default=str), (fl or [o[-300:]])[0][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.exit(1 if violations else 0)


def write_evidence(mod, prop, tier, seed, results, violations, wall):
    fns = sorted({f for r in results for f in r.functions if not f.endswith("<module>")})
    inc = [r for r in results if r.status == "inconclusive"]
    paths = sum(r.paths for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "explanation": "symbolic execution of the repository's source, recompiled for this run; every obligation is an "
                           "SMT query (z3) over all values of the symbolic inputs within the stated bounds. states: "
                           "feasible paths of the executed code that reached the obligations; transitions: branch "
                           "decisions where the solver found both sides feasible; traces_validated_against_impl: "
                           "runs of the same harness on the ordinary package at solver-chosen inputs",
            "states": paths, "transitions": sum(r.forks for r in results),
            "traces_validated_against_impl": sum(r.concrete_runs for r in results),
            "complete": not inc,
            "obligations": sum(r.obligations for r in results),
            "samples": [{"harness": r.name, "case": str(r.case), "satisfying_input": r.sample} for r in results
                        if r.sample][:8],
            "functions_encoded": fns,
            "bounds": mod.BOUNDS if hasattr(mod, "BOUNDS") else "",
            "harness_instances": len(results),
            "instances_holding": sum(r.status == "holds" for r in results),
            "infeasible_paths": sum(r.infeasible for r in results),
            "queries_discharged": sum(r.queries for r in results),
            "queries_unknown": sum(r.unknown for r in results),
            "obligations_equal_within_tolerance": sum(r.within_tol for r in results),
            "solver_seconds": round(sum(r.solver_s for r in results), 2),
            "inconclusive": [{"harness": r.name, "case": str(r.case), "why": r.inconclusive[:3]} for r in inc],
            "per_harness": [{"harness": r.name, "case": str(r.case), "status": r.status, "paths": r.paths,
                             "obligations": r.obligations, "queries": r.queries, "wall_s": round(r.wall_s, 2)}
                            for r in results],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "IEEE doubles are treated as real numbers; coefficients agreeing to 1e-9 are identified and obligations are "
            "decided up to 1e-5",
            "exp/cos/sin enter as algebraically independent atoms with their functional equations built into the normal form",
        ],
        "wall_s": round(wall, 2),
        "violations": [{"replay": p, "harness": r.name, "label": r.violation[0], "detail": r.violation[1]}
                       for p, r, _ in violations],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
