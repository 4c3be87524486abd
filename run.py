"""Run the check of one property:  run.py ID [--tier quick|thorough] [--replay FILE] [--workload NAME] [--jobs N]

exit 0: held on everything observed;  exit 1: VIOLATION line printed;  exit 3: inconclusive / harness error.
"""
import argparse, importlib, json, os, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workload")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None, help="wall-clock budget in s; cases not started by then are skipped")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop, tier = args.prop, ("thorough" if args.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = args.budget or (780.0 if tier == "thorough" else 300.0)
    t0 = time.time()
    for k, v in dict(MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1").items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    top = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.environ["TMPDIR"] = top
    tempfile.tempdir = top
    os.environ["MPLCONFIGDIR"] = os.path.join(top, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    try:
        os.chdir(top)
        code = check(prop, tier, seed, budget, t0, args)
    finally:
        os.chdir("/")
        shutil.rmtree(top, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def check(prop, tier, seed, budget, t0, args):
    from mon import core
    sys.path.insert(0, core.REPO_SRC)
    try:
        import tight_binding_redweasel as tbr
        assert os.path.abspath(tbr.__file__).startswith(core.PKG), tbr.__file__
        importlib.import_module("mon." + prop.lower())
    except Exception as e:
        import traceback
        if core.in_repo(e.__traceback__):
            traceback.print_exc()
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-import.json")
            json.dump(dict(property=prop, mech="import", message="".join(traceback.format_exception(e))[-3000:]), open(path, "w"))
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    open_known = {k["mechanism"]: k for k in known["open"] if k["property"] == prop}

    if args.replay:
        r = json.load(open(args.replay))
        res = core.run_case(prop, r["tier"], r["seed"], r["workload"], r["index"])
        print(json.dumps({k: v for k, v in res.items() if k != "keys"}, indent=1, default=str))
        if res["status"] == "violation":
            print(f"VIOLATION property={prop} replay={os.path.abspath(args.replay)}")
            return 1
        return 0 if res["status"] == "held" else 3

    wl = core.WORKLOADS[prop]
    if args.workload:
        wl = {args.workload: wl[args.workload]}
    tasks = []
    for name, w in wl.items():
        n = w[tier]
        tasks += [((i + 0.5) / n, name, i) for i in range(n)]
    tasks.sort()  # interleave the workloads, so that a budget cut hits all of them evenly
    tasks = [(prop, tier, seed, name, i) for _, name, i in tasks]
    results = []
    skipped_by_budget = 0
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    deadline = t0 + budget
    with ctx.Pool(max(1, args.jobs)) as pool:
        it = pool.imap_unordered(_task, [(t, deadline) for t in tasks], chunksize=1)
        n = 0
        hard = t0 + budget + 75
        stop = False
        while n < len(tasks) and not stop:
            try:
                r = it.next(timeout=max(1.0, hard - time.time()))
            except mp.TimeoutError:
                print(f"watchdog: {len(tasks) - n} cases unfinished", file=sys.stderr)
                stop = True
                break
            n += 1
            if r is None:
                skipped_by_budget += 1
            else:
                results.append(r)
                if r["status"] == "violation" and r["violation"]["mech"] not in open_known and sum(x["status"] == "violation" for x in results) >= 10 and not args.v:
                    stop = True
        pool.terminate()
    events, keys, ev = {}, set(), 0
    notes, wl_stat = {}, {}
    viol, errs, touts = [], [], []
    for r in results:
        ev += r["evaluations"]
        keys |= {(r["workload"], k) for k in r["keys"]}
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        if r["notes"] and len(notes.setdefault(r["workload"], [])) < 3:
            notes[r["workload"]].append(dict(case=r["index"], observed=r["notes"][:2]))
        s = wl_stat.setdefault(r["workload"], dict(cases=0, held=0, skip=0, violation=0, timeout=0, error=0))
        s["cases"] += 1
        s[r["status"]] += 1
        if r["status"] == "violation":
            viol.append(r)
        elif r["status"] == "error":
            errs.append(r)
        elif r["status"] == "timeout":
            touts.append(r)
    viol.sort(key=lambda r: (r["workload"], r["index"]))
    real = [r for r in viol if r["violation"]["mech"] not in open_known]
    seen_known = {}
    for r in viol:
        m = r["violation"]["mech"]
        if m in open_known:
            seen_known.setdefault(m, r)
    for m, r in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {m}: {open_known[m]['what']}")
    import numpy as np
    cov = dict(evaluations=ev, distinct_nontrivial=len(keys),
               rule="cases are generated from VERIF_SEED per workload; evaluations = oracle/monitor decisions made on observed executions of the real code; "
                    "distinct_nontrivial = number of distinct digests of generated inputs on which a deciding monitor was reached",
               samples=[dict(workload=k, cases=v) for k, v in sorted(notes.items())] or [dict(workload=r["workload"], case=r["index"]) for r in results[:3]],
               workloads=wl_stat, monitor_events=dict(sorted(events.items())), cases=len(results), cases_not_started_by_budget=skipped_by_budget, cases_without_verdict=len(touts))
    evid = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=["the oracle only judges executions that were driven; numpy/scipy/LAPACK are trusted"],
                wall_s=round(time.time() - t0, 2), violations=len(real))
    if not args.workload:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evid, f, indent=1, default=str)
    if args.v:
        for k, s in sorted(wl_stat.items()):
            print(k, s)
        print("evaluations", ev, "distinct", len(keys), "events", events)
    if real:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = set()
        for r in real:
            v = r["violation"]
            if v["mech"] in shown and not args.v:
                continue
            shown.add(v["mech"])
            path = os.path.join(HERE, "replays", f"{prop}-{r['workload']}-{r['index']}-s{seed}-{tier}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, workload=r["workload"], index=r["index"], **v), f, indent=1, default=str)
            print(f"  {r['workload']}[{r['index']}] {v['mech']}: {v['message'][:600]}")
            if args.v:
                for k, x in v["witness"].items():
                    print("     ", k, "=", str(x)[-1500:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        print(f"HARNESS ERROR in {len(errs)} cases, first {errs[0]['workload']}[{errs[0]['index']}]:\n{errs[0]['error']}")
        return 3
    if touts and len(touts) > 0.02 * len(results):
        print("INCONCLUSIVE:", len(touts), "cases timed out:", [(t["workload"], t["index"]) for t in touts[:5]])
        return 3
    reached = {k for k, s in wl_stat.items() if s["held"] or s["violation"]}
    missing = [k for k in wl if k not in reached]
    if missing or ev == 0:
        print("INCONCLUSIVE: the deciding monitor was never reached in", missing)
        return 3
    print(f"HELD property={prop} tier={tier} seed={seed} cases={len(results)} evaluations={ev} distinct={len(keys)} wall={time.time()-t0:.1f}s")
    return 0


def _task(a):
    t, deadline = a
    if time.time() > deadline:
        return None
    from mon import core
    import random
    random.seed(0)
    return core.run_case(*t)


if __name__ == "__main__":
    main()
