"""Check driver: python lib/runner.py C01 [--tier quick|thorough] [--replay FILE] [--only SUBSTR]"""
import argparse, collections, dataclasses, hashlib, importlib, json, multiprocessing as mp, os, queue, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_env():
    env = dict(JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", LITELLM_LOCAL_MODEL_COST_MAP="True", HF_HUB_OFFLINE="1",
               MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               SYMX_ENV="1")
    for k in ("PYTHONPATH", "OPENAI_API_KEY", "ANTHROPIC_API_KEY"):
        os.environ.pop(k, None)
    fresh = os.environ.get("SYMX_ENV") != "1"
    os.environ.update(env)
    if fresh:
        py = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
        os.execv(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])


@dataclasses.dataclass
class H:
    """one harness"""
    name: str
    fn: object
    bounds: str
    splits: list = dataclasses.field(default_factory=lambda: [{}])
    expect: tuple = ()
    validate_every: int = 50
    max_paths: int = 10**9
    stubs: str = ""
    timeout_ms: int = 20000
    max_concretize: int = 64


def split(name, n, *more):
    """forced selector splits, for running one harness in parallel slices"""
    out = [{name: i} for i in range(n)]
    for nm, k in more:
        out = [{**d, nm: i} for d in out for i in range(k)]
    return out


ENCODED = collections.Counter()


def start_monitor():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    roots = (os.path.realpath(REPO) + "/effectful/", os.path.realpath(REPO) + "/docs/source/")

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(roots):
            ENCODED[os.path.relpath(fn, os.path.realpath(REPO)) + ":" + code.co_qualname] += 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def load(prop):
    sys.path.insert(0, VERIF + "/lib")
    sys.path.insert(0, VERIF + "/props")
    repo = os.path.realpath(REPO)
    sys.path.insert(0, repo)
    import effectful
    got = os.path.dirname(list(effectful.__path__)[0])
    if os.path.realpath(got) != repo:
        raise SystemExit(f"effectful imported from {got}, not {repo}")
    sys.modules.setdefault("runner", sys.modules[__name__])
    return importlib.import_module(prop.lower())


def worker(prop, tier, idx, only, known, out, deadline, stop):
    try:
        start_monitor()
        sys.setrecursionlimit(20000)
        mod = load(prop)
        import symx
        hs = [h for h in mod.harnesses(tier) if not only or only in h.name]
        tasks = [(hi, si) for hi, h in enumerate(hs) for si in range(len(h.splits))]
        out.put(("ntasks", len(tasks), [(h.name, h.bounds, list(h.expect), h.stubs) for h in hs]))
        while not stop.value:
            with idx.get_lock():
                k = idx.value
                idx.value += 1
            if k >= len(tasks):
                break
            hi, si = tasks[k]
            h = hs[hi]
            eng = symx.Engine(timeout_ms=h.timeout_ms, max_concretize=h.max_concretize)
            t0 = time.time()
            try:
                r = eng.explore(h.fn, known=known, max_paths=h.max_paths, deadline=deadline,
                                validate_every=h.validate_every, forced=h.splits[si])
            except Exception as e:
                r = dict(status="error", why="engine: " + "".join(traceback.format_exception(e))[-1500:])
            r.update(harness=h.name, split=h.splits[si], stats=eng.stats, wall=time.time() - t0)
            out.put(("result", r))
        out.put(("done", dict(ENCODED)))
    except BaseException as e:  # noqa
        out.put(("crash", "".join(traceback.format_exception(e))[-3000:]))


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    sys.setrecursionlimit(20000)
    import symx
    h = [h for h in mod.harnesses(rec["tier"]) if h.name == rec["harness"]][0]
    r = symx.Engine().concrete(h.fn, rec["model"])
    if r is None:
        print("replay: every assertion holds")
        return 0
    print("replay: violated:", r[0])
    for n, v in r[2].trace:
        print("  ", n, "=", v)
    for n in r[2].notes:
        print("   note:", n)
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    setup_env()
    prop = a.prop.upper()
    if a.replay:
        sys.exit(replay(prop, a.replay))
    t0 = time.time()
    budget = a.budget or (780 if a.tier == "quick" else 7200)
    deadline = t0 + budget
    with open(VERIF + "/known_findings.json") as f:
        kf = [k for k in json.load(f)["findings"] if k["property"] == prop]
    known = {k["tag"]: k for k in kf}
    ctx = mp.get_context("fork")
    idx = ctx.Value("i", 0)
    stop = ctx.Value("b", 0)
    out = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(prop, a.tier, idx, a.only, tuple(known), out, deadline, stop), daemon=True)
          for _ in range(a.jobs)]
    for p in ps:
        p.start()
    ntasks, meta, results, encoded, errors, ndone, crashed = None, [], [], collections.Counter(), [], 0, False
    viol = None
    incomplete = []
    while ndone < len(ps):
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) == len(ps) and out.empty():
                errors.append("worker processes died")
                break
            if any(p.exitcode not in (0, None) for p in ps):
                errors.append(f"a worker died with exit code {[p.exitcode for p in ps]}")
                break
            if time.time() > deadline + 60:
                if a.tier == "thorough":
                    incomplete.append("deadline passed while a path was running")
                    break
                errors.append("budget exhausted")
                break
            continue
        if m[0] == "ntasks":
            ntasks, meta = m[1], m[2]
        elif m[0] == "result":
            results.append(m[1])
            r = m[1]
            if r["status"] == "violation" and viol is None:
                viol = r
                stop.value = 1
                break
            if r["status"] == "budget" and a.tier == "thorough":
                incomplete.append(f"{r['harness']} {r['split']}: {r['why']}")
            elif r["status"] in ("error", "budget"):
                errors.append(f"{r['harness']} {r['split']}: {r.get('why')}")
        elif m[0] == "done":
            ndone += 1
            encoded.update(m[1])
        elif m[0] == "crash":
            ndone += 1
            errors.append("worker crash: " + m[1])
            stop.value = 1
    for p in ps:
        if p.is_alive():
            if viol or errors or incomplete:
                p.terminate()
        p.join(timeout=20)
    tot = collections.Counter()
    per = {}
    labels = collections.defaultdict(set)
    checks = collections.Counter()
    samples = []
    hits = {}
    for r in results:
        tot.update(r["stats"])
        d = per.setdefault(r["harness"], collections.Counter())
        d.update(r["stats"])
        d.update(dict(wall=r["wall"]))
        labels[r["harness"]] |= set(r.get("labels", ()))
        hits.update(r.get("known_hits", {}))
        for s in r.get("samples", [])[:1]:
            if len(samples) < 8:
                samples.append(dict(harness=r["harness"], **s))
    undecided = [f"{r['harness']} {r['split']}: {u}" for r in results for u in r.get("undecided", ())]
    if viol is None and not errors and not incomplete:
        if not meta or len(results) != ntasks:
            errors.append(f"only {len(results)} of {ntasks} tasks reported")
        for name, _, expect, _ in meta:
            miss = [l for l in expect if l not in labels[name]]
            if miss:
                errors.append(f"vacuity guard: {name} never reached {miss}")
            if per.get(name, {}).get("checks", 0) == 0:
                errors.append(f"vacuity guard: {name} evaluated no assertion")
    wall = time.time() - t0
    cov = dict(
        states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=tot["validated"],
        samples=samples or [dict(note="no completed path")],
        explanation="states = feasible symbolic paths of the real code explored to completion; transitions = solver-decided "
                    "branches and lazily split symbolic selectors; every assertion is decided by z3 for all values on its path; "
                    "traces_validated = path models re-run with plain Python values on the real code",
        obligations=tot["obligations"], assertions=tot["checks"], assertions_ground=tot["ground_checks"],
        solver_queries=tot["queries"], solver_seconds=round(tot["solver_s"], 2),
        functions_encoded=sorted(encoded), harnesses={
            n: dict(bounds=b, stubs=s, expect=e, **{k: (round(v, 2) if isinstance(v, float) else v)
                                                    for k, v in per.get(n, {}).items()})
            for n, b, e, s in meta},
        paths_undecided=tot["undecided"], undecided=undecided[:20], not_explored=incomplete, errors=errors)
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=cov, wall_s=round(wall, 2), violations=1 if viol else 0,
              assumptions=["bounds as stated per harness in coverage.harnesses; nothing is claimed outside them",
                           "z3 is sound; Python-level proxies model int/bool/str operations they implement, "
                           "every reported counterexample is replayed with plain values"])
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not a.only:
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for n in sorted(per):
        d = per[n]
        print(f"  {n}: paths={d['paths']} checks={d['checks']} smt={d['obligations']} queries={d['queries']} "
              f"solver={d['solver_s']:.1f}s cpu={d['wall']:.1f}s")
    for tag, msg in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[tag]['what']}")
    if viol:
        os.makedirs(VERIF + "/out", exist_ok=True)
        rec = dict(property=prop, tier=a.tier, harness=viol["harness"], split=viol["split"], msg=viol["msg"],
                   tag=viol.get("tag"), model=viol["model"], trace=viol.get("trace"), notes=viol.get("notes"))
        blob = json.dumps(rec, indent=1, default=str)
        path = f"{VERIF}/out/{prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
        with open(path, "w") as f:
            f.write(blob)
        print(f"harness {viol['harness']}: {viol['msg']}")
        print(f"  tag={viol.get('tag')} symbolic={viol.get('symbolic_msg')}")
        for n, v in (viol.get("trace") or [])[:40]:
            print("   ", n, "=", v)
        for n in (viol.get("notes") or [])[:20]:
            print("    note:", n)
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if errors:
        for e in errors[:3]:
            print("ERROR (no verdict):", e[:300] + (" ... " + e[-900:] if len(e) > 300 else ""))
        print(f"({len(errors)} errors)")
        sys.exit(2)
    if tot["undecided"]:
        print(f"WARNING: {tot['undecided']} paths could not be decided for all values; checked at one model each: {undecided[:2]}")
    if incomplete:
        print(f"WARNING: {len(incomplete)} task(s) not explored to the end: {incomplete[:2]}")
    print(f"{prop} holds within bounds: {tot['paths']} paths, {tot['obligations']} SMT obligations, "
          f"{tot['queries']} queries, {wall:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
