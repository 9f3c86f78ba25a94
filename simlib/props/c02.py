"""C02: pool calls always finish; failing, dead or refused workers give an error within a bounded time."""
from .. import env
from ..core import Violation
from . import _pool as P

ID = "C02"
LEVEL = "exploration"
RULE = ("run counts as non-trivial when at least two worker processes existed; distinct = distinct event-sequence hash (every "
        "operation with its virtual time, deliveries, exits and faults)")
QUICK_RUNS, THOROUGH_RUNS = 6000, 120000
CPUS = [None, 1, 2, 3, 4, 8]
BOUND = 20.0


def setup():
    for c in CPUS:
        try:
            env.load(cpu=c, numba="absent")
        except Exception:
            pass


def gen(rng, idx):
    c = P.gen_plan(rng, max_params=8)
    c["cpu"] = rng.choice(CPUS)
    c["n_workers"] = rng.choice([None, None, 2, 3, 4, 1])
    lo = P.effective_workers(c["cpu"], c["n_workers"])
    for r in c["rounds"]:
        r["n"] = lo + rng.randrange(0, 8)
    c["timing"] = P.gen_timing(rng)
    c["flav"] = rng.choice(P.FLAVOURS)
    c["durset"] = rng.choice(["zero", "short", "mixed", "long"])
    if rng.random() < 0.1:
        c["durset"] = "minutes"
    for r in c["rounds"]:
        r["idle"] = rng.choice([0.0, 0.0, 0.0, 0.3, 15.0, 2e3])
        r["mutate"] = rng.choice([None]*9 + P.MUTATIONS + ["clear"])
    f = P.gen_stalls(rng)
    mode = rng.choice(["none", "job", "job", "kill-op", "kill-op", "kill-t", "kill-t", "kill-parent-op", "refuse", "mixed", "many", "pickle"])
    tot = sum(r["n"] for r in c["rounds"])

    def one(m):
        if m == "job":
            return {"kind": "job", "n": rng.randrange(tot), "exc": rng.choice(sorted(P.FAIL_EXCS))}
        if m == "kill-op":
            return {"kind": "kill_self", "task": f"W{rng.randrange(4)}", "where": rng.choice(["before", "after"]),
                    "op": rng.randrange(0, 40)}
        if m == "kill-t":
            base = sum(r["idle"] for r in c["rounds"][:rng.randrange(1, 4)]) if rng.random() < 0.5 else 0.0
            return {"kind": "kill", "t": (rng.random() if rng.random() < 0.4 else 1.0) * base + (
                rng.choice([1e-3, 1e-2, 2e-2, 5e-2, 0.1]) if c["durset"] != "minutes" else 300.0) * rng.random() * 2, "n": rng.randrange(8)}
        if m == "kill-parent-op":
            return {"kind": rng.choice(["kill_worker", "kill_worker", "kill_all"]), "task": "P", "where": rng.choice(["before", "after"]),
                    "op": rng.randrange(0, 80), "n": rng.randrange(8)}
        if m == "pickle":
            return {"kind": "pickle", "what": rng.choice(["result", "param"]), "n": rng.randrange(tot),
                    "how": rng.choice(P.BadPickle.KINDS)}
        return {"kind": "refuse-start", "n": rng.randrange(0, 4)}
    if mode in ("mixed", "many"):
        for _ in range(2 if mode == "mixed" else 4):
            f.append(one(rng.choice(["job", "kill-op", "kill-t", "kill-parent-op", "pickle"] + (["refuse"] if mode == "mixed" else []))))
    elif mode != "none":
        f.append(one(mode))
    c["faults"] = f
    if mode in ("job", "many") and rng.random() < 0.25:
        c["flav"] = "huge"           # results that do not fit into a pipe stay unrequested after the failure
    if lo > 1 and rng.random() < 0.12:
        # one of the first jobs never ends (each worker gets one of them), another one fails: the call has to give up
        h, n = rng.sample(range(lo), 2)
        c["hang"] = [h] + ([k for k in range(lo) if k not in (h, n)] if rng.random() < 0.3 else [])
        c["faults"] = [x for x in f if x["kind"] == "stall"] + [{"kind": "job", "n": n, "exc": rng.choice(sorted(P.FAIL_EXCS))}]
    return c


def directed():
    base = {"n_workers": None, "rounds": [{"update": False, "n": 3}], "flav": "int", "pflav": "int", "verbose": False, "durset": "short",
            "timing": {"profile": "tight", "feeder": "tight"}, "faults": [], "seed": 1}
    return [dict(base, cpu=c) for c in CPUS] + [dict(base, cpu=c, n_workers=2, verbose=True) for c in CPUS]


def run(case, res):
    try:
        z = env.load(cpu=case["cpu"], numba="absent")
    except Exception as e:
        raise Violation("import-fails", f"importing zernpy on a machine reporting {case['cpu']} CPUs: {type(e).__name__}: {e}")
    stalls = sum(f.get("dur", 0.0) for f in case["faults"])
    work = sum(rd.get("idle", 0.0) + rd["n"] * max(P.DURSETS[case["durset"]]) for rd in case["rounds"])
    sim = P.new_sim(case, res, max_time=BOUND + 3 * stalls + 2 * work, max_steps=2_000_000)
    if case["durset"] == "minutes":
        sim.drag = 0.5
        sim.max_time += 2000.0
        sim.busy_budget = 6_000_000
    log = []
    fails = {f["n"]: P.FAIL_EXCS[f["exc"]] for f in case["faults"] if f["kind"] == "job"}
    job = P.Job("A", case["flav"], log, P.DURSETS[case["durset"]])
    job.fail = set(fails)
    job.hang = set(case.get("hang", ()))
    job.fail_exc = lambda n: fails[n]()
    job.untransferable = {f["n"]: f["how"] for f in case["faults"] if f["kind"] == "pickle" and f["what"] == "result"}
    bad_params = {f["n"]: f["how"] for f in case["faults"] if f["kind"] == "pickle" and f["what"] == "param"}
    start = [0]

    def params_for(r, n):
        """Parameters of a round; the bad ones are counted over all rounds."""
        params = P.make_params(case["pflav"], n, r + 1)
        for i in range(n):
            if start[0] + i in bad_params:
                params[i] = P.BadPickle(bad_params[start[0] + i])
                sim.fire("untransferable-parameter")
        start[0] += n
        return params
    stage = ["create"]

    def faulted():
        return any(k in sim.fired for k in ("job-exception", "kill", "kill_self", "kill_worker", "kill_all", "start-refused", "untransferable",
                                           "untransferable-parameter", "too-few-parameters"))

    def program():
        with env.quiet() as q:
            params = params_for(0, case["rounds"][0]["n"])
            kw = {} if case["n_workers"] is None else {"n_workers": case["n_workers"]}
            try:
                m = z.DispenserManager(compute_func=job, params_list=params, verbose_info=case["verbose"], **kw)
            except Exception as e:
                if isinstance(e, ValueError) and "sence" in str(e):
                    res.count("documented-refusal")
                    return
                if not faulted():
                    raise Violation("unexpected-error", f"creation failed without any fault: {type(e).__name__}: {e}")
                res.count("error:create")
                return
            failed = False
            for r, rd in enumerate(case["rounds"]):
                stage[0] = f"update {r}"
                if rd.get("idle"):
                    sim.sleep(rd["idle"])
                if r > 0 and rd["update"]:
                    new = params_for(r, rd["n"])
                    try:
                        m.update_params(new)
                    except Exception as e:
                        if not failed:
                            raise Violation("unexpected-error", f"update_params: {type(e).__name__}: {e}")
                    params = new
                stage[0] = f"compute {r}"
                nwarn = len(q.list)
                was = None
                if rd.get("mutate"):
                    was = P.mutate(params, rd["mutate"], P.effective_workers(case["cpu"], case["n_workers"]))
                    res.count("changed-in-place")
                try:
                    results = m.compute()
                except Exception as e:
                    if was is not None and len(params) < P.effective_workers(case["cpu"], case["n_workers"]):
                        sim.fire("too-few-parameters")
                    if not faulted():
                        raise Violation("unexpected-error", f"{stage[0]} failed without any fault: {type(e).__name__}: {e}")
                    failed = True
                    res.count("error:compute")
                    continue
                if results is None:
                    if not faulted() or len(q.list) == nwarn:
                        raise Violation("no-result", f"{stage[0]}: compute returned None" + (
                            " silently" if faulted() else " without any fault"))
                    res.count("refused")
                    continue
                P.check_results(job, params if was is None else P.which(job, was, params, results), results, stage[0])
                res.count("completed")
            stage[0] = "close"
            m.close()
            stage[0] = "closed"
    why = sim.run(program)
    P.finish(sim, case, res)
    if faulted():
        res.count("runs-with-failure")
    if sim.main.error is not None:
        e = sim.main.error
        if isinstance(e, Violation):
            raise e
        raise Violation("unexpected-error", f"{stage[0]}: {type(e).__name__}: {e}")
    if why != "main-done":
        res.violate("never-returns", f"stage {stage[0]}: " + P.stuck_report(sim), sig=P.known_hang_sig(sim))
