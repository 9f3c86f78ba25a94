"""C03: pools are isolated from each other and leave no running worker behind."""
from collections import Counter

from .. import env, procsim
from ..core import Violation
from . import _pool as P

ID = "C03"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least two worker processes existed; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 6000, 120000
CPUS = [2, 4, 8]
BOUND = 30.0
STOP_BOUND = 12.0


def setup():
    for c in CPUS:
        env.load(cpu=c, numba="absent")


def gen(rng, idx):
    cpu = rng.choice(CPUS)
    npools = rng.choice([1, 2, 2, 3])
    pools = []
    for i in range(npools):
        nw = rng.choice([None, 2, 2, 3])
        lo = P.effective_workers(cpu, nw)
        pools.append({"n_workers": nw, "n": lo + rng.randrange(0, 6), "flav": rng.choice(P.FLAVOURS + ["huge"]), "pflav": rng.choice(P.PFLAVOURS),
                      "durset": rng.choice(["zero", "short", "mixed", "long", "slow"]),
                      "fail": rng.randrange(8) if rng.random() < 0.12 else None})
    ops = []
    todo = [["create", i] for i in range(npools)]
    for i in range(npools):
        seq = [["create", i]]
        for _ in range(rng.randrange(0, 4)):
            seq.append(rng.choice([["compute", i], ["compute", i], ["update", i, rng.randrange(0, 6)]]))
            if rng.random() < 0.15:
                seq.append(["idle", i, rng.choice([0.3, 15.0, 2e3])])
        seq.append(rng.choice([["close", i], ["close", i], ["drop", i], None]))
        if rng.random() < 0.3:
            seq.append(["compute", i])
        if rng.random() < 0.2:
            seq += [["create", i], ["compute", i]]
        todo.append([s for s in seq if s])
    seqs = todo[npools:]
    if rng.random() < 0.4:                    # one after another
        for s in seqs:
            ops += s
    else:                                     # interleaved lifetimes
        seqs = [list(s) for s in seqs]
        while any(seqs):
            s = rng.choice([s for s in seqs if s])
            ops.append(s.pop(0))
    faults = P.gen_stalls(rng)
    mode = rng.choice(["none", "none", "int", "int", "int", "group", "kill", "refuse", "int2"])
    if mode in ("int", "int2"):
        for _ in range(2 if mode == "int2" else 1):
            faults.append({"kind": "interrupt", "task": "P", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 160)})
    elif mode == "group":
        faults.append({"kind": "interrupt_group", "t": rng.random() * rng.choice([0.02, 0.1, 0.3])})
    elif mode == "kill":
        faults.append({"kind": "kill_self", "task": f"W{rng.randrange(6)}", "where": rng.choice(["before", "after"]), "op": rng.randrange(0, 30)})
    elif mode == "refuse":
        faults.append({"kind": "refuse-start", "n": rng.randrange(0, 6)})
    return {"cpu": cpu, "pools": pools, "ops": ops, "timing": P.gen_timing(rng), "faults": faults,
            "exit": rng.choice(["exit", "exit", "close-all"])}


class _Pool:
    pass


def run(case, res):
    z = env.load(cpu=case["cpu"], numba="absent")
    stalls = sum(f.get("dur", 0.0) for f in case["faults"])
    sim = P.new_sim(case, res, max_time=BOUND + 3 * stalls + STOP_BOUND * (len(case["ops"]) + 2) + sum(o[2] for o in case["ops"] if o[0] == "idle"), max_steps=600_000)
    log = []
    live = {}
    all_procs = []     # (pool label, proc)
    stopped = []       # pools that must have no running worker
    stage = ["start"]
    nfault = lambda: sum(v for k, v in sim.fired.items() if k != "stall")

    def job_for(i, gen_no):
        spec = case["pools"][i]
        tag = f"pool{i}.{gen_no}"
        flav = spec["flav"]
        durs = P.DURSETS.get(spec["durset"], [0.0, 0.05, 0.4])
        job = P.Job(tag, "array" if flav == "huge" else flav, log, durs, salt=tag)
        if flav == "huge":
            job.huge = True
        if spec["fail"] is not None:
            cnt = [0]
            k = spec["fail"]

            def fails(p, job=job, orig=P.Job.__call__):
                cnt[0] += 1
                if cnt[0] == k + 1:
                    procsim.ACTIVE.fire("job-exception")
                    raise ValueError("job")
                return orig(job, p)
            fails.job = job
            return job, fails
        if flav == "huge":
            import numpy as np

            def big(p, job=job):
                P.Job.__call__(job, p)
                return (job.salt, np.full(12000, P._num(p), dtype=float))
            job.expect = lambda p: (job.salt, np.full(12000, P._num(p), dtype=float))
            return job, big
        return job, job

    def must_stop(pool, why):
        """All worker processes of the pool end within the bound, without further calls."""
        deadline = sim.now + STOP_BOUND
        ps = pool.procs
        while any(p._exitcode is None and p._task.state != "dead" for p in ps):
            if sim.now > deadline:
                raise Violation("worker-left-running", f"{sum(p._exitcode is None for p in ps)} of {len(ps)} workers of {pool.label} still "
                                                       f"run {STOP_BOUND} s after {why}")
            sim.sleep(0.25)
        pool.stopped = True
        res.count("stop-checked")
        if why not in ("drop",):
            pool.log_len = len([1 for t, _ in log if t == pool.label])

    def patient(f, *a):
        for _ in range(4):
            try:
                return f(*a)
            except KeyboardInterrupt:
                pass

    gens = Counter()

    def step(op):
        kind, i = op[0], op[1]
        pool = live.get(i)
        spec = case["pools"][i]
        if kind == "idle":
            sim.sleep(op[2])
            return
        if kind == "create":
            if pool is not None:
                return
            pool = _Pool()
            gens[i] += 1
            pool.label = f"pool{i}.{gens[i]}"
            pool.closed = pool.stopped = pool.failed = False
            job, fn = job_for(i, gens[i])
            pool.job = job
            pool.params = P.make_params(spec["pflav"], spec["n"], 1 + i)
            first = len(sim.procs)
            before = nfault()
            kw = {} if spec["n_workers"] is None else {"n_workers": spec["n_workers"]}
            try:
                pool.m = z.DispenserManager(compute_func=fn, params_list=pool.params, **kw)
                pool.procs = sim.procs[first:]
                live[i] = pool
            except (Exception, KeyboardInterrupt) as e:
                pool.procs = sim.procs[first:]
                if nfault() == before and not prior_loss(pool):
                    raise Violation("unexpected-error", f"creating {pool.label}: {type(e).__name__}: {e}")
                e = None
                res.count("creation-failed")
                if nfault() - before <= 1:
                    stopped.append((pool, "failed or interrupted creation"))
            all_procs.append(pool)
            return
        if pool is None:
            return
        before = nfault()
        if kind == "compute":
            nlog = len(log)
            try:
                r = pool.m.compute()
            except (Exception, KeyboardInterrupt) as e:
                if nfault() == before and not prior_loss(pool):
                    raise Violation("unexpected-error", f"computing on {pool.label}: {type(e).__name__}: {e}")
                pool.failed = True
                interrupted = isinstance(e, KeyboardInterrupt)
                e = None
                res.count("compute-interrupted" if interrupted else "compute-failed")
                if nfault() - before <= 1:
                    stopped.append((pool, "an interrupted computation" if interrupted else "a failed computation"))
                return
            if r is None:
                if not (pool.closed or pool.failed or prior_loss(pool)):
                    raise Violation("no-result", f"{pool.label}: compute returned None on an open pool")
                return
            if pool.closed:
                raise Violation("closed-pool-computes", f"{pool.label}: compute on a closed pool returned {r!r:.100}")
            P.check_results(pool.job, pool.params, r, pool.label)
            foreign = {t for t, _ in log[nlog:]} - {pool.label}
            if foreign:
                raise Violation("foreign-function", f"jobs of {foreign} were run by a computation on {pool.label}")
            mine = Counter(k for t, k in log[nlog:])
            if mine != Counter(P.pkey(p) for p in pool.params) and not pool.failed:
                raise Violation("not-exactly-once", f"{pool.label}: {mine}")
            res.count("computed")
        elif kind == "update":
            new = P.make_params(spec["pflav"], P.effective_workers(case["cpu"], spec["n_workers"]) + op[2], 10 + i)
            pool.m.update_params(new)
            pool.params = new
        elif kind == "close":
            for attempt in range(3):
                try:
                    pool.m.close()
                    break
                except KeyboardInterrupt:
                    res.count("close-interrupted")
            pool.closed = True
            stopped.append((pool, "close()"))
        elif kind == "drop":
            del live[i]
            pool.m = None
            if nfault() == before:               # an interrupt inside __del__ cannot be handled by anyone
                stopped.append((pool, "drop"))

    def prior_loss(pool):
        """A worker of this pool died, or the pool failed earlier: an error (or refusal) is the right answer."""
        return pool.failed or getattr(pool, "hurt", False) or any(
            p._exitcode not in (None, 0) or p._task.state == "dead" or p._task.pending_exc is not None for p in getattr(pool, "procs", ()))

    def n_ended(pool):
        """Number of workers of the pool that the program itself has ended by force."""
        return sum(getattr(p, "_killed_by", "") in ("terminated", "kill()") for p in pool.procs)

    def program():
        with env.quiet():
            for op in case["ops"]:
                stage[0] = str(op)
                nf = nfault()
                others = [p for i, p in live.items() if i != op[1]]
                before = {p: n_ended(p) for p in others}
                try:
                    step(op)
                except KeyboardInterrupt:        # struck in harness code between two calls
                    p = live.get(op[1])
                    if p is not None:
                        p.hurt = True
                for p in others:
                    if n_ended(p) != before[p]:
                        raise Violation("foreign-worker-stopped", f"{n_ended(p) - before[p]} workers of {p.label} were terminated by {op} on pool{op[1]}")
                if nfault() - nf > 0 and op[1] in live and op[0] in ("update",):
                    live[op[1]].hurt = True
            stage[0] = "stop-check"
            sim.faults.clear()
            patient(sim.sleep, 0.5)                # lets timed interrupts pass
            for pool, why in stopped:
                must_stop(pool, why)
            for pool in live.values():             # a released pool stays released
                if pool.closed:
                    n = len(log)
                    if pool.m.compute() is not None or len(log) != n:
                        raise Violation("closed-pool-computes", f"{pool.label} still computes after close()")
            stage[0] = case["exit"]
            if case["exit"] == "close-all":
                for i in sorted(live):
                    patient(live[i].m.close)
                for i in sorted(live):
                    must_stop(live[i], "close()")
            stage[0] = "program exit"
            end = sim.now
            procsim.program_exit(sim)
            if sim.now - end > STOP_BOUND:
                raise Violation("slow-exit", f"program exit took {sim.now - end:.1f} s")
            left = [p for p in sim.procs if p._exitcode is None]
            if left:
                raise Violation("worker-left-running", "after program exit")
            stage[0] = "exited"
    why = sim.run(program)
    live.clear()
    P.finish(sim, case, res)
    if nfault():
        res.count("runs-with-failure")
    if sim.main.error is not None:
        e = sim.main.error
        if isinstance(e, Violation):
            raise e
        raise Violation("unexpected-error", f"{stage[0]}: {type(e).__name__}: {e}")
    if why != "main-done":
        kind = "exit-hangs" if stage[0] == "program exit" else "never-returns"
        res.violate(kind, f"stage {stage[0]}: " + P.stuck_report(sim), sig=P.known_hang_sig(sim))
