#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--runs N] [--wall S] [--seed N] [--workers N] [--replay FILE] [--trace]

Exit 0: the property held on every simulated run. Exit 1 + "VIOLATION property=<id> replay=<path>": it did not.
Any other exit status: the harness could not give an answer."""
import os
import sys

VENV = "/opt/venv/bin/python"
FIX = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "NPY_DISABLE_CPU_FEATURES": "X86_V4 AVX512_ICL AVX512_SPR", "MPLCONFIGDIR": "/tmp/zsim_mpl"}
if any(os.environ.get(k) != v for k, v in FIX.items() if not (k == "PYTHONHASHSEED" and os.environ.get("ZSIM_HASHSEED"))) \
        and not os.environ.get("ZSIM_EXEC"):
    env = dict(os.environ, **FIX, ZSIM_EXEC="1")
    if env.get("ZSIM_HASHSEED"):
        env["PYTHONHASHSEED"] = env["ZSIM_HASHSEED"]
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe] + sys.argv, env)

import argparse  # noqa: E402
import json  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402
from pathlib import Path  # noqa: E402

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
_time, _sleep = time.time, time.sleep
OUT, ERR = sys.stdout, sys.stderr      # an abandoned simulated task may leave other streams behind


def say(*a, to=OUT):
    print(*a, file=to, flush=True)


from simlib import core  # noqa: E402


def replay_file(mod, path, trace):
    d = json.loads(Path(path).read_text())
    if hasattr(mod, "setup"):
        mod.setup()
    res = core.execute(mod, d["case"], keep_trace=trace)
    if trace:
        say("\n".join(res.trace))
    if res.kind is None:
        say(f"replay of {path}: property {mod.ID} held")
        return 0
    say(f"{res.kind}: {res.detail}")
    say(f"digest {res.digest} expected {d.get('digest')}")
    say(f"VIOLATION property={mod.ID} replay={path}")
    return 1


def write_replay(mod, case, res, note):
    folder = HERE / "replays" / mod.ID
    folder.mkdir(parents=True, exist_ok=True)
    path = folder / f"{res.kind}-{res.digest}.json"
    path.write_text(json.dumps({"property": mod.ID, "kind": res.kind, "detail": res.detail, "digest": res.digest, "sig": res.sig,
                                "case": case, "note": note, "trace": res.trace[-400:]}, indent=1, default=str))
    return path


def fresh_replay(pid, path):
    p = subprocess.Popen([sys.executable, str(HERE / "check.py"), pid, "--replay", str(path)], stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, env=os.environ)
    try:
        out, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        p.kill()
        return 2, "timeout"
    return p.returncode, out.decode(errors="replace")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that everything needed is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--digests", help="write the digest of every run here")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = _time()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    if a.setup:
        from simlib import env
        z = env.load(cpu=4, numba="absent")
        say("python", sys.version.split()[0], "package", z.pkg.__file__)
        (HERE / "evidence").mkdir(exist_ok=True)
        return 0
    mod = core.load_prop(a.id)
    if a.replay:
        return replay_file(mod, a.replay, a.trace)
    thorough = a.tier == "thorough"
    runs = a.runs or (mod.THOROUGH_RUNS if thorough else mod.QUICK_RUNS)
    wall = a.wall or (getattr(mod, "THOROUGH_WALL", 3000) if thorough else getattr(mod, "QUICK_WALL", 240))
    workers = a.workers or min(8, os.cpu_count() or 2)
    workers = max(1, min(workers, runs))
    if hasattr(mod, "setup"):
        mod.setup()
    known = core.known_findings(mod.ID)
    errors, violations = [], []

    # directed cases first: known findings (must be reported as such) and the regression corpus
    known_seen = {}
    for k in known:
        res = core.execute(mod, k["case"])
        if res.kind is None:
            say(f"note: known finding {k['name']} no longer occurs in its recorded case")
        elif core.is_known(res, known):
            known_seen[k["name"]] = known_seen.get(k["name"], 0) + 1
            say(f"KNOWN-FINDING: property={mod.ID} {k['name']}: {k['what']}")
        else:
            violations.append({"run": "known:" + k["name"], "kind": res.kind, "detail": res.detail, "case": k["case"]})
    corpus_file = HERE / "corpus" / f"{mod.ID}.jsonl"
    corpus = []
    if corpus_file.exists():
        corpus = [json.loads(x)["case"] for x in corpus_file.read_text().splitlines() if x.strip()]
    corpus += list(mod.directed()) if hasattr(mod, "directed") else []
    aggs = []
    t_search = _time()
    if corpus and not violations:
        ag, er = core.run_batch(mod, seed, len(corpus), min(workers, len(corpus)), wall, known, explicit=corpus)
        aggs += ag; errors += er
    corpus_agg = core.merge(aggs)
    if not corpus_agg["violations"] and not violations and not errors:
        ag, er = core.run_batch(mod, seed, runs, workers, wall, known)
        errors += er
        m = core.merge(ag)
    else:
        m = corpus_agg
    violations += m["violations"]
    search_s = max(_time() - t_search, 1e-6)

    # determinism spot check: the same runs again, split differently over fresh worker processes
    spot = {"rechecked": 0, "mismatches": 0}
    if not violations and not errors:
        k = min(getattr(mod, "SPOT", 24), m["runs"])
        ag2, er2 = core.run_batch(mod, seed, k, min(3, workers), 60, known)
        d2 = core.merge(ag2)["digests"]
        for i, d in d2.items():
            if i in m["digests"]:
                spot["rechecked"] += 1
                spot["mismatches"] += d != m["digests"][i]
    if a.digests:
        Path(a.digests).write_text(json.dumps(m["digests"], sort_keys=True))

    code = 0
    vio_out = []
    if violations:
        violations.sort(key=lambda v: str(v["run"]).zfill(12))
        v = violations[0]
        best, res, tried = core.minimise(mod, v["case"], v["kind"], budget=getattr(mod, "MIN_BUDGET", 60))
        attempts = []
        if res is not None:
            full = core.execute(mod, best, keep_trace=True)
            if full.kind is not None:
                attempts.append((best, full, f"minimised from run {v['run']} in {tried} executions"))
        attempts.append((v["case"], None, f"run {v['run']} as found"))
        for case, r, note in attempts:
            if r is None:
                r = core.execute(mod, case, keep_trace=True)
                if r.kind is None:
                    r.kind, r.detail = v["kind"], v["detail"]
            path = write_replay(mod, case, r, note)
            rc, out = fresh_replay(mod.ID, path)
            if rc == 1:
                say(f"{r.kind}: {r.detail[:1500]}")
                say(f"VIOLATION property={mod.ID} replay={path}")
                vio_out.append({"kind": r.kind, "detail": r.detail[:500], "replay": str(path), "note": note})
                code = 1
                break
            path.unlink()
        if code == 0:
            errors.append(f"violation {v['kind']} in run {v['run']} ({v['detail'][:300]}) did not replay in a fresh process: {out[-500:]}")
    if errors and code == 0:
        code = 2
        for e in errors[:3]:
            say("HARNESS ERROR:", e, to=ERR)

    if not a.no_evidence:
        per_h = 3600.0 / search_s
        faults = {k[6:]: n for k, n in sorted(m["counts"].items()) if k.startswith("fault:")}
        ev = {"property": mod.ID, "tier": "thorough" if thorough else "quick", "seed": seed, "level": mod.LEVEL,
              "coverage": {
                  "evaluations": m["runs"] + (corpus_agg["runs"] if m is not corpus_agg else 0),
                  "distinct_nontrivial": m["distinct_nontrivial"],
                  "rule": mod.RULE,
                  "samples": m["samples"][:4] or ["-"],
                  "seeded_runs": m["runs"], "corpus_runs": corpus_agg["runs"],
                  "distinct_event_histories": m["distinct"],
                  "runs_per_hour": int(m["runs"] * per_h), "seeds_per_hour": int(m["runs"] * per_h),
                  "simulated_seconds": round(m["simtime"], 3),
                  "scheduling_steps": m["steps"],
                  "faults_injected": faults,
                  "runs_with_fault": {k[6:]: n for k, n in sorted(m["probe_runs"].items()) if k.startswith("fault:")},
                  "probes": {k: n for k, n in sorted(m["counts"].items()) if not k.startswith("fault:")},
                  "real_components": getattr(mod, "REAL", []),
                  "stubbed_components": getattr(mod, "STUB", []),
                  "determinism_recheck": spot,
                  "known_findings_seen": {**m["known"], **{k: v + m["known"].get(k, 0) for k, v in known_seen.items()}},
                  "stopped_at_deadline": m["stopped_at_deadline"],
                  "workers": workers,
              },
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(_time() - t0, 2),
              "violations": len(vio_out)}
        (HERE / "evidence").mkdir(exist_ok=True)
        if vio_out:
            ev["coverage"]["violations_found"] = vio_out
        (HERE / "evidence" / f"{mod.ID}.json").write_text(json.dumps(ev, indent=1))
    say(f"{mod.ID}: {m['runs']} runs, {m['distinct']} distinct histories, {search_s:.1f} s, exit {code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
