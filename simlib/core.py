"""Batch runner, minimiser, replay, evidence and known findings shared by all checks."""
import gc
import hashlib
import importlib
import json
import os
import signal
import sys
import tempfile
import time as _time
import traceback
import warnings
from pathlib import Path

from .choice import derive_seed, rng_for

_real_time = _time.time
_real_sleep = _time.sleep
VERIF = Path(__file__).resolve().parent.parent
IDS = [f"C{i:02d}" for i in range(1, 17)]


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:2000]


class HarnessError(Exception):
    """The harness itself failed (never a verdict)."""


class Result:
    """Outcome of one simulated run."""

    def __init__(self):
        self.kind = None
        self.detail = ""
        self.sig = None            # structured signature used by the known-findings list
        self.counts = {}
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False
        self._h = hashlib.sha256()
        self.trace = []
        self.choices = None
        self.keep_trace = False

    def note(self, *items):
        s = "|".join(str(i) for i in items)
        self._h.update(s.encode("utf-8", "replace") + b"\n")
        if self.keep_trace and len(self.trace) < 4000:
            self.trace.append(s)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def violate(self, kind, detail="", sig=None):
        if self.kind is None:
            self.kind, self.detail, self.sig = kind, str(detail)[:3000], sig

    @property
    def digest(self):
        return self._h.hexdigest()[:16]


def load_prop(pid):
    from . import meta
    return meta.describe(importlib.import_module(f"simlib.props.{pid.lower()}"))


def gen_case(mod, seed, idx):
    rng = rng_for(mod.ID, seed, idx)
    case = mod.gen(rng, idx)
    case.setdefault("seed", derive_seed(mod.ID, "sched", seed, idx))
    case["run"] = idx
    return case


class _Alarm(BaseException):
    pass


def _subject_place(frames):
    """Innermost place in the code under test."""
    from .env import is_subject
    w = [f"{f.f_code.co_qualname}" for f, _ in frames if is_subject(f.f_code)]
    return w[-1] if w else None


def execute(mod, case, keep_trace=False, wall_limit=100):
    """Run one case; harness failures propagate as HarnessError."""
    res = Result()
    res.keep_trace = keep_trace

    stuck_in = []

    def on_alarm(sig, frame):
        for f in list(sys._current_frames().values()) + [frame]:
            w = _subject_place(traceback.walk_stack(f))
            if w is not None:
                stuck_in.append(w)
        raise _Alarm()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(wall_limit)
    streams = sys.stdout, sys.stderr
    warn_state = warnings.filters, list(warnings.filters), warnings.showwarning, warnings._showwarnmsg_impl
    try:
        mod.run(case, res)
    except Violation as v:
        res.violate(v.kind, v.detail)
    except _Alarm:
        if not stuck_in:
            raise HarnessError(f"wall limit {wall_limit} s in run {case.get('run')}")
        res.violate("never-returns", f"no end after {wall_limit} s of real time, last in {stuck_in[0]}")
    except HarnessError:
        raise
    except BaseException as e:
        where = _subject_place(traceback.walk_tb(e.__traceback__))
        if where is None:
            raise HarnessError(f"run {case.get('run')}: " + traceback.format_exc())
        res.violate("unexpected-error", f"{type(e).__name__}: {e} (in {where})")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = streams              # an abandoned task may leave its own behind
        warnings.filters, warnings.showwarning, warnings._showwarnmsg_impl = warn_state[0], warn_state[2], warn_state[3]
        warnings.filters[:] = warn_state[1]
        warnings._filters_mutated()
    res.note("END", res.kind)
    return res


# ----------------------------------------------------------------------------------------------- known findings
def known_findings(pid):
    p = VERIF / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(res, known):
    if res.kind is None:
        return None
    for k in known:
        if k["kind"] == res.kind and k.get("sig") == res.sig:
            return k
    return None


# ----------------------------------------------------------------------------------------------------- minimise
def minimise(mod, case, kind, budget=60.0, log=None):
    """Shrink operations, faults and scheduling choices while the same kind of violation persists."""
    t0 = _real_time()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            r = execute(mod, c, wall_limit=60)
        except HarnessError:
            return None
        return r if r.kind == kind else None

    best = case
    r = fails(best)
    if r is None:
        return case, None, tried
    # 1. structure
    shrink = getattr(mod, "shrink", None) or generic_shrink
    improved = True
    while improved and _real_time() - t0 < budget * 0.6:
        improved = False
        for cand in shrink(best):
            if _real_time() - t0 > budget * 0.6:
                break
            rr = fails(cand)
            if rr is None and "choices" not in cand:
                for k in range(3):   # the schedule shifted: try a few others
                    c2 = dict(cand); c2["seed"] = derive_seed("min", cand["seed"], k)
                    rr = fails(c2)
                    if rr is not None:
                        cand = c2
                        break
            if rr is not None:
                best, r, improved = cand, rr, True
                break
    # 2. scheduling choices
    ch = list(r.choices or [])
    if ch and "choices" not in best:
        cand = dict(best); cand["choices"] = ch
        rr = fails(cand)
        if rr is not None:
            best, r = cand, rr
            while len(ch) and ch[-1] == 0:
                ch.pop()
            size = max(1, len(ch) // 2)
            while size >= 1 and _real_time() - t0 < budget:
                i = 0; changed = False
                while i < len(ch) and _real_time() - t0 < budget:
                    if any(ch[i:i + size]):
                        c2 = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:]
                        cand = dict(best); cand["choices"] = c2
                        rr = fails(cand)
                        if rr is not None:
                            ch = c2; best, r = cand, rr; changed = True
                    i += size
                if not changed or size == 1:
                    if size == 1:
                        break
                size //= 2
            while len(ch) and ch[-1] == 0:
                ch.pop()
            best = dict(best); best["choices"] = ch
    return best, r, tried


def generic_shrink(case):
    """Drop list entries under the keys that hold operations / faults / threads."""
    for key in ("faults", "ops", "threads", "history", "reader_ops", "params", "clock"):
        v = case.get(key)
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if key in ("params", "threads") and n - len(v[i:i + size]) < 1:
                        continue
                    c = dict(case); c[key] = v[:i] + v[i + size:]
                    yield c
                size //= 2
            for i, x in enumerate(v):
                if isinstance(x, list) and x and isinstance(x[0], (list, dict)):
                    for j in range(len(x)):
                        if len(x) > 1:
                            c = dict(case); c[key] = v[:i] + [x[:j] + x[j + 1:]] + v[i + 1:]
                            yield c


# -------------------------------------------------------------------------------------------------- batch runner
def _child(mod, seed, start, stride, count, deadline, out, known, explicit):
    gc.disable()
    agg = {"runs": 0, "digests": {}, "counts": {}, "simtime": 0.0, "steps": 0, "nontrivial": 0, "violations": [],
           "known": {}, "errors": [], "samples": [], "stopped_at_deadline": False, "probe_runs": {}}
    distinct_nt = set()
    for idx in range(start, count, stride):
        if _real_time() > deadline:
            agg["stopped_at_deadline"] = True
            break
        try:
            case = explicit[idx] if explicit is not None else gen_case(mod, seed, idx)
            res = execute(mod, case)
        except HarnessError as e:
            agg["errors"].append(str(e)[:3000])
            break
        agg["runs"] += 1
        d = res.digest
        agg["digests"][idx] = d
        agg["simtime"] += res.simtime
        agg["steps"] += res.steps
        for k, v in res.counts.items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
            agg["probe_runs"][k] = agg["probe_runs"].get(k, 0) + 1
        if res.nontrivial:
            distinct_nt.add(d)
        if len(agg["samples"]) < 2 and res.nontrivial:
            agg["samples"].append(compact(case))
        if res.kind is not None:
            k = is_known(res, known)
            if k is not None:
                agg["known"][k["name"]] = agg["known"].get(k["name"], 0) + 1
            else:
                agg["violations"].append({"run": idx, "kind": res.kind, "detail": res.detail, "case": case})
                break
        if idx % 8 == start % 8:
            gc.collect()
    agg["distinct_nontrivial_set"] = sorted(distinct_nt)
    Path(out).write_text(json.dumps(agg))


def compact(case, limit=1500):
    s = json.dumps(case, default=str)
    return s if len(s) <= limit else s[:limit] + "..."


def run_batch(mod, seed, count, workers, wall, known=(), explicit=None):
    """Fork `workers` children, each doing every `workers`-th run."""
    tmp = tempfile.mkdtemp(prefix="zsim_batch_")
    deadline = _real_time() + wall
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(workers):
        out = os.path.join(tmp, f"w{w}.json")
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                _child(mod, seed, w, workers, count, deadline, out, known, explicit)
                code = 0
            except BaseException:
                try:
                    Path(out + ".err").write_text(traceback.format_exc())
                except BaseException:
                    pass
            finally:
                os._exit(code)
        pids[pid] = out
    aggs, errors = [], []
    hard = deadline + 180
    live = dict(pids)
    stop_others = False
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if _real_time() > hard:
                for p in live:
                    os.kill(p, signal.SIGKILL)
                for p in live:
                    os.waitpid(p, 0)
                errors.append("worker killed at the wall limit")
                break
            _real_sleep(0.02)
            continue
        out = live.pop(pid, None)
        if out is None:
            continue
        if os.path.exists(out):
            a = json.loads(Path(out).read_text())
            aggs.append(a)
            errors += a["errors"]
            if a["violations"] and not stop_others:
                stop_others = True
                hard = min(hard, _real_time() + 5)   # others get a moment, then are stopped
                errors_ignored = True
        else:
            e = out + ".err"
            errors.append(Path(e).read_text() if os.path.exists(e) else f"worker died with status {st}")
    if stop_others:
        errors = [e for e in errors if "worker killed" not in e]
    for f in Path(tmp).iterdir():
        f.unlink()
    os.rmdir(tmp)
    return aggs, errors


def merge(aggs):
    m = {"runs": 0, "counts": {}, "probe_runs": {}, "simtime": 0.0, "steps": 0, "known": {}, "violations": [], "samples": [],
         "digests": {}, "stopped_at_deadline": False}
    nt = set()
    for a in aggs:
        m["runs"] += a["runs"]; m["simtime"] += a["simtime"]; m["steps"] += a["steps"]
        for f in ("counts", "known", "probe_runs"):
            for k, v in a[f].items():
                m[f][k] = m[f].get(k, 0) + v
        m["violations"] += a["violations"]; m["samples"] += a["samples"]
        m["digests"].update({int(k): v for k, v in a["digests"].items()})
        nt.update(a["distinct_nontrivial_set"])
        m["stopped_at_deadline"] |= a["stopped_at_deadline"]
    m["distinct_nontrivial"] = len(nt)
    m["distinct"] = len(set(m["digests"].values()))
    return m
