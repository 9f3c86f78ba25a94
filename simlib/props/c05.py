"""C05: saving is atomic for crashes, power loss, I/O errors, interrupts, failing serialization and concurrent readers."""
import os

import numpy as np

from .. import env, fssim
from ..core import Violation
from ..thrsim import instrument
from . import _psf as K
from . import _save as S

ID = "C05"
LEVEL = "exploration"
RULE = "run counts as non-trivial when at least one fault fired or two tasks were interleaved; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2400, 60000


def setup():
    for c in (4, 8, 2):
        z = env.load(cpu=c, numba="absent")
        instrument(z, env.is_subject)


def gen(rng, idx):
    pols = K.gen_pols(rng, 0.3)
    a = S.gen_amp(rng, pols)
    n_sav = rng.choice([1, 1, 1, 1, 2, 2, 3])
    n_read = rng.choice([0, 0, 1, 1, 2])
    savers = []
    for i in range(n_sav):
        s = S.gen_settings(rng, pols, a)
        s["overwrite"] = rng.random() < 0.8
        s["f32"] = rng.random() < 0.06
        s["repeat"] = 2 if rng.random() < 0.12 else 1
        savers.append(s)
    case = {"pols": pols, "a": a, "threads": savers, "readers": n_read, "same_process": rng.random() < 0.5,
            "old": rng.choice(["psf", "psf", "psf", "big", "none", "none", "garbage", "empty"]), "folder": rng.choice(S.FOLDERS),
            "switch": rng.choice([2, 2, 3, 5]), "short": rng.choice([0, 0, 0, 1]), "faults": [], "inst": None, "power": 2,
            "old_settings": S.gen_settings(rng, pols, a)}
    mode = rng.choice(["fault", "fault", "fault", "fault2", "inst", "quota", "none"])
    if mode.startswith("fault"):
        case["faults"] = [S.gen_fault(rng, f"S{rng.randrange(n_sav)}") for _ in range(2 if mode == "fault2" else 1)]
    elif mode == "inst":
        case["inst"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    elif mode == "quota":
        case["quota"] = rng.choice([0, 1, 50, 200, 400, 700, 1200, 3000])
    case["dirname"] = rng.choice(S.DIRNAMES)
    return case


def run(case, res):
    za = env.load(cpu=4, numba="absent")
    zs = [za]
    n = len(case["threads"])
    if not case["same_process"]:
        zb = env.load(cpu=8, numba="absent")
        zs = [za, zb, env.load(cpu=2, numba="absent")]
    w = S.World(case, res, "c05")
    try:
        with env.quiet() as q:
            _run(case, res, w, zs)
    finally:
        w.close()
        env.load(cpu=4, numba="absent")


def _run(case, res, w, zs):
    pols, savers = case["pols"], case["threads"]
    zof = lambda i: zs[i % len(zs)]
    objs, news, names = [], [], []
    counted = None
    for i, s in enumerate(savers):
        o = S.make(zof(i), pols, s, s["f32"])
        objs.append(o)
        b, name = w.ref_save(o, S.inst_mask(case["inst"]) if i == 0 else None)
        if i == 0:
            counted = w.counted
        news.append(b); names.append(name)
    old_obj = S.make(zs[0], pols, case["old_settings"])
    old, name = w.ref_save(old_obj)
    if name is None:
        raise Violation("unexpected-error", f"save without any fault: {w.error}")
    if len({x for x in names if x} | {name}) > 1:
        raise Violation("file-name", f"objects with the same polynomials and amplitudes are saved as {names + [name]}")
    arg, real_dir = w.folder(case["folder"])
    target = os.path.join(real_dir, name)
    old_state = S.content(old_obj)
    if case["old"] == "none":
        old = None
    elif case["old"] == "garbage":
        old = b"\x00\xff not a PSF file {" * 40
    elif case["old"] == "empty":
        old = b""
    elif case["old"] == "big":
        old = old.rstrip()[:-1] + b', "Comment": "' + b"x" * 9000 + b'"}'
    for f in os.listdir(os.path.join(w.root, "ref")):
        os.unlink(os.path.join(w.root, "ref", f))
    if old is not None:
        with open(target, "wb") as f:
            f.write(old)
    allowed = S.Allowed([old] + [b for b in news if b is not None])
    allowed_new = S.Allowed([b for b in news if b is not None])
    keep = all(not s["overwrite"] for s in savers)
    candidates = [S.content(o) for o in objs] + ([old_state] if case["old"] in ("psf", "big") else [])

    sim = fssim.FsSim(w.ch, res, w.root, case["faults"], case["switch"], case["short"], w.pkg_saved, case.get("quota"))
    seen = [old]

    def after(op, full):
        b = S.read_bytes(target)
        if b != seen[0]:
            if keep and seen[0] is not None and old is not None:
                raise_in_main.append(("overwritten", f"existing file changed by a save without permission ({op})"))
            seen[0] = b
        if not allowed.ok(b):
            raise_in_main.append(("torn-file", f"after {op} the file is neither the previous nor a new one: {S.brief(b)} (previous: {S.brief(old)})"))
        for _ in range(case["power"]):
            b = sim.journal.outcome(w.side, target)
            if not allowed.ok(b):
                raise_in_main.append(("torn-after-power-loss", f"power loss right after {op} may leave {S.brief(b)} (previous: {S.brief(old)})"))
        if raise_in_main and not sim.over:
            sim.over = "violation"
    raise_in_main = []
    sim.after = after
    outcome = {}

    def saver(i):
        def fn():
            import warnings
            inj = None
            for r in range(savers[i]["repeat"]):
                out = None
                try:
                    if case["inst"] and i == 0:
                        inj = S.Injected(w, case["inst"], counted)
                        with inj:
                            objs[i].save_json(abs_path=arg, overwrite=savers[i]["overwrite"])
                    else:
                        objs[i].save_json(abs_path=arg, overwrite=savers[i]["overwrite"])
                    out = ("ok", None)
                except (Exception, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    out = ("raised", e)
                outcome[i] = out
                if inj is not None and inj.fired:
                    sim.fault_hits += 1
        return fn

    readers = {}

    def reader(j):
        def fn():
            z = zof(j + 1)
            o = K.make_obj(z, [5])
            got = []
            for _ in range(3):
                try:
                    o.read_json(target if case["folder"] != "default" else os.path.join(w.pkg_saved[0], name))
                    got.append(("ok", S.content(o)))
                except (Exception, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    got.append(("raised", e))
                readers[j] = got
        return fn
    for i in range(len(savers)):
        same = case["same_process"]
        sim.add(f"S{i}", saver(i), 2001 if same else 2001 + i, 7000 + i if same else 7000)
    for j in range(case["readers"]):
        sim.add(f"R{j}", reader(j), 2001 if case["same_process"] else 2101 + j, 7100 + j)
    why = sim.run()
    final = S.read_bytes(target)
    sim.finish()
    res.choices = w.ch.record
    res.steps = sim.ops_total
    res.nontrivial = sim.fault_hits > 0 or sim.switches > 0
    res.count("file-operations", sim.ops_total)
    if raise_in_main:
        raise Violation(*raise_in_main[0])
    if why != "done":
        raise Violation("never-returns", f"savers and readers did not finish: {why}")
    if sim.outside:
        raise Violation("outside-write", str(sim.outside[:3]))
    if not allowed.ok(final):
        raise Violation("torn-file", f"at the end the file is neither the previous nor a new one: {S.brief(final)}")
    hit = {f[1] for f in sim.fired}
    quiet = sim.fault_hits == 0
    wrote = False
    for i, t in enumerate(sim.tasks[:len(savers)]):
        if t.error is not None:
            raise t.error
        o = outcome.get(i)
        if t.crashed or o is None:
            continue
        if o[0] == "raised":
            if quiet and sim.fault_hits == 0 and case.get("quota") is None and news[i] is not None:
                raise Violation("unexpected-error", f"save without any fault: {type(o[1]).__name__}: {o[1]}")
        else:
            if news[i] is None and savers[i]["overwrite"]:
                raise Violation("unexpected-success", "a save that cannot be serialized returned without an error")
            if savers[i]["overwrite"]:
                wrote = True
            elif old is None:
                wrote = True
    if wrote and not allowed_new.ok(final):
        raise Violation("lost-save", f"a save returned without an error, but the file is {S.brief(final)}")
    for j, got in readers.items():
        for kind, v in got:
            if kind == "ok":
                if case["old"] == "none" or case["old"] in ("garbage", "empty"):
                    fresh = S.content(K.make_obj(zs[0], [5]))
                    if K.diff(v[0], fresh[0]) == "":
                        continue                                   # nothing read yet (file absent)
                if not any(S.same_content(v, c) for c in candidates):
                    raise Violation("mixed-read", f"a reader saw a state of no complete file: {[S.explain(v, c) for c in candidates][:2]}")
                res.count("reads-during-save")
            elif case["old"] in ("psf", "big", "none"):
                raise Violation("broken-read", f"a reader during the save got {type(v).__name__}: {v}")
    # faults are over: saving works again, also for a process with the same id
    t = sim.tasks[0]
    if savers and news[0] is not None:
        _, e = w.calm(lambda: objs[0].save_json(abs_path=arg, overwrite=True), t.pid, t.sim_ident)
        if e is not None:
            raise Violation("save-after-fault", f"the next save fails: {type(e).__name__}: {e}")
        b = S.read_bytes(target)
        if not S.Allowed([news[0]]).ok(b):
            raise Violation("save-after-fault", f"after the next save the file is {S.brief(b)}, expected {S.brief(news[0])}")
