"""C07: a save changes at most the one file it reports, never without permission, in the folder it was given."""
import json
import os

from .. import env, fssim
from ..core import Violation
from ..thrsim import instrument
from . import _psf as K
from . import _save as S

ID = "C07"
LEVEL = "exploration"
RULE = "run counts as non-trivial when bystander files existed and at least one save ran against an existing file or a fault; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2400, 60000


def setup():
    for c in (4, 8, 2):
        instrument(env.load(cpu=c, numba="absent"), env.is_subject)


FOLDERS = ["str", "path", "link", "rel", "default", "str", "path", "slash", "missing", "empty", "file"]


def gen(rng, idx):
    n_sav = rng.choice([1, 1, 1, 2, 2, 3])
    groups = [K.gen_pols(rng, 0.3) for _ in range(2)]
    amps = [S.gen_amp(rng, p) for p in groups]
    savers = []
    for i in range(n_sav):
        g = rng.randrange(2) if rng.random() < 0.4 else 0
        s = S.gen_settings(rng, groups[g], amps[g])
        s.update(pols=groups[g], overwrite=rng.random() < 0.4, f32=rng.random() < 0.06, folder=rng.choice(FOLDERS), repeat=rng.choice([1, 1, 2, 3]),
                 prior=rng.choice([None, None, "str", "default"]))
        savers.append(s)
    case = {"threads": savers, "same_process": rng.random() < 0.5, "existing": sorted(rng.sample(["d", "pkg", "cwd", "other", "cwdsaved"], rng.randrange(0, 5))),
            "by": sorted(rng.sample(["psf", "near", "text", "bak", "tilde", "hidden", "sub", "upper"], rng.randrange(2, 8))), "garbage": rng.random() < 0.3,
            "link_target": rng.random() < 0.1, "readonly": rng.random() < 0.1,
            "switch": rng.choice([2, 2, 3, 5]), "short": rng.choice([0, 0, 0, 1]), "faults": [], "inst": None}
    mode = rng.choice(["fault", "fault", "inst", "quota", "none", "none", "none"])
    if mode == "fault":
        case["faults"] = [S.gen_fault(rng, f"S{rng.randrange(n_sav)}") for _ in range(rng.choice([1, 1, 2]))]
    elif mode == "inst":
        case["inst"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    elif mode == "quota":
        case["quota"] = rng.choice([0, 1, 50, 200, 400, 700, 1200, 3000])
    case["dirname"] = rng.choice(S.DIRNAMES)
    return case


def run(case, res):
    za = env.load(cpu=4, numba="absent")
    zs = [za]
    if not case["same_process"]:
        zs = [za, env.load(cpu=8, numba="absent"), env.load(cpu=2, numba="absent")]
    w = S.World(case, res, "c07")
    try:
        with env.quiet():
            _run(case, res, w, zs)
    finally:
        w.close()
        env.load(cpu=4, numba="absent")


def _folder(w, kind):
    d = w.dir
    fallback = os.path.join(w.root, "cwd", "saved_psfs")
    if kind == "slash":
        return d + os.sep, d
    if kind == "empty":
        return "", fallback
    if kind == "file":
        return os.path.join(w.root, "other", "note.txt"), fallback
    return w.folder(kind)


def _run(case, res, w, zs):
    savers = case["threads"]
    zof = lambda i: zs[i % len(zs)]
    objs, news, names = [], [], []
    counted = None
    for i, s in enumerate(savers):
        o = S.make(zof(i), s["pols"], s, s["f32"])
        b, name = w.ref_save(o, S.inst_mask(case["inst"]) if i == 0 else None)
        if i == 0:
            counted = w.counted
        if name is None:
            ok = S.make(zof(i), s["pols"], s)
            _, name = w.ref_save(ok)
        if name is None:
            raise Violation("unexpected-error", f"save without any fault: {w.error}")
        objs.append(o); news.append(b); names.append(name)
    for f in os.listdir(os.path.join(w.root, "ref")):
        os.unlink(os.path.join(w.root, "ref", f))
    os.rmdir(os.path.join(w.root, "ref"))
    # the folder before
    name = names[0]
    stem = name[:-5]
    places = {"d": w.dir, "pkg": w.pkg_saved[1], "cwd": os.path.join(w.root, "cwd"), "other": os.path.join(w.root, "other"),
              "cwdsaved": os.path.join(w.root, "cwd", "saved_psfs")}
    old_content = b"precious data {" if case["garbage"] else b'{"PSF Kernel": [[1.0]], "NA": 0.7, "Comment": "' + b"old" * 400 + b'"}'
    for p in case["existing"]:
        os.makedirs(places[p], exist_ok=True)
        t = os.path.join(places[p], name)
        if case["link_target"] and p == "d":
            real = os.path.join(w.root, "other", "linked.dat")
            with open(real, "wb") as f:
                f.write(old_content)
            os.symlink(real, t)
            continue
        with open(t, "wb") as f:
            f.write(old_content)
        if case["readonly"]:
            os.chmod(t, 0o444)
    for b in case["by"]:
        fn = {"psf": "psf_(1, 1)_0.777.json", "near": stem + "0.json", "text": "notes.txt", "bak": name + ".bak", "tilde": name + "~", "hidden": "." + name,
              "sub": os.path.join("sub", name), "upper": name.upper()}[b]
        for d in (w.dir, places["pkg"]):
            t = os.path.join(d, fn)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "wb") as f:
                f.write(b"bystander " + b.encode())
    with open(os.path.join(w.root, "other", "note.txt"), "wb") as f:
        f.write(b"note")
    before = fssim.tree(w.root)

    sim = fssim.FsSim(w.ch, res, w.root, case["faults"], case["switch"], case["short"], w.pkg_saved, case.get("quota"))
    args, dirs = [], []
    for s in savers:
        a, d = _folder(w, s["folder"])
        args.append(a); dirs.append(d)
    # files that may change: the target of each saver, once there is permission
    targets = [os.path.relpath(os.path.join(dirs[i], names[i]), w.root) for i in range(len(savers))]
    may_write, may_create = set(), set(targets)
    for i, s in enumerate(savers):
        if s["overwrite"]:
            may_write.add(targets[i])
            link = os.path.join(w.root, targets[i])
            if os.path.islink(link):
                may_write.add(os.path.relpath(os.path.realpath(link), w.root))
    watched = {t: S.read_bytes(os.path.join(w.root, t)) for t in targets if t not in may_write}
    bad = []

    def after(op, full):
        for t, prev in watched.items():
            if prev is not None:
                b = S.read_bytes(os.path.join(w.root, t))
                if b != prev:
                    bad.append(("overwritten", f"{op} changed the existing file {t} although no saver may overwrite it"))
                    sim.over = sim.over or "violation"
            else:
                b = S.read_bytes(os.path.join(w.root, t))
                if b is not None and any(n is not None and targets[i] == t and S.Allowed([n]).ok(b) for i, n in enumerate(news)):
                    watched[t] = b                   # complete now: from here on it is an existing file
    sim.after = after
    outcome = {}
    reported = {}

    def saver(i):
        def fn():
            s = savers[i]
            inj = None
            for r in range(s["repeat"]):
                try:
                    if case["inst"] and i == 0 and r == 0:
                        inj = S.Injected(w, case["inst"], counted)
                        with inj:
                            objs[i].save_json(abs_path=args[i], overwrite=s["overwrite"])
                    else:
                        objs[i].save_json(abs_path=args[i], overwrite=s["overwrite"])
                    outcome.setdefault(i, []).append(("ok", None))
                    reported.setdefault(i, []).append(objs[i].json_file_path)
                except (Exception, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    outcome.setdefault(i, []).append(("raised", e))
                if inj is not None and inj.fired:
                    sim.fault_hits += 1
        return fn
    for i in range(len(savers)):
        same = case["same_process"]
        sim.add(f"S{i}", saver(i), 2001 if same else 2001 + i, 7000 + i if same else 7000)
    why = sim.run()
    sim.finish()
    res.choices = w.ch.record
    res.steps = sim.ops_total
    res.nontrivial = sim.fault_hits > 0 or bool(case["existing"])
    res.count("file-operations", sim.ops_total)
    if bad:
        raise Violation(*bad[0])
    if why != "done":
        raise Violation("never-returns", why)
    for t in sim.tasks:
        if t.error is not None:
            raise t.error
    if sim.outside:
        raise Violation("outside-write", f"file operation outside of the given folder: {sim.outside[:3]}")
    now = fssim.tree(w.root)
    res.count("saves", sum(len(v) for v in outcome.values()))
    all_ok = sim.fault_hits == 0 and all(o[0] == "ok" for v in outcome.values() for o in v)
    for f in sorted(set(before) | set(now)):
        a, b = before.get(f), now.get(f)
        if a == b:
            continue
        if a is not None:
            if f not in may_write:
                raise Violation("bystander-changed" if f not in targets else "overwritten",
                                f"{f}: {S.brief(a)} became {S.brief(b)} (targets {targets}, may be written {sorted(may_write)})")
            continue
        if f in may_create or f in may_write:
            full = os.path.join(w.root, f)
            mine = S.Allowed([n for i, n in enumerate(news) if n is not None and (targets[i] == f or os.path.realpath(os.path.join(w.root, targets[i])) == os.path.realpath(full))])
            if not os.path.islink(full) and not mine.ok(S.read_bytes(full)):
                raise Violation("extra-file", f"new file {f} has a content that nobody saved: {S.brief(b)} (targets {targets})")
            continue
        if f.endswith(".json"):
            raise Violation("extra-file", f"additional PSF file {f} (targets {targets})")
        if all_ok or not (sim.crash_any or sim.fault_hits):
            raise Violation("extra-file", f"additional file {f} after saves without any fault (targets {targets})")
    for i, t in enumerate(sim.tasks):
        for k, (kind, e) in enumerate(outcome.get(i, [])):
            if kind == "raised" and sim.fault_hits == 0 and case.get("quota") is None and news[i] is not None and not (case["readonly"] and savers[i]["overwrite"]):
                raise Violation("unexpected-error", f"save without any fault: {type(e).__name__}: {e}")
        for p in reported.get(i, []):
            full = p
            if full.startswith(w.pkg_saved[0]):
                full = w.pkg_saved[1] + full[len(w.pkg_saved[0]):]
            if os.path.realpath(full) != os.path.realpath(os.path.join(w.root, targets[i])):
                raise Violation("wrong-report", f"reported {p}, expected {targets[i]} (folder given: {args[i]!r})")
            if not os.path.lexists(full):
                raise Violation("lost-save", f"the reported file {p} does not exist")
