"""C08: a failed or refused read leaves the object as it was; a truncated file is never accepted."""
import json
import os

import numpy as np

from .. import env, fssim
from ..core import Violation
from ..thrsim import instrument
from . import _psf as K
from . import _save as S
from .c06 import AMPFORM, apply, gen_history

ID = "C08"
LEVEL = "exploration"
RULE = "run counts as non-trivial when a read was refused or failed and the object was compared with its twin; distinct = distinct event-sequence hash"
QUICK_RUNS, THOROUGH_RUNS = 2400, 60000
KEYS = ["PSF Kernel", "NA", "Wavelength", "Pixel Size", "Kernel Size", "# of integration points R", "# of integration points angle",
        "Expansion Coefficient", "Polynomial", "Amplitudes", "Polynomials"]
BAD = ["null", "str", "neg", "negint", "zero", "nan", "inf", "huge", "list", "dict", "true", "emptylist", "float", "numstr"]
KBAD = ["ragged", "1d", "3d", "none-inside", "str-inside", "empty", "scalar", "nan-inside"]
PBAD = ["neg", "half", "str", "null", "huge", "dup", "empty", "more", "less", "nested"]


def setup():
    instrument(env.load(cpu=4, numba="absent"), env.is_subject)


def gen(rng, idx):
    wp = list(rng.choice(K.MULTIS if rng.random() < 0.4 else K.SINGLES))
    op = list(rng.choice(K.MULTIS if rng.random() < 0.4 else K.SINGLES))
    case = {"wpols": wp, "wset": S.gen_settings(rng, wp, S.gen_amp(rng, wp)), "pols": op,
            "ops": ([["phys", K.gen_phys(rng, len(op)), rng.choice(AMPFORM)], ["calc", K.gen_calc(rng, (3, 3, 5))]] if rng.random() < 0.85 else [])
            + gen_history(rng, len(op), False) + ([["kernel", True]] if rng.random() < 0.5 else [["rand", rng.randrange(1 << 30), 3]]),
            "damage": [], "faults": [], "inst": None, "short": rng.choice([0, 0, 1]), "errors": rng.random() < 0.15, "as_path": rng.random() < 0.5,
            "times": rng.choice([1, 1, 1, 2]), "good_after": rng.random() < 0.3, "next": rng.choice(["kernel", "phys", "calc", "none"]),
            "next_phys": K.gen_phys(rng, len(op)), "rewriter": None}
    mode = rng.choice(["trunc", "trunc", "damage", "damage", "damage", "fault", "fault", "inst", "file", "rewrite", "none"])
    if mode == "trunc":
        case["damage"] = [["trunc", rng.choice(["frac", "tail", "head"]), rng.random()]]
    elif mode == "damage":
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["drop", "drop", "value", "value", "value", "kernel", "pols", "rename", "bytes", "extra", "swap"])
            case["damage"].append({"drop": ["drop", rng.choice(KEYS)], "value": ["value", rng.choice(KEYS), rng.choice(BAD)],
                                   "kernel": ["kernel", rng.choice(KBAD)], "pols": ["pols", rng.choice(PBAD)], "rename": ["rename", rng.choice(KEYS)],
                                   "bytes": ["bytes", rng.random(), rng.randrange(256)], "extra": ["extra"], "swap": ["swap"]}[k])
    elif mode == "fault":
        case["faults"] = [S.gen_fault(rng, "R0", ("errno", "errno", "int", "memory")) for _ in range(rng.choice([1, 1, 2]))]
    elif mode == "inst":
        case["inst"] = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])
    elif mode == "file":
        case["damage"] = [["file", rng.choice(["absent", "dir", "empty", "list", "number", "null", "string", "bom", "latin", "zeros", "deep", "space", "noext", "double"])]]
    elif mode == "rewrite":
        case["rewriter"] = {"pieces": rng.randrange(1, 6), "pols": list(rng.choice(K.SINGLES + K.MULTIS))}
        case["rewriter"]["set"] = S.gen_settings(rng, case["rewriter"]["pols"], S.gen_amp(rng, case["rewriter"]["pols"]))
    return case


def damage(data, raw, dmg):
    """Apply one damage to the parsed data (dict) or the raw bytes; returns (data, raw)."""
    k = dmg[0]
    vals = {"null": None, "str": "abc", "neg": -0.5, "negint": -5, "zero": 0, "nan": float("nan"), "inf": float("inf"), "huge": 1e300, "list": [1, 2], "dict": {"a": 1},
            "true": True, "emptylist": [], "float": 3.7, "numstr": "0.5"}
    if k == "drop":
        if dmg[1] in data:
            del data[dmg[1]]
        else:
            del data[sorted(data)[0]]
    elif k == "value":
        key = dmg[1] if dmg[1] in data else "NA"
        data[key] = vals[dmg[2]]
    elif k == "rename":
        key = dmg[1] if dmg[1] in data else "NA"
        data[key.lower() + "_"] = data.pop(key, 1)
    elif k == "kernel":
        ker = data.get("PSF Kernel", [[1.0]])
        data["PSF Kernel"] = {"ragged": [[1.0, 2.0], [3.0]], "1d": [1.0, 2.0], "3d": [[[1.0]]], "none-inside": [[1.0, None], [2.0, 3.0]], "str-inside": [["a", 1], [2, 3]],
                              "empty": [], "scalar": 1.0, "nan-inside": [[float("nan")]*3]*3}[dmg[1]]
    elif k == "pols":
        v = {"neg": -1, "half": 1.5, "str": "x", "null": None, "huge": 10**6, "dup": 4, "empty": 0, "more": 3, "less": 3, "nested": [1]}[dmg[1]]
        if "Polynomial" in data:
            if dmg[1] in ("empty", "more", "less", "dup"):
                data["Polynomials"] = {"empty": [], "more": [3, 5, 7], "less": [3], "dup": [4, 4]}[dmg[1]]
                if dmg[1] != "more":
                    del data["Polynomial"]
            else:
                data["Polynomial"] = v
        elif "Polynomials" in data:
            p = data["Polynomials"]
            data["Polynomials"] = {"dup": p[:1]*len(p), "empty": [], "more": p + [27], "less": p[:1]}.get(dmg[1], p[:-1] + [v])
    elif k == "extra":
        data["Comment"] = "added by a later version"
    elif k == "swap":
        if "Expansion Coefficient" in data:
            data["Amplitudes"] = [data.pop("Expansion Coefficient")]
        elif "Amplitudes" in data:
            data["Expansion Coefficient"] = data.pop("Amplitudes")[0]
    return data


NEED = 9


def complete(data):
    """All entries there that a saved file has."""
    if not isinstance(data, dict):
        return False
    base = ["PSF Kernel", "NA", "Wavelength", "Pixel Size", "Kernel Size", "# of integration points R", "# of integration points angle"]
    return all(k in data for k in base) and ("Expansion Coefficient" in data or "Amplitudes" in data) and ("Polynomial" in data or "Polynomials" in data)


def impossible(data):
    """Entries of a kind or sign that no save of a usable object writes."""
    num = lambda v: isinstance(v, (int, float))
    for k in ("Kernel Size", "# of integration points R", "# of integration points angle"):
        v = data[k]
        if not isinstance(v, int) or v < 1:
            return f"{k}: {v!r}"
    for k in ("NA", "Wavelength", "Pixel Size"):
        if not num(data[k]) or data[k] <= 0:
            return f"{k}: {data[k]!r}"
    try:
        if np.asarray(data["PSF Kernel"], dtype=float).ndim != 2:
            return "a kernel that is not a matrix"
    except (ValueError, TypeError):
        return "a kernel that is not a matrix of numbers"
    return ""


def describes(c, data):
    """Does the content of an object equal the entries of the file?"""
    pub, ker = c
    try:
        if not env.arr_eq(np.asarray(data["PSF Kernel"], float), np.asarray(ker, float)):
            return "kernel"
        for k, f in (("NA", "NA"), ("wavelength", "Wavelength"), ("pixel_size", "Pixel Size"), ("kernel_size", "Kernel Size"),
                     ("n_int_r_points", "# of integration points R"), ("n_int_phi_points", "# of integration points angle")):
            if not (pub[k] == data[f]):
                return k
        a = data["Amplitudes"] if "Amplitudes" in data else [data["Expansion Coefficient"]]
        if [float(x) for x in np.ravel(a)] != pub["amplitudes"]:
            return "amplitudes"
    except (ValueError, TypeError, KeyError) as e:
        return f"{type(e).__name__}"
    return ""


def run(case, res):
    z = env.load(cpu=4, numba="absent")
    w = S.World(case, res, "c08")
    try:
        with env.quiet():
            _run(case, res, w, z)
    finally:
        w.close()


def _run(case, res, w, z):
    import warnings
    seq = None
    obj, twin = K.make_obj(z, case["pols"]), K.make_obj(z, case["pols"])
    apply(w, z, obj, case["ops"])
    apply(w, z, twin, case["ops"])
    writer = S.make(z, case["wpols"], case["wset"])
    raw, name = w.ref_save(writer)
    if raw is None:
        raise Violation("unexpected-error", f"save without any fault: {w.error}")
    good = raw
    wc = S.content(writer)
    path = os.path.join(w.dir, name)
    trunc = False
    data = json.loads(raw)
    for d in case["damage"]:
        if d[0] == "trunc":
            n = len(raw)
            cut = {"frac": int(d[2]*n), "tail": n - 1 - int(d[2]*min(n - 1, 40)), "head": int(d[2]*min(n, 30))}[d[1]]
            raw = raw[:max(0, min(cut, n - 1))]
            trunc = True
        elif d[0] == "bytes":
            i = int(d[1]*len(raw))
            raw = raw[:i] + bytes([d[2]]) + raw[i + 1:]
        elif d[0] == "file":
            raw = {"absent": None, "dir": None, "empty": b"", "list": b"[" + raw + b"]", "number": b"5", "null": b"null", "string": b'"PSF Kernel"', "bom": b"\xef\xbb\xbf" + raw,
                   "latin": raw.replace(b"NA", b"N\xe4"), "zeros": bytes(len(raw)), "deep": b"[" * 100000, "space": b"  \n", "noext": raw, "double": raw + raw}[d[1]]
            if d[1] == "noext":
                path = os.path.join(w.dir, "psf_file")
        else:
            try:
                data = damage(data, raw, d)
            except (TypeError, KeyError, IndexError):    # an earlier damage left nothing for this one
                pass
            raw = json.dumps(data).encode()
    if case["damage"] and case["damage"][0] == ["file", "dir"]:
        os.mkdir(path)
    elif raw is not None:
        with open(path, "wb") as f:
            f.write(raw)
    try:
        parsed = json.loads(raw) if raw is not None else None
        text_ok = True
    except (ValueError, RecursionError):
        parsed, text_ok = None, False
    rew, rc, rraw = case["rewriter"], None, None
    if rew:
        o2 = S.make(z, rew["pols"], rew["set"])
        rraw, _ = w.ref_save(o2)
        rc = S.content(o2)
    before = S.content(obj), obj.json_file_path
    attrs = lambda: {k: repr(v) for k, v in vars(obj).items() if k[0] != "_" and type(v) in (int, float, str, bool, tuple)}
    attr0 = attrs()
    if K.diff(before[0][0], K.public(twin)) or not env.arr_eq(before[0][1], twin.kernel):
        raise Violation("twin-differs", "two objects with the same history differ: " + S.explain(before[0], S.content(twin)))
    counted = None
    if case["inst"]:
        third = K.make_obj(z, case["pols"])
        apply(w, z, third, case["ops"])
        w.calm(lambda: third.read_json(path), count=S.inst_mask(case["inst"]))
        counted = w.counted
    sim = fssim.FsSim(w.ch, res, w.root, case["faults"], 2, case["short"], w.pkg_saved)
    outs = []

    def reader():
        for _ in range(case["times"]):
            inj = None
            with warnings.catch_warnings(record=not case["errors"]) as wl:
                warnings.simplefilter("error" if case["errors"] else "always")
                fired0 = sim.fault_hits
                try:
                    if case["inst"]:
                        inj = S.Injected(w, case["inst"], counted)
                        with inj:
                            obj.read_json(env.Path(path) if case["as_path"] else path)
                    else:
                        obj.read_json(env.Path(path) if case["as_path"] else path)
                    o = ["warned" if wl else "ok", [str(x.message) for x in wl or []]]
                except (Exception, KeyboardInterrupt) as e:
                    e.__traceback__ = None
                    o = ["raised", e]
            kinds = {f[0] for f in sim.fired[0:]} if sim.fault_hits > fired0 else set()
            if inj is not None and inj.fired:
                kinds.add("inst")
            outs.append(o + [kinds, S.content(obj), obj.json_file_path, attrs()])

    def rewriter():
        """Another program rewriting the file in place, piece by piece."""
        n = rew["pieces"]
        with open(path, "w") as f:
            for i in range(n):
                f.write(rraw[i*len(rraw)//n:(i + 1)*len(rraw)//n].decode())
                f.flush()
    sim.add("R0", reader, 2001, 7000)
    if rew:
        sim.add("X0", rewriter, 2002, 7000)
    why = sim.run()
    sim.finish()
    res.choices = w.ch.record
    res.steps = sim.ops_total
    for t in sim.tasks:
        if t.error is not None:
            raise t.error
    if why != "done":
        raise Violation("never-returns", why)
    if sim.outside:
        raise Violation("outside-write", str(sim.outside[:3]))
    kept = True
    prev = before
    for kind, info, kinds, got, jpath, attr1 in outs:
        same_old = S.same_content(got, prev[0])
        soft = kinds & {"int", "memory", "inst"}
        if kind == "raised" and not kinds and not case["damage"] and not rew:
            raise Violation("unexpected-error", f"a valid file cannot be read: {type(info).__name__}: {info}")
        if kind == "raised" or (kind == "warned" and same_old):
            res.count("refused-reads")
            if same_old:
                if jpath != prev[1]:
                    raise Violation("changed-by-failed-read", f"stored path {prev[1]} -> {jpath}")
                if prev is before:
                    left = {k: (v, attr1.get(k)) for k, v in attr0.items() if attr1.get(k) != v}
                    if left:
                        raise Violation("changed-by-failed-read", f"attributes {left} (damage {case['damage']}, faults {sorted(kinds)})")
                res.nontrivial = True
                continue
            if soft and (S.same_content(got, wc) or (rc and S.same_content(got, rc))):
                kept = False
                prev = (got, jpath)
                continue
            raise Violation("changed-by-failed-read", f"after {type(info).__name__ if kind == 'raised' else info}: " + S.explain(prev[0], got)
                            + f" (damage {case['damage']}, faults {sorted(kinds)})")
        # accepted
        res.count("accepted-reads")
        prev, kept = (got, jpath), False
        if trunc:
            raise Violation("truncated-accepted", f"a truncated file ({len(raw)} of {len(good)} bytes) was accepted")
        if rew:
            if case["short"]:
                continue                             # pieces of two complete files may form a third one: no reader can tell
            if not any(c and S.same_content(got, c) for c in (wc, rc)):
                raise Violation("mixed-read", S.explain(wc, got))
        elif not text_ok or not complete(parsed):
            if same_old and kind == "ok":
                raise Violation("silent-failure", f"an unusable file was ignored without a warning or an error (damage {case['damage']})")
            raise Violation("incomplete-accepted", f"a file that lacks entries or is not valid was accepted (damage {case['damage']})")
        else:
            d = describes(got, parsed)
            if impossible(parsed):
                raise Violation("invalid-accepted", f"a file with {impossible(parsed)} was accepted (damage {case['damage']})")
            if d and not case["damage"]:
                raise Violation("not-restored", f"{d} (damage {case['damage']}): {S.explain(wc, got)}")
            if d:
                odd = [x for x in case["damage"] if x[0] in ("value", "pols", "kernel", "swap", "bytes")]
                if not odd:
                    raise Violation("not-restored", f"{d} (damage {case['damage']})")
                res.count("odd-accepted")
    if not kept:
        return
    # the object goes on as if nothing had been read
    if case["good_after"]:
        with open(os.path.join(w.root, "other", name), "wb") as f:
            f.write(good)
        _, e = w.calm(lambda: obj.read_json(os.path.join(w.root, "other", name)))
        if e is not None or not S.same_content(S.content(obj), wc):
            raise Violation("unusable-afterwards", f"a valid file read afterwards: {type(e).__name__ if e else S.explain(wc, S.content(obj))}: {e}")
        return
    nx = case["next"]
    both = []
    for o in (obj, twin):
        r = []
        if nx == "phys":
            apply(w, z, o, [["phys", case["next_phys"], "plain"]])
        elif nx == "calc":
            apply(w, z, o, [["calc", [3, 22, 39]]])
        r.append(K.public(o))
        k = None
        if o.kernel_size <= 5 and o.n_int_r_points <= 40 and (o.zernpol is not None or o.coefficients is not None):
            k = np.array(o.calculate_psf_kernel(suppress_warnings=True, accelerated=False))
        if o.coefficients is not None or o.zernpol is not None:
            b, n = w.ref_save(o)
            r.append((None if b is None else json.loads(b), n))
        both.append((r, k))
    if both[0][0] != both[1][0]:
        raise Violation("different-future", f"after a failed read the object behaves differently: {K.diff(both[0][0][0], both[1][0][0])}")
    if both[0][1] is not None and not env.arr_close(both[0][1], both[1][1]):
        raise Violation("different-future", "after a failed read the object computes another kernel")
    res.count("twins-compared")
