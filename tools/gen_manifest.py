"""Writes /verif/MANIFEST.json from the property modules that exist. Run: /opt/venv/bin/python tools/gen_manifest.py"""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
NA = {
    "U01": "pure function of its arguments (index arithmetic): no schedule, time, I/O, fault or history for a simulator to decide",
    "U02": "pure validation of constructor arguments: no schedule, time, I/O, fault or history for a simulator to decide",
    "U03": "mathematical property of a pure function over real coordinates: nothing for a simulator to schedule or to fail",
    "U04": "mathematical property of pure functions over real coordinates (their independence of history and threads is C11)",
    "U05": "mathematical property of a pure function (its independence of history and threads is C13)",
    "U06": "numerical property of a pure least-squares computation: nothing for a simulator to schedule or to fail",
    "U07": "numerical and optical property of a pure integral: nothing for a simulator to schedule or to fail",
    "U08": "pure functions of the settings and of one array (what an interrupted cropping leaves behind is C10)",
    "U09": "pure function of two arrays (concurrent and interrupted use is C10 and C13)",
    "U10": "pure text and comparison helpers and drawing by matplotlib: nothing for a simulator to schedule or to fail",
}
PY = "/opt/venv/bin/python /verif/check.py"


def main():
    props = [json.loads(x) for x in (ROOT/"properties.jsonl").read_text().splitlines() if x.strip()]
    from simlib import core
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if (ROOT/"simlib"/"props"/f"{pid.lower()}.py").exists():
            m = core.load_prop(pid)
            checks.append({"property": pid, "quick_cmd": f"{PY} {pid} --tier quick", "thorough_cmd": f"{PY} {pid} --tier thorough",
                           "evidence_file": f"evidence/{pid}.json", "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.LEVEL_NOTE})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "the check is not built yet")})
    man = {"version": 1, "setup_cmd": f"{PY} --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator works through seams that exist (module imports, the multiprocessing API, file "
                    "functions, clocks, random generator) and through sys.monitoring. Environment variables ZSIM_* only steer the harness."}
    (ROOT/"MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
