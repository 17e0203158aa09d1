"""Writes MANIFEST.json from properties.jsonl and the check modules (TECHNIQUE, LEVEL, NOTE)."""
import importlib
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))

TECH = {
    "exploration": "bounded exhaustive exploration of the implementation against a reference model",
    "fault_enumeration": "exhaustive fault-history / crash-point enumeration on the implementation",
    "model_checking": "stateless model checking (DPOR-style, controlled OpenMP scheduler)",
}

checks, missing = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    pid = p["id"]
    f = V / "qmmc" / "checks" / f"{pid.lower()}.py"
    if not f.exists():
        missing.append({"property": pid, "reason": "no check built yet"})
        continue
    src = {}
    text = f.read_text()
    ns = importlib.import_module(f"qmmc.checks.{pid.lower()}")
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} --quick",
        "thorough_cmd": f"./check {pid} --thorough",
        "technique": getattr(ns, "TECHNIQUE", TECH[ns.LEVEL]),
        "level": ns.LEVEL,
        "level_note": getattr(ns, "NOTE", None) or (
            ns.RULE.split(":")[0].strip() and
            ("Every case within the bounds is executed on the real code. Assumes: "
             + ("; ".join(getattr(ns, "ASSUMPTIONS", [])) or "nothing beyond the bounds")
             + ". Trusts: the reference definition in the check, numpy, and ObsPy where it is "
               "used to decode files.")),
    })
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
       "notes": "No hooks in /repo: the checks substitute archives, onsets and the OpenMP runtime "
                "from outside. `./check ID --replay FILE` reruns one recorded case."}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "unclaimed")
