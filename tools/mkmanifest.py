"Writes MANIFEST.json for every property module present."
import importlib, json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), "/repo"]
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not (V / "vf/props" / f"{pid.lower()}.py").exists():
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    mod = importlib.import_module(f"vf.props.{pid.lower()}")
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(mod, "TECHNIQUE", "runtime monitoring: generated workload, independent reference oracle"),
        "level": mod.LEVEL,
        "level_note": getattr(mod, "LEVEL_NOTE", "Held on the executions this run produced (counts in the evidence file); trusts the Linux kernel, CPython's asyncio and the reference oracle. Not a proof."),
    })
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from vf import core; print(core.vchild())\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are added to /repo: monitors observe at the public API, the OS and asyncio. Checks import /repo/shellous directly; the only build product is a small C helper compiled into /verif/build."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
