#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property in CLAIMED."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitor: every stage of each traced translation is compared online with an executable reference model, under generated tables, texts and emphasis spans"
TECH = {
    "C06": MODEL, "C07": MODEL, "C08": MODEL, "C09": MODEL, "C10": MODEL, "C11": MODEL,
    "C12": MODEL, "C13": MODEL, "C14": MODEL, "C15": MODEL, "C16": MODEL,
}
NOTE = {}
try:
    exec(open(os.path.join(here, "tools", "techniques.py")).read())
except FileNotFoundError:
    pass
DEFAULT_NOTE = "Held on the executions that were observed; the evidence file counts the cases, the oracle evaluations and the distinct situations. Nothing is said about what the workload did not drive."
NOT_APPLICABLE = []
checks = []
for pid in sorted(TECH):
    checks.append({
        "property": pid,
        "quick_cmd": f"bash check.sh {pid} quick",
        "thorough_cmd": f"bash check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH[pid],
        "level": "exploration",
        "level_note": NOTE.get(pid, DEFAULT_NOTE),
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": i, "reason": "no check is built yet"} for i in ids if i not in TECH]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(louis_verif)", "enable": "RUSTFLAGS=\"--cfg louis_verif\" for the build of /verif/harness (feature hook); see check.sh",
              "source_commits": ["fed9c28"]},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
