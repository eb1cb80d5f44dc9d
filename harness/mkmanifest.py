"""Writes MANIFEST.json from the registry (run by hand after adding a check)."""
import json
from pathlib import Path

import registry

VERIF = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (VERIF / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in registry.CHECKS:
        technique, note = registry.NOTES[pid]
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"./run check {pid} --quick",
                thorough_cmd=f"./run check {pid} --thorough",
                evidence_file=f"evidence/{pid}.json",
                technique=technique,
                level="model_checking",
                level_note=note,
            )
        )
    else:
        na.append(dict(property=pid, reason="check under construction"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
