#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the registry."""
import json
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
from registry import CHECKS

VERIF = Path(__file__).resolve().parent.parent
NOT_APPLICABLE = {}

checks, not_applicable = [], []
for line in (VERIF / "properties.jsonl").read_text().splitlines():
    property_id = json.loads(line)["id"]
    if property_id not in CHECKS:
        not_applicable.append({"property": property_id, "reason": NOT_APPLICABLE.get(property_id, "No monitor for this property yet.")})
        continue
    check = CHECKS[property_id]
    checks.append({
        "property": property_id,
        "quick_cmd": f"python3 tools/check.py {property_id} quick",
        "thorough_cmd": f"python3 tools/check.py {property_id} thorough",
        "technique": check.get("technique", "runtime monitoring: reference-model oracle over random histories of the ASan+UBSan build"),
        "level": check.get("level", "exploration"),
        "level_note": check.get("level_note", "Executions of the real code that the seeded generator reaches; nothing is proved about others."),
    })
manifest = {"version": 1, "setup_cmd": "python3 tools/build.py --setup", "checks": checks, "not_applicable": not_applicable}
manifest_path = VERIF / "MANIFEST.json"
manifest_path.write_text(json.dumps(manifest, indent=1) + "\n")
