#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent

# deciding technique and what the assurance rests on, per property
INFO = {}


def info(id, technique, note):
    INFO[id] = (technique, note)


COMMON = (
    "Search over generated inputs with fixed case counts, sharded over processes and seeded by VERIF_SEED; "
    "not exhaustive. Trusts Hypothesis' generation, numpy and the independent model in lib/model.py."
)

exec((ROOT / "tools" / "manifest_info.py").read_text())

checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    id = json.loads(line)["id"]
    if not (ROOT / "checks" / f"{id.lower()}.py").exists():
        missing.append(dict(property=id, reason="check under construction"))
        continue
    technique, note = INFO[id]
    checks.append(dict(
        property=id,
        quick_cmd=f"./check.sh {id} quick",
        thorough_cmd=f"./check.sh {id} thorough",
        evidence_file=f"evidence/{id}.json",
        technique=technique,
        level="exploration",
        level_note=f"{note} {COMMON}",
    ))

(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=missing,
), indent=1) + "\n")
