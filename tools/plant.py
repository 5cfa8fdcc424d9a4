"""Development helper: validate a planted bug and store it in /verif/seeded.

usage: plant.py FILE.py [ID ...]   (FILE.py defines BUGS = [dict(...), ...])
Each bug: id, prop, edits=[(file, old, new)], needs, breaks, demo (python
source), files=[extra files copied next to the demo].
No registered check uses this file or reads /verif/seeded.
"""
import json, os, pathlib, re, runpy, shutil, subprocess, sys

REPO = pathlib.Path("/repo")
OUT = pathlib.Path("/verif/seeded")
BASE = "214bee4"
TMP = os.environ.get("PLANT_TMP", "/tmp")
DEMO = """#!/bin/bash
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    sh(f"bash /opt/vp/test.sh {TMP}/plant_out.json", cwd=REPO)
    o = json.load(open(f"{TMP}/plant_out.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(map(str, b["stable"])) - set(map(str, o["passed"])))


def original_only(diff):
    """Are all removed lines lines of the original repository?"""
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if f is None or line.startswith(("+", "---", "diff", "index", "\\")):
            continue
        if line.startswith("-"):
            b = sh(f"git blame -s -l -L {n},{n} HEAD -- {f}", cwd=REPO).stdout
            if BASE not in b[:12]:
                bad.append((n, line))
        n += 1
    return bad


def one(bug, tests=True):
    d = OUT / bug["id"]
    assert not sh("git status --short", cwd=REPO).stdout, "dirty repo"
    try:
        for f, old, new in bug["edits"]:
            p = REPO / "rigid_body_motion" / f
            s = p.read_text()
            assert s.count(old) == 1, (bug["id"], f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh("git diff", cwd=REPO).stdout
        res = {"own_lines": original_only(diff)}
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO)
        (d / "demo.py").write_text(bug["demo"].lstrip("\n"))
        for f in bug.get("files", ()):
            shutil.copy(f, d)
        (d / "meta.json").write_text(json.dumps(
            {"property": bug["prop"], "needs": bug["needs"],
             "what_it_breaks": bug["breaks"]}, indent=2) + "\n")
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        res["demo_patched"] = r.returncode
        res["demo_out"] = (r.stdout + r.stderr).strip()[-200:]
        if tests:
            res["tests_missing"] = stable()[:3]
        r = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash check.sh {bug['prop']} quick", cwd="/verif")
        res["check"] = (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1])
        if r.returncode not in (0, 1):
            res["check_out"] = r.stdout[-800:] + r.stderr[-800:]
    finally:
        sh("git checkout -- .", cwd=REPO)
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    res["demo_clean"] = r.returncode
    if r.returncode:
        res["demo_clean_out"] = (r.stdout + r.stderr).strip()[-600:]
    ok = (not res["own_lines"] and res["demo_patched"] and not res["demo_clean"]
          and not res.get("tests_missing"))
    caught = res["check"][0] == 1 and res["check"][1]
    print(("OK    " if ok else "INVALID"), ("CAUGHT" if caught else "MISSED"),
          bug["id"], res if not (ok and caught) else res["check"][1], flush=True)
    if not ok:
        shutil.rmtree(d)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    for b in bugs:
        if not ids or b["id"] in ids:
            one(b)
