"""Makes or verifies planted bugs.

  seed.py make DEFS.py     writes /verif/seeded/ID for each definition: (id, property,
                           [(file, old, new)...], demo source, needs, what it breaks)
  seed.py verify [ID...]   demo passes, with the patch: tests pass, demo fails, check fails
"""
import json
import os
from pathlib import Path
import runpy
import subprocess
import sys

ROOT = Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
REPO = Path("/repo")
DEMO = """#!/usr/bin/env bash
export QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd /repo && PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def git(*args):
    return subprocess.run(
        ["git", "-C", str(REPO), *args], capture_output=True, text=True, check=True
    ).stdout


def make(defs):
    assert not git("status", "--porcelain"), "repo is not clean"
    for id, prop, changes, demo, needs, breaks in runpy.run_path(defs)["BUGS"]:
        folder = SEEDED / id
        try:
            for file, old, new in changes:
                text = (REPO / file).read_text()
                if text.count(old) != 1:
                    print(id, "cannot be made:", text.count(old), "matches in", file)
                    break
                (REPO / file).write_text(text.replace(old, new))
            else:
                folder.mkdir(parents=True, exist_ok=True)
                (folder / "patch.diff").write_text(git("diff"))
                (folder / "demo.py").write_text(demo.lstrip())
                (folder / "demo.sh").write_text(DEMO)
                os.chmod(folder / "demo.sh", 0o755)
                meta = {"property": prop, "needs": needs, "what_it_breaks": breaks}
                (folder / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
        finally:
            git("checkout", "--", ".")


def run(cmd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def verify(ids):
    for id in ids or sorted(p.name for p in SEEDED.iterdir()):
        folder = SEEDED / id
        prop = json.loads((folder / "meta.json").read_text())["property"]
        notes = []
        rc, out = run(f"cd /tmp && bash {folder}/demo.sh", 300)
        if rc:
            notes.append(f"DEMO FAILS ON UNCHANGED TREE: {out[-500:]}")
        rc, out = run(f"git -C {REPO} apply {folder}/patch.diff")
        if rc:
            print(id, "PATCH DOES NOT APPLY", out)
            continue
        try:
            rc, out = run("bash /tmp/t.sh | tail -1")
            if "'passed': 113, 'failed': 0" not in out:
                notes.append(f"TESTS: {out[-400:]}")
            rc, out = run(f"cd /tmp && bash {folder}/demo.sh", 300)
            if rc == 0:
                notes.append("DEMO PASSES WITH PATCH")
            rc, out = run(f"cd {ROOT} && ./run {prop} quick")
            first = out.strip().splitlines()[0] if out.strip() else ""
            caught = rc == 1 and f"VIOLATION property={prop}" in out
            print(id, prop, "caught" if caught else f"MISSED ({rc})", *notes)
            print("    ", first[:160])
        finally:
            git("checkout", "--", ".")
        sys.stdout.flush()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        verify(sys.argv[2:])
