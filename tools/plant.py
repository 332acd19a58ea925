"""Confirms a planted bug in a scratch copy of /repo and records it under seeded/.

usage: plant.py DEFINITION.py  (see the fields used below)

The definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(path, old, new)] and DEMO (the
text of demo.py, which runs with the repository as its working directory).
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/vf_plant"
DEMO_SH = """#!/bin/bash
# Exits 0 if the property holds and 1 if it does not.
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC \\
  /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def main():
    d = runpy.run_path(sys.argv[1])
    folder = os.path.join(VERIF, "seeded", d["ID"])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH, symlinks=True)
    os.makedirs(folder, exist_ok=True)
    try:
        for name, text in (("demo.sh", DEMO_SH), ("demo.py", d["DEMO"].lstrip("\n"))):
            with open(os.path.join(folder, name), "w", encoding="utf-8") as out:
                out.write(text)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        with open(os.path.join(folder, "meta.json"), "w", encoding="utf-8") as out:
            json.dump(
                {
                    "property": d["PROPERTY"],
                    "needs": d["NEEDS"],
                    "what_it_breaks": d["BREAKS"],
                },
                out,
                indent=1,
            )
            out.write("\n")
        demo = [os.path.join(folder, "demo.sh")]
        clean = subprocess.run(demo, cwd=SCRATCH, capture_output=True, text=True)
        for path, old, new in d["EDITS"]:
            path = os.path.join(SCRATCH, path)
            with open(path, encoding="utf-8") as file:
                text = file.read()
            assert text.count(old) == 1, (path, text.count(old), old)
            with open(path, "w", encoding="utf-8") as file:
                file.write(text.replace(old, new))
        diff = subprocess.run(
            ["git", "diff"], cwd=SCRATCH, capture_output=True, text=True, check=True
        ).stdout
        with open(os.path.join(folder, "patch.diff"), "w", encoding="utf-8") as out:
            out.write(diff)
        bad = subprocess.run(demo, cwd=SCRATCH, capture_output=True, text=True)
        tests = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider",
             "-o", "python_files=*.py", "--no-header"],
            cwd=SCRATCH, capture_output=True, text=True,
            env={**os.environ, "PYTHONPATH": SCRATCH, "TZ": "UTC",
                 "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
        )
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    summary = tests.stdout.strip().splitlines()[-1]
    good = clean.returncode == 0 and bad.returncode == 1 and " failed" not in summary
    print(d["ID"], "clean", clean.returncode, "planted", bad.returncode, summary)
    if not good:
        print(clean.stdout[-800:], clean.stderr[-800:])
        print("--- planted:", bad.stdout[-800:], bad.stderr[-800:])
        shutil.rmtree(folder, ignore_errors=True)
        return 1
    subprocess.run(
        ["git", "-C", "/repo", "apply", os.path.join(folder, "patch.diff")], check=True
    )
    try:
        check = subprocess.run(
            ["./check.sh", d["PROPERTY"]], cwd=VERIF, capture_output=True, text=True,
            env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"},
        )
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    print("  check", check.returncode, check.stdout.strip().splitlines()[:3])
    return 0


if __name__ == "__main__":
    sys.exit(main())
