#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds.py (old -> new text edits)."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds
import seeds2  # noqa: F401
import seeds3  # noqa: F401

SH = '''#!/bin/bash
# exit 0 if the property holds on the demonstration, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
cd "$d" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo/src" timeout 200 /opt/venv/bin/python "$here/demo.py"
rc=$?
cd /
rm -rf "$d"
exit $rc
'''


def main():
    only = sys.argv[1:]
    for s in seeds.SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
            for path, old, new in s["edits"]:
                p = os.path.join(tmp, "r", path)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], path, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True, text=True).stdout
            assert diff, s["id"]
        finally:
            shutil.rmtree(tmp)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(seeds.HELP[s.get("help", "stage2")] + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
