"""Writes a planted bug to seeded/<id>: mk(id, property, edits, demo, needs, breaks). Edits are (file, old, new)."""
import json, shutil, subprocess, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SH = '''#!/bin/bash
# Run in the repository's root after the build.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD:$here/stubs" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SCRATCH="$scratch" MPLCONFIGDIR="$scratch" HOME="$scratch"
/opt/venv/bin/python -B "$here/demo.py"
'''


def mk(id, prop, edits, demo, needs, breaks):
    dst = VERIF / "seeded" / id
    if dst.exists():
        shutil.rmtree(dst)
    dst.mkdir(parents=True)
    with tempfile.TemporaryDirectory() as d:
        w = Path(d) / "repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", str(w)])
        for f, old, new in edits:
            t = (w / f).read_text()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            (w / f).write_text(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", str(w), "diff"], text=True)
    (dst / "patch.diff").write_text(diff)
    (dst / "demo.sh").write_text(SH)
    (dst / "demo.py").write_text(demo.lstrip())
    (dst / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if "conda_recipe_manager" in demo:
        shutil.copytree(VERIF / "lib/stubs", dst / "stubs", ignore=shutil.ignore_patterns("__pycache__"))
