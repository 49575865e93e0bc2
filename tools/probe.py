#!/usr/bin/env python3
"""Tries explicit changes against checks: tools/probe.py FILE.py [NAME...]

FILE.py defines PROBES, a list of (name, checks separated by commas, [(file, old, new), ...]). Each change is made in a scratch
copy of /repo; prints which check noticed it, or SURVIVED. Old text must occur exactly once.
"""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

probes = runpy.run_path(sys.argv[1])["PROBES"]
names = sys.argv[2:]
V = os.environ.get("VERIF_DIR", "/verif")


def one(probe):
    name, checks, edits = probe
    d = tempfile.mkdtemp(prefix="mutant_")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "tests", "__pycache__", "*.egg-info"))
        for file, old, new in edits:
            p = Path(d, "repo/conda_recipe_manager", file) if not file.startswith("scripts") else Path(d, "repo", file)
            s = p.read_text()
            if s.count(old) != 1:
                return f"BADPROBE {name}: {s.count(old)} times: {old[:60]!r}"
            p.write_text(s.replace(old, new))
        for c in checks.split(","):
            env = {**os.environ, "VERIF_REPO": d + "/repo", "VERIF_SHRINK": "0", "VERIF_EVIDENCE_DIR": d + "/ev", "VERIF_NCPU": "2", "VERIF_FIRST": "1", "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
            r = subprocess.run([V + "/run_check.py", c], env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return f"caught   {c} {name}"
            if r.returncode != 0:
                return f"BROKEN   {c} rc={r.returncode} {name} {(r.stderr or r.stdout)[-300:]}"
        return f"SURVIVED {name} ({checks})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("PROBE_JOBS", "4"))) as ex:
    for line in ex.map(one, [p for p in probes if not names or p[0] in names]):
        print(line, flush=True)
