#!/usr/bin/env python3
"""Which lines that the planted bugs remove are in the original repository (the first commit of /repo)?"""
import subprocess, sys
from pathlib import Path
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
for d in sorted(Path(__file__).resolve().parent.parent.glob("seeded/*")):
    f, n, mine, added = None, 0, [], 0
    for ln in (d / "patch.diff").read_text().splitlines():
        if ln.startswith("--- a/"):
            f = set(subprocess.check_output(["git", "-C", "/repo", "show", f"{base}:{ln[6:]}"], text=True).splitlines())
        elif ln.startswith("-") and not ln.startswith("---"):
            n += 1
            if ln[1:] not in f:
                mine.append(ln)
        elif ln.startswith("+") and not ln.startswith("+++"):
            added += 1
    print(d.name, "removed", n, "added", added, "NOT ORIGINAL:" if mine else "ok", *mine)
