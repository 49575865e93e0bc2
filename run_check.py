#!/opt/venv/bin/python
"""Runs one check:  run_check.py C01 [--tier quick|thorough] [--sub NAME] [--replay FILE]"""

import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if "PYTHONHASHSEED" not in os.environ or "VERIF_CHILD" not in os.environ:
    # One interpreter setting for every run: hashing seeded, no byte code left in /repo.
    os.environ["VERIF_CHILD"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif_mpl")
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.dont_write_bytecode = True
# The code under test is always /repo's working tree. Hypothesis is taken from the tooling environment and comes last,
# so the project's own dependencies win; the conda stand-in is used only where there is no conda.
sys.path[0:0] = [REPO, os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
for extra in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages", os.path.join(VERIF, "lib", "stubs")):
    if extra not in sys.path:
        sys.path.append(extra)

import importlib  # noqa: E402

import harness  # noqa: E402


def main() -> int:
    mod = importlib.import_module(sys.argv[1].lower())
    return harness.main_check(mod.CHECK, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
