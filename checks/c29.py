"""C29: the bulk build runs rattler-build on each recipe, with the arguments given, and counts the outcomes exactly."""

import json
import multiprocessing
import os
import shutil
import tempfile
from pathlib import Path

from click.testing import CliRunner
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.commands import rattler_bulk_build as module
from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager
from conda_recipe_manager.commands.rattler_bulk_build import rattler_bulk_build

OK, USAGE, NO_FILES, MISSED = 0, 2, 3, 42

# Stands for rattler-build: does what the files next to the recipe say, and notes how it was called.
FAKE = """#!/bin/sh
for a; do printf '%s\\0' "$a"; done > "$CALLS/call.$$"
cat "$3.out"
cat "$3.err" >&2
. "$3.end"
"""

# What rattler-build may write, and the errors that are in it.
LINES = [
    ("", []),
    ("Error: bad", ["Error: bad"]),
    ("Error:   × Failed to parse recipe", ["Error:   × Failed to parse recipe"]),
    (" \x1b[31mError: in color\x1b[0m", ["Error: in color\x1b[0m"]),
    ("Error: first Error: second", ["Error: first Error: second"]),
    ("Error: bad", ["Error: bad"]),
    ("Error:\ttab", ["Error:\ttab"]),
    ("  Error: indented  ", ["Error: indented  "]),
    ("ERROR: no", []),
    ("error: no", []),
    ("Error:none", []),
    ("An Error happened", []),
    ("warning: Error", []),
    ("FooError: missing", ["Error: missing"]),
    ("latin-1: gr\udcfc\udcdfe", []),
    ('Error: "quotes" \\ and grüße', ['Error: "quotes" \\ and grüße']),
]
LINES += [(f"Error: number {i}", [f"Error: number {i}"]) for i in range(25)] + [("x" * 150000 + " Error: far out", ["Error: far out"])]
ENDS = {"0": 0, "1": 1, "2": 2, "43": 43, "101": 101, "255": 255, "kill": 1}


def run(case, rec: Rec) -> None:
    scratch = Path(tempfile.mkdtemp())
    env = {"PATH": os.environ["PATH"], "CALLS": str(scratch / "calls")}
    cpus = multiprocessing.cpu_count
    limit = getattr(module, "DEFAULT_RATTLER_BUILD_TIMEOUT", None)
    try:
        (scratch / "calls").mkdir()
        (scratch / "bin").mkdir()
        fake = scratch / "bin" / "rattler-build"
        fake.write_text(FAKE)
        fake.chmod(0o755)
        if not case["missing"]:
            env["PATH"] = f"{scratch / 'bin'}:{env['PATH']}"
        root = scratch / "work dir" / case["root"] if case["space"] else scratch / case["root"]
        root.mkdir(parents=True)
        want: dict = {}
        slow = set()
        for where, end, err, out in case["recipes"]:
            d = root / where if case["space"] else root / where.replace(" ", "_")
            d.mkdir(parents=True, exist_ok=True)
            f = d / "recipe.yaml"
            key = str(f.relative_to(root))
            if key in want or (end == "slow" and (limit is None or case["missing"])):
                continue
            f.write_text("package:\n  name: foo\n")
            (d / "recipe.yaml.err").write_bytes("".join(LINES[i][0] + "\n" for i in err).encode(errors="surrogateescape"))
            (d / "recipe.yaml.out").write_text("Error: on standard output\n" * (9000 if len(err) > 6 else 1) if out else "fine\n")
            (d / "recipe.yaml.end").write_text({"kill": "kill -9 $$\n", "slow": "exec sleep 60\n"}.get(end, f"exit {end}\n"))
            (d / "meta.yaml").write_text("not: a recipe of this kind\n")
            want[key] = (ENDS.get(end, 1), [e for i in err for e in LINES[i][1]])
            if end == "slow":
                slow.add(key)
        for decoy in ("Recipe.yaml", "recipe.yml", "my-recipe.yaml"):
            (root / decoy).write_text("x: y\n")
        args = [str(root)] + (["-m", str(case["rate"])] if case["rate"] is not None else [])
        if case["truncate"]:
            args.append(["-t", "--truncate"][case["long"]])
        log = scratch / "debug log.json"
        if case["log"]:
            args += [["-l", "--debug-log"][case["long"]], str(log)]
            if case["log"] == 2:
                log.write_text("stale" * 1000)
        extra = case["args"] if case["space"] else [a for a in case["args"] if " " not in a]
        args += extra
        multiprocessing.cpu_count = lambda: 2
        if slow:
            module.DEFAULT_RATTLER_BUILD_TIMEOUT = 4
        if case["group"]:
            res = CliRunner(env=env).invoke(conda_recipe_manager, ["rattler-bulk-build"] + args)
        else:
            res = CliRunner(env=env).invoke(rattler_bulk_build, args)
        trace = [args, want, res.output[:3000]]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        calls = [p.read_text().split("\0")[:-1] for p in (scratch / "calls").iterdir()]
        if not want:
            expect_eq(int(res.exit_code), NO_FILES, "exit code without recipes", *trace)
            expect_eq((res.stdout, bool(res.stderr)), ("", True), "output without recipes", *trace)
            expect_eq(calls, [], "calls without recipes", *trace)
            rec.label("no recipes")
            return
        wanted = [] if case["missing"] else sorted(["build", "-r", str(root / k)] + extra for k in want)
        expect_eq(sorted(calls), wanted, "how rattler-build was called", *trace)
        n = len(want)
        bad = sorted(want) if case["missing"] else sorted(k for k, v in want.items() if v[0])
        rate = round((n - len(bad)) / n, 2)
        threshold = 0.8 if case["rate"] is None else case["rate"]
        expect_eq(int(res.exit_code), OK if rate >= threshold else MISSED, "exit code", *trace)
        out = json.loads(res.stdout)
        stats = out["statistics"]
        for key, value in {
            "total_recipe_files": n,
            "total_recipes_processed": n,
            "total_errors": len(bad),
            "percent_errors": round(len(bad) / n, 2),
            "percent_success": rate,
        }.items():
            expect_eq(stats.get(key), value, f"statistic {key}", *trace)
        expect_eq(out["info"], {"command_name": "rattler-bulk-build", "directory": case["root"]}, "info", *trace)
        timing = stats["timings"]
        expect(0 <= timing["avg_recipe_time"] <= timing["total_exec_time"] and timing["thread_pool_size"] >= 1, "timings", timing, *trace)
        hist: dict = {}
        where: dict = {}
        for k, (_, errors) in want.items():
            if k in slow or case["missing"]:
                continue
            for e in errors:
                hist[e] = hist.get(e, 0) + 1
                where.setdefault(e, set()).add(k)
        got = dict(out["error_histogram"])
        for key in [e for e in got if "timed out" in e] if slow else []:
            expect_eq(got.pop(key), len(slow), "time-outs in the histogram", *trace)
            where[key] = slow
            rec.label("time-out")
        if case["missing"]:
            expect(all(v == n for v in got.values()), "histogram without rattler-build", *trace)
        else:
            expect_eq(dict(sorted(got.items())), dict(sorted(hist.items())), "error histogram", *trace)
            expect(not slow or len(out["error_histogram"]) == len(hist) + 1, "a time-out is not in the histogram", *trace)
        if case["truncate"]:
            expect("recipes_with_build_error_code" not in out, "list of recipes in truncated output", *trace)
        else:
            expect_eq(sorted(out["recipes_with_build_error_code"]), bad, "recipes that failed", *trace)
        if not case["log"]:
            expect(not log.exists(), "a debug log nobody asked for", *trace)
        else:
            errors = json.loads(log.read_text())["errors"]
            if not case["missing"]:
                entries = {e["error"]: (e["recipe_count"], e["recipes"]) for e in errors}
                expect_eq(len(entries), len(errors), "an error is twice in the debug log", *trace, errors)
                expect_eq(dict(sorted(entries.items())), {e: (len(w), sorted(w)) for e, w in sorted(where.items())}, "debug log", *trace)
            counts = [e["recipe_count"] for e in errors]
            expect_eq(counts, sorted(counts, reverse=True), "order of the debug log", *trace, errors)
        rec.label("success" if rate >= threshold else "too few")
        rec.nontrivial(len(bad) not in (0, n) and len(hist) > 1)
    finally:
        multiprocessing.cpu_count = cpus
        if limit is not None:
            module.DEFAULT_RATTLER_BUILD_TIMEOUT = limit
        shutil.rmtree(scratch)


EXTRA = [["--render-only"], ["--experimental"], ["-c", "conda-forge"], ["--variant-config", "a.yaml"], ["--test=skip"], ["--target-platform", "linux-64"], ["--", "x"]]
EXTRA += [["--output-dir", "out put"], ["--foo", "a'b \"c\" d"], ["$HOME"], ["a;b"], ["*"], ["--glob=?*"], ["x|y", "&"]]


@st.composite
def cases(draw):
    where = st.sampled_from(["a/recipe", "b/recipe", "c", "d e/x/recipe", ".", "f/deep/er/still", "g-1/recipe", "h_recipe.yaml", ".hidden"])
    recipe = st.tuples(
        where,
        st.sampled_from(["0", "0", "0", "0"] + sorted(ENDS)),
        st.one_of(st.lists(st.integers(0, 14), max_size=4), st.lists(st.integers(0, 14), max_size=4), st.lists(st.integers(0, len(LINES) - 1), max_size=15)),
        st.booleans(),
    ).map(list)
    space = draw(st.booleans())
    extra = [a for e in draw(st.lists(st.sampled_from(EXTRA if space else EXTRA[:6]), max_size=3)) for a in e]
    if "--" in extra:
        extra = extra[: extra.index("--")]
    return {
        "recipes": draw(st.lists(recipe, min_size=draw(st.sampled_from([0, 1, 3, 3, 3])), max_size=7)),
        "root": draw(st.sampled_from(["feedstocks", "f.d", "recipe.yaml"])),
        "rate": draw(st.sampled_from([None, None, 0.0, 0.5, 0.33, 0.67, 1.0])),
        "truncate": draw(st.booleans()),
        "long": draw(st.booleans()),
        "log": draw(st.sampled_from([0, 1, 1, 2])),
        "args": extra,
        "space": space,
        "group": draw(st.booleans()),
        "missing": draw(st.integers(0, 19)) == 17,
    }


@st.composite
def slow_cases(draw):
    c = draw(cases())
    c["missing"] = False
    c["recipes"] = [["slow one", "slow", [1], False]] + c["recipes"][:2]
    return c


def run_usage(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        (root / "recipe.yaml").write_text("x: y\n")
        args = [a.replace("ROOT", str(root)) for a in case["args"]]
        res = CliRunner(env={"PATH": "/nonexistent"}).invoke(rattler_bulk_build, args)
        expect_eq((int(res.exit_code), res.stdout), (USAGE, ""), "exit code and output", args, res.output)
        expect(bool(res.stderr), "no message", args)
        rec.nontrivial()
    finally:
        shutil.rmtree(root)


def usages(_tier):
    return [{"args": a} for a in ([], ["ROOT/gone"], ["ROOT/recipe.yaml"], ["ROOT", "-m", "1.5"], ["ROOT", "-m", "x"], ["ROOT", "-m", "-0.1"], ["ROOT", "-l", "ROOT"])]


CHECK = Check(
    "C29",
    "A case is a directory of up to seven recipe.yaml files at any depth, with files of similar names, options and arguments for rattler-build, which is a "
    "stand-in that ends as each recipe says, with errors and other text on both outputs. The calls, exit code, statistics, histogram and debug log are compared with "
    "what the recipes say. Non-trivial: recipes that fail and others that don't, and two kinds of errors.",
    [
        Sub("bulk", cases, run, quick=500, thorough=15000, shards=6, shards_thorough=8, confirm=True),
        Sub("slow", slow_cases, run, quick=4, thorough=60, shards=2, shards_thorough=8, confirm=True),
        Sub("usage", None, run_usage, quick=0, thorough=0, enumerate=usages),
    ],
)
