"""C30: the CI scripts sum up the results in the logs exactly, and fetch as many of the recipes listed as asked for."""

import contextlib
import importlib.util
import io
import json
import math
import multiprocessing
import random
import re
import shutil
import sys
import tempfile
from pathlib import Path

import requests
from harness import REPO, Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st


def load(name):
    spec = importlib.util.spec_from_file_location(f"scripts_{name}", REPO / "scripts" / f"{name}.py")
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


PARSE = load("parse_ci_output")
SELECT = load("randomly_select_recipes")


def call(mod, args):
    """Runs a script in this process; gives exit code and both outputs."""
    out, err, argv = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = ["script"] + [str(a) for a in args]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            mod.main()
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv = argv
    return code, out.getvalue(), err.getvalue()


def close(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return math.isclose(a, b, abs_tol=0.011)
    return a == b


PULLED = ["percent_recipe_exceptions", "percent_recipe_errors", "percent_recipe_success", "percent_errors", "percent_success"]


def aggregate(results):
    out: dict = {}
    for r in results:
        for k, v in r[1].items():
            if not isinstance(v, dict | str):
                out.setdefault(k, []).append(v)
    return {k: round(sum(v) / len(results), 2) if k.startswith("percent_") else sum(v) for k, v in out.items()}


def run_parse(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    logs = root / "logs"
    try:
        logs.mkdir()
        (logs / "directory").mkdir()
        (logs / "directory" / "inner.txt").write_text('{\n"info": {"command_name": "convert", "directory": "inner"},\n"statistics": {"a": 1}\n}\n')
        (logs / ".DS_Store").write_bytes(b"\xff\xfe\0")
        found: dict = {"convert": [], "rattler-bulk-build": []}
        complaints = 0
        for i, parts in enumerate(case["files"]):
            lines = []
            for part in parts:
                if part["kind"] == "noise":
                    lines += part["lines"]
                elif part["kind"] == "bad":
                    lines += part["lines"]
                    complaints += 1
                else:
                    info = {"command_name": part["kind"], "directory": part["dir"]}
                    stats = dict(part["stats"]) | ({"timings": {"total_exec_time": 3.5, "thread_pool_size": 8}} if part["timings"] else {})
                    lines += json.dumps({"info": info, "error_histogram": {"Error: { } bad": 2}, part["key"]: stats}, indent=2).split("\n")
                    found[part["kind"]].append((part["dir"], part["stats"], stats, part["key"]))
            stamp = ["", "2024-05-0{}T12:34:5{}.1234567Z ", "2023-12-3{}T01:02:3{}.5Z\t"][case["stamp"]]
            (logs / [f"{i}_log.txt", f".{i}.log", f"{i} job", f"{i}.json"][case["names"] * i % 4]).write_text("".join(stamp.format(n % 2, n % 10) + line + "\n" for n, line in enumerate(lines)), encoding="utf-8")
        args = (["-v"] if case["verbose"] == 1 else ["--verbose"] if case["verbose"] else []) + [logs]
        code, out, err = call(PARSE, args)
        trace = [case, out[:3000], err]
        expect_eq(code, 0, "exit code", *trace)
        res = json.loads(out)
        want_keys = ["summary"] + (["raw_conversion_results", "raw_dry_run_results"] if case["verbose"] else [])
        expect_eq(list(res), want_keys, "sections", *trace)
        expect_eq(len(err.splitlines()), complaints, "complaints about what could not be read", *trace)
        stages = res["summary"]["all_stages"]
        for key, kind in (("recipe_conversion", "convert"), ("rattler_dry_run", "rattler-bulk-build")):
            expect(close(stages[key], aggregate(found[kind])), f"sums of {kind}", stages[key], aggregate(found[kind]), *trace)
        tests: dict = {}
        for title, kind in (("recipe_conversion", "convert"), ("recipe_dry_run", "rattler-bulk-build")):
            for where, stats, _, _ in found[kind]:
                t = tests.setdefault(Path(where).name, {"test_count": 0})
                t["test_count"] += 1
                pulled = {k: stats[k] for k in PULLED if k in stats}
                if pulled:
                    t.setdefault(title, {}).update(pulled)
        got = res["summary"]["test_summaries"]
        expect_eq(list(got), sorted(tests), "tests and their order", *trace)
        expect(close(got, tests), "summaries of the tests", got, tests, *trace)
        if case["verbose"]:
            for key, kind in (("raw_conversion_results", "convert"), ("raw_dry_run_results", "rattler-bulk-build")):
                raw = sorted(json.dumps([r["info"]["directory"], r.get("statistics", r.get("stats"))], sort_keys=True) for r in res[key])
                expect_eq(raw, sorted(json.dumps([d, s], sort_keys=True) for d, _, s, _ in found[kind]), key, *trace)
        rec.label(f"{min(4, sum(map(len, found.values())))} results")
        rec.nontrivial(len(found["convert"]) > 1 and bool(found["rattler-bulk-build"]))
    finally:
        shutil.rmtree(root)


NOISE = ["", "Run make", "{ a", "} b", "  {", "  }", '"x": {', "##[group]{", "[", "]", "fünf ✓", "null"]
BAD = [["{", "}"], ["{", "  broken", "}"], ["{", '  "a": 1', "}"], ["}"], ["{", '  "info": {}', "}"], ["{", '  "info": {"directory": "x"}', "}"], ["{", '  "statistics": {}', "", "}"]]


@st.composite
def logs(draw):
    n = 0
    files = []
    for _ in range(draw(st.integers(0, 4))):
        parts = []
        for _ in range(draw(st.integers(0, 5))):
            kind = draw(st.sampled_from(["convert", "convert", "rattler-bulk-build", "noise", "bad"]))
            if kind == "noise":
                parts.append({"kind": kind, "lines": draw(st.lists(st.sampled_from(NOISE), max_size=4)) + draw(st.sampled_from([[], ["{"], ["{", "  half"]]))})
                continue
            if kind == "bad":
                parts.append({"kind": kind, "lines": draw(st.sampled_from(BAD))})
                continue
            # One result per phase of each test: which of several wins depends on the file system.
            n += 1
            keys = PULLED[:3] if kind == "convert" else PULLED[3:]
            stats = {k: draw(st.integers(0, 100)) / 100 for k in draw(st.lists(st.sampled_from(keys + ["percent_other"]), max_size=4, unique=True))}
            stats |= {k: draw(st.integers(0, 99)) for k in draw(st.lists(st.sampled_from(["total_errors", "total_recipe_files", "num_x"]), max_size=3, unique=True))}
            if draw(st.integers(0, 3)) == 3:
                stats["some_rate"] = draw(st.integers(0, 9)) + 0.5
            parts.append(
                {
                    "kind": kind,
                    "dir": draw(st.sampled_from(["t{}", "work/t{}", "/abs/dir/t{}", "t{}/", "v1.{}", "a b/v1.{}", ".t{}", "T{}", "t{}.x", "_t{}_", "t-{}"])).format(n if draw(st.integers(0, 2)) or kind == "convert" else n - 1 if parts and parts[-1]["kind"] == "convert" else n),
                    "key": draw(st.sampled_from(["statistics", "stats"])),
                    "stats": stats,
                    "timings": draw(st.booleans()),
                }
            )
        files.append(parts)
    return {"files": files, "stamp": draw(st.integers(0, 2)), "names": draw(st.integers(0, 3)), "verbose": draw(st.integers(0, 2))}


class Answer:
    def __init__(self, status, text):
        self.status_code, self.text = status, text
        self.content = text.encode()
        self.ok = status < 400


def run_select(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    real, cpus = requests.get, multiprocessing.cpu_count
    try:
        served = {r: b for r, b in case["repos"]}
        (root / "calls").mkdir()
        (root / "list").write_text("".join(f"{r}\n" if case["bare"] and i % 3 == 1 else f"{r}\ta \"note\" about it\tpublic\t2024-01-01\n" + ("\n" if i % 3 == 2 else "") for i, (r, _) in enumerate(case["repos"])))
        args = [root / "list", case["n"], root / "out"]
        if case["exclude"] is not None:
            (root / "excluded").write_text("".join(f"{'  ' if i % 2 else ''}{r}\n" for i, r in enumerate(case["exclude"])))
            args = ["-e" if case["n"] % 2 else "--exclude", root / "excluded"] + args

        def get(url, *_a, **_k):
            m = re.fullmatch(r"https://raw\.githubusercontent\.com/(.+)/(main|master)/recipe/meta\.yaml", url)
            if not m:
                raise AssertionError(f"request for {url}")
            with open(root / "calls" / m[1].replace("/", "%"), "a", encoding="utf-8") as f:
                f.write(m[2] + "\n")
            branch = served[m[1]]
            if branch == "error":
                raise requests.exceptions.ConnectionError("no")
            if branch == "late" and m[2] == "main":
                raise requests.exceptions.Timeout("no")
            good = branch in (m[2], "both") or (branch == "late" and m[2] == "master")
            return Answer(200 if good else 404, f"{m[1]} {m[2]}\nx: 'ÿ ✓'\n" if good else "404: Not Found")

        requests.get = get
        multiprocessing.cpu_count = lambda: 2
        random.seed(case["seed"])
        code, out, err = call(SELECT, args)
        trace = [case, out, err]
        expect_eq(code, 0, "exit code", *trace)
        allowed = set(served) - set(case["exclude"] or [])
        picked = min(case["n"], len(allowed))
        asked = {p.name.replace("%", "/"): p.read_text().split() for p in (root / "calls").iterdir()}
        silent = {r for r in allowed if "/" not in r}
        expect(set(asked) <= allowed - silent, "recipes fetched that are not to be", asked, *trace)
        expect(picked - len(silent) <= len(asked) <= picked, "number of recipes asked for", len(asked), picked, *trace)
        for r, branches in asked.items():
            want = ["main"] if served[r] in ("main", "both") else ["main", "master"]
            expect_eq(branches, want, f"requests for {r}", *trace)
        files = {str(p.relative_to(root / "out")): p.read_text() for p in sorted((root / "out").rglob("*")) if p.is_file()} if (root / "out").exists() else {}
        want_files = {}
        for r in asked:
            b = {"main": "main", "both": "main", "master": "master", "late": "master"}.get(served[r])
            if b:
                want_files[r.split("/", 1)[1] + "/recipe/meta.yaml"] = f"{r} {b}\nx: 'ÿ ✓'\n"
        expect_eq(dict(sorted(files.items())), dict(sorted(want_files.items())), "recipes fetched", *trace)
        numbers = re.findall(r"\d+", out)
        expect_eq(numbers, [str(x) for x in (picked, case["n"], len(want_files), picked)], "numbers reported", *trace)
        rec.label("all" if picked == len(allowed) else "some")
        rec.nontrivial(0 < len(want_files) < picked)
    finally:
        requests.get, multiprocessing.cpu_count = real, cpus
        shutil.rmtree(root)


@st.composite
def selections(draw):
    names = draw(st.lists(st.sampled_from([f"org/{x}-feedstock" for x in "abcdefgh"] + ["org/a.b_c", "lone"]), max_size=9, unique=True))
    repos = [[r, draw(st.sampled_from(["main", "main", "both", "master", "late", "none", "error"]))] for r in names]
    exclude = draw(st.one_of(st.none(), st.lists(st.sampled_from(names + ["org/other"]), max_size=4), st.lists(st.sampled_from(names), min_size=1, max_size=6))) if names else None
    return {"repos": repos, "n": draw(st.one_of(st.integers(0, 10), st.sampled_from([max(0, len(names) - 1), max(0, len(names) - 2), len(names)]))), "bare": draw(st.booleans()), "exclude": exclude, "seed": draw(st.integers(0, 99))}


CHECK = Check(
    "C30",
    "A case is a directory of CI logs, with or without time stamps, with JSON results among noise and broken or unknown JSON; or a list of repositories, exclusions and "
    "a number, with a stand-in for the server (files on main, master, both or neither, connections that fail). The summary is compared with the results put into the "
    "logs; requests, files and numbers with the lists. Non-trivial: two conversions and a dry run; some of the recipes picked can be fetched, others can't.",
    [
        Sub("parse", logs, run_parse, quick=2400, thorough=60000, shards=4, shards_thorough=8),
        Sub("select", selections, run_select, quick=300, thorough=8000, shards=4, shards_thorough=8, confirm=True),
    ],
)
