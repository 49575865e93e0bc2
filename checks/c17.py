"""C17: the convert command writes what the conversion gives, and its exit code and statistics say how that went."""

import json
import multiprocessing
import shutil
import tempfile
from pathlib import Path

import c14
import recipegen as rg
from click.testing import CliRunner
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.commands.convert import convert
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory

IO_ERROR = 5
OK, WARN, ERR, PARSE, RENDER, READ, PRE, ILLEGAL, MISSED, USAGE = 0, 100, 101, 102, 103, 104, 105, 106, 42, 2
PLAIN = "package:\n  name: foo\n  version: 1.2.3\n"
KNOWN_TEXTS = {
    "clean": PLAIN + "\nabout:\n  summary: x\n  license: MIT\n  license_file: LICENSE\n",
    "dots": '{% set version = "1.2.3" %}\n{% set v = version.replace(".", "_") %}\n\n' + PLAIN + "\nsource:\n  url: x/{{ v.lower() }}\n",
    "hash": PLAIN + "\nsource:\n  url: https://a.b/c\n  {{ hash_type }}: abcdef\n",
    "selector": PLAIN + "\nbuild:\n  number: 1  # [win]\n",
    "license": PLAIN + "\nabout:\n  license: What ever\n",
    "unknown key": PLAIN + "\nabout:\n  doc_source_url: x\n  license_family: y\n",
    "unicode": PLAIN + "\nabout:\n  summary: grüße ✓\n",
    "v1": "schema_version: 1\n\n" + PLAIN,
    "broken": 'package:\n  name: "foo\n  version: 1\n',
    "broken2": "package:\n\tname: [\n",
}


def result_of(data: bytes):
    """(exit code, converted text, warnings, errors, exception messages)"""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return READ, None, [], [], 1
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    text = RecipeParserConvert.pre_process_recipe_text(text)
    try:
        p = RecipeParserConvert(text)
    except Exception:  # pylint: disable=broad-exception-caught
        return PARSE, None, [], [], 1
    if p.get_schema_version() != 0:
        return ILLEGAL, None, [], [], 1
    try:
        out, table, _ = p.render_to_v1_recipe_format()
    except Exception:  # pylint: disable=broad-exception-caught
        return RENDER, None, [], [], 1
    warnings, errors = (list(table.get_messages(c)) for c in (MessageCategory.WARNING, MessageCategory.ERROR))
    return (ERR if errors else WARN if warnings else OK), out, warnings, errors, 0


def bytes_of(recipe) -> bytes:
    if isinstance(recipe, bytes):
        return recipe
    if isinstance(recipe, str):
        return KNOWN_TEXTS[recipe].encode()
    return rg.render(recipe).encode()


def tree(root: Path):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}


def run_single(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        data = bytes_of(case["recipe"])
        where = root / "feedstock" / "recipe"
        where.mkdir(parents=True)
        src = where / ("meta.yaml" if case["by_dir"] else case["name"])
        src.write_bytes(data)
        (where / "notes.txt").write_text("x")
        before = tree(root)
        code, out, warnings, errors, _ = result_of(data)
        args = [str(root / "feedstock" if case["by_dir"] else src)]
        target = root / case["output"] if case["output"] else None
        if target:
            if case["exists"]:
                target.write_text("old content\n" * 500)
                before = tree(root)
            if case["blocked"]:  # can't be written
                target = target.with_name(target.name + "-gone") / "x" if case["exists"] else where
            args += [["-o", "--output"][case["long"]], str(target)]
            if case["blocked"] and out is not None:
                code, out = IO_ERROR, None
        if case["debug"]:
            args.append("--debug")
        res = CliRunner().invoke(convert, args)
        trace = [args, data.decode(errors="replace"), res.output[:800]]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        expect_eq(int(res.exit_code), code, "exit code", *trace)
        expect_eq(res.stdout, "" if target or out is None else out + "\n", "standard output", *trace)
        want = dict(before)
        if target and out is not None:
            want[str(target.relative_to(root))] = out.encode()
        expect_eq(tree(root), dict(sorted(want.items())), "files afterwards", *trace)
        lines = res.stderr.split("\n")
        for kind, msgs in (("WARNING", warnings), ("ERROR", errors)):
            got = [x for x in res.stderr.split("\n") if x.startswith(f"[{kind}]")]
            expect_eq(got, [f"[{kind}]: {m}" for m in msgs if "\n" not in m], f"messages of kind {kind}", *trace) if all(
                "\n" not in m for m in msgs
            ) else None
        if warnings or errors:
            e, w = len(errors), len(warnings)
            total = f"{e} error{'s' * (e != 1)} and {w} warning{'s' * (w != 1)} were found."
            expect(total in lines, f"no line {total!r}", *trace)
        rec.label(f"exit code {code}")
        rec.nontrivial(code in (OK, WARN, ERR) or target is not None)
    finally:
        shutil.rmtree(root)


def run_bulk(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp()) / "feedstocks"
    multiprocessing.cpu_count = lambda: 2  # more processes only take longer
    try:
        want = {}
        for i, (recipe, sub) in enumerate(case["recipes"]):
            d = root / f"{sub[0]}{i}" / "/".join(sub[1:])
            d.mkdir(parents=True)
            data = bytes_of(recipe)
            (d / "meta.yaml").write_bytes(data)
            (d / "build.sh").write_text("make\n")
            if i % 3 == 1:
                (d / "old.yaml").write_text("a: [")
                (d / "recipe.yaml").write_text("stale")
            found = result_of(data)
            if i in case["blocked"] and case["output"]:  # the output can't be written
                (d / case["output"]).unlink(missing_ok=True)
                (d / case["output"]).mkdir()
                if found[1] is not None:
                    found = (IO_ERROR, None, found[2], found[3], 1)
            want[str((d / "meta.yaml").relative_to(root))] = found
        before = tree(root)
        args = [str(root)]
        if case["output"]:
            args += ["-o", case["output"]]
        if case["rate"] is not None:
            args += [["-m", "--min-success-rate"][case["long"]], str(case["rate"])]
        if case["truncate"]:
            args.append(["-t", "--truncate"][case["long"]])
        res = CliRunner().invoke(convert, args)
        trace = [args, {k: (v[0], v[2], v[3]) for k, v in want.items()}, res.output[:3000]]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        files = dict(before)
        if case["output"]:
            for k, v in want.items():
                if v[1] is not None:
                    files[str(Path(k).parent / case["output"])] = v[1].encode()
        expect_eq(tree(root), dict(sorted(files.items())), "files afterwards", *trace)
        n = len(want)
        good = sum(v[0] in (OK, WARN) for v in want.values())
        rate = round(good / n, 2)
        limit = 0.8 if case["rate"] is None else case["rate"]
        expect_eq(int(res.exit_code), OK if rate >= limit else MISSED, "exit code", *trace)
        out = json.loads(res.stdout)
        stats = out["statistics"]
        exceptions = sorted(k for k, v in want.items() if v[4])
        errors = sorted(k for k, v in want.items() if v[3])
        warned = sorted(k for k, v in want.items() if v[2])
        for key, value in {
            "total_recipe_files": n,
            "total_recipes_processed": n,
            "total_errors": sum(len(v[3]) for v in want.values()),
            "total_warnings": sum(len(v[2]) for v in want.values()),
            "num_recipe_exceptions": len(exceptions),
            "num_recipe_errors": len(errors),
            "num_recipe_warnings": len(warned),
            "num_recipe_success": good,
            "num_theoretical_recipe_success": n - len({*exceptions, *errors}),
            "percent_recipe_exceptions": round(len(exceptions) / n, 2),
            "percent_recipe_errors": round(len(errors) / n, 2),
            "percent_recipe_warnings": round(len(warned) / n, 2),
            "percent_recipe_success": rate,
            "percent_recipe_theoretical_success": round((n - len({*exceptions, *errors})) / n, 2),
        }.items():
            expect_eq(stats.get(key), value, f"statistic {key}", *trace)
        for key, idx in (("error_histogram", 3), ("warnings_histogram", 2)):
            hist: dict = {}
            for v in want.values():
                for m in v[idx]:
                    hist[m] = hist.get(m, 0) + 1
            expect_eq(dict(sorted(out[key].items())), dict(sorted(hist.items())), key, *trace)
        expect_eq(sum(out["exception_histogram"].values()), len(exceptions), "exceptions in the histogram", *trace)
        for key, value in (("recipes_with_exceptions", exceptions), ("recipes_with_errors", errors), ("recipes_with_warnings", warned)):
            if case["truncate"]:
                expect(key not in out, f"{key} in truncated output", *trace)
            else:
                expect_eq(sorted(out.get(key, ["missing"])), value, key, *trace)
        expect_eq(out["info"], {"command_name": "convert", "directory": "feedstocks"}, "info", *trace)
        rec.label("success" if rate >= limit else "too few")
        rec.nontrivial(len({v[0] for v in want.values()}) > 1)
    finally:
        shutil.rmtree(root.parent)


@st.composite
def recipe(draw):
    k = draw(st.integers(0, 9))
    if k <= 2:
        return draw(c14.cases())["m"]
    if k == 3:
        return draw(st.sampled_from([b"package:\n  name: \xff\n", b"\xfe\xff", b"package:\r\n  name: foo\r\n  version: 1\r\n"]))
    return draw(st.sampled_from(sorted(KNOWN_TEXTS)))


@st.composite
def singles(draw):
    return {
        "recipe": draw(recipe()),
        "name": draw(st.sampled_from(["meta.yaml", "meta.yaml", "foo.yaml", "x y.yml"])),
        "by_dir": draw(st.booleans()),
        "output": draw(st.sampled_from([None, "recipe.yaml", "recipe.yaml", "out put.yml"])),
        "exists": draw(st.booleans()),
        "blocked": draw(st.integers(0, 9)) == 7,
        "long": draw(st.booleans()),
        "debug": draw(st.integers(0, 4)) == 4,
    }


@st.composite
def bulks(draw):
    sub = st.sampled_from([["a", "recipe"], ["b", "recipe"], ["c"], ["d e", "x", "recipe"]])
    return {
        "recipes": draw(st.lists(st.tuples(recipe(), sub).map(list), min_size=2, max_size=7)),
        "output": draw(st.sampled_from([None, "recipe.yaml", "new.yaml"])),
        "rate": draw(st.sampled_from([None, None, 0.0, 0.5, 0.33, 0.67, 1.0])),
        "long": draw(st.booleans()),
        "truncate": draw(st.booleans()),
        "blocked": draw(st.lists(st.integers(0, 6), min_size=1, max_size=2)) if draw(st.integers(0, 4)) == 3 else [],
    }


CHECK = Check(
    "C17",
    "A case is one recipe file, or a directory of two to seven feedstocks, with recipes that convert cleanly, with warnings or errors, are in the new "
    "format, broken or no text, and options. The command runs in a scratch directory; exit code, output, all files and every statistic are "
    "compared with what the library gives for each file. Non-trivial: a recipe that converts or an output file; feedstocks with different outcomes.",
    [
        Sub("single", singles, run_single, quick=1000, thorough=30000, shards=4, shards_thorough=8),
        Sub("bulk", bulks, run_bulk, quick=240, thorough=8000, shards=4, shards_thorough=8),
    ],
)
