"""C18: the patch command leaves the recipe file as the patches before the first failure do, and its exit code tells which failure."""

import copy
import json
import shutil
import tempfile
from pathlib import Path

import c06
import recipegen as rg
from click.testing import CliRunner
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.commands.patch import patch as command
from conda_recipe_manager.parser.recipe_parser import RecipeParser

OK, JSON_ERROR, ILLEGAL, PARSE, USAGE, IO_ERROR = 0, 4, 106, 102, 2, 5


def raw(text):
    return text if isinstance(text, bytes) else text.encode()



MALFORMED = [{"op": "frobnicate", "path": "/a", "value": 1}, {"op": "add", "path": "/a"}, {"path": "/a"}, {}, 7, "x", None, [1], {"op": "move", "path": "/a"}]
NO_JSON = [b"[]\xff", b"\xff\xfe[\x00]\x00", "", "{", "[{]", "op: add", "{'op': 'remove'}", '[{"op": "remove", "path": "/package"},]', "null null"]
NO_RECIPE = [b"package:\n  name: gr\xfc\xdfe\n", "package: [\n", "package:\n\tname: [\n"]


def plan(case):
    """The patches of the case, how many of them are applied, the data they make and the exit code."""
    doc = rg.data(case["m"]["top"])
    patches, applied, code = [], 0, OK
    failed = False
    for i, step in enumerate(case["ops"]):
        if case["bad"] is not None and case["bad"][0] == i:
            patches.append(MALFORMED[case["bad"][1]])
            if not failed:
                failed, code = True, JSON_ERROR
        kind = step["op"]
        patch = {"op": kind, "path": c06.pick_path(doc, step["path"])}
        if kind in ("move", "copy"):
            patch["from"] = c06.pick_path(doc, step["from"])
        elif kind != "remove":
            patch["value"] = step["value"]
        target = c06.lookup(doc, c06.toks(patch["path"]))
        if kind == "test":
            # What a test compares is C06's business: here it either finds its primitive or finds nothing.
            if target is c06.MISSING or not isinstance(target, (bool, int)):
                patch["value"] = "no such value"
                target = c06.MISSING
            else:
                patch["value"] = target
        if c06.unsupported(doc, patch) or c06.has_null(doc) or c06.has_null(step["value"]):
            continue
        if failed:
            patches.append(patch)
            continue
        if case["careful"]:
            try:
                if kind == "test":
                    if target is c06.MISSING:
                        raise c06.Fail
                else:
                    c06.m_apply(copy.deepcopy(doc), patch)
            except c06.Fail:
                continue
        patches.append(patch)
        try:
            if kind != "test":
                doc = c06.m_apply(doc, patch)
            elif target is c06.MISSING:
                raise c06.Fail
            applied += 1
        except c06.Fail:
            failed, code = True, ILLEGAL
    return patches, applied, doc, code


def run(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        text = NO_RECIPE[case["broken"]] if case["broken"] is not None else rg.render(case["m"])
        patches, applied, doc, code = plan(case)
        content = json.dumps(patches, indent=case["indent"], ensure_ascii=case["ascii"])
        if case["single"] and patches:
            first = patches[0]
            content = json.dumps(first)
            ok = applied > 0
            # A list stands for its elements.
            patches = first if isinstance(first, list) else [first]
            applied = min(applied, 1)
            code = OK if ok else code
            if isinstance(first, list):
                code = JSON_ERROR
        if case["no json"] is not None:
            content, code = NO_JSON[case["no json"]], JSON_ERROR
        elif case["broken"] is not None:
            code = IO_ERROR if isinstance(text, bytes) else PARSE
        patch_file, recipe_file = root / "my patch.json", root / "recipe.yaml"
        patch_file.write_bytes(raw(content))
        recipe_file.write_bytes(raw(text))
        (root / "meta.yaml").write_text("bystander")
        want = text
        if case["no json"] is None and case["broken"] is None:
            lib = RecipeParser(text)
            for p in patches[:applied]:
                expect(lib.patch(copy.deepcopy(p)), "the library refuses the patch", text, patches, p)
            want = lib.render()
        res = CliRunner().invoke(command, [str(patch_file), str(recipe_file)])
        now = recipe_file.read_bytes().decode(errors="surrogateescape")
        if isinstance(want, bytes):
            want = want.decode(errors="surrogateescape")
        trace = [text, content, res.output[:500], f"patches applied: {applied}", now]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        expect_eq(int(res.exit_code), code, "exit code", *trace)
        expect_eq(now, want, "recipe file", *trace)
        expect_eq(patch_file.read_bytes(), raw(content), "the file of patches changed", *trace)
        expect_eq(sorted(p.name for p in root.iterdir()), ["meta.yaml", "my patch.json", "recipe.yaml"], "files", *trace)
        expect_eq((root / "meta.yaml").read_text(), "bystander", "another file changed", *trace)
        if case["no json"] is None and case["broken"] is None and not case["single"]:
            again = RecipeParser(now).render_to_object()
            expect_eq(rg.chomp(again), rg.chomp(doc), "what the recipe file says", *trace)
        rec.label(f"exit code {code} after {min(applied, 3)}")
        rec.nontrivial(applied >= 2 or (applied == 1 and code != OK))
    finally:
        shutil.rmtree(root)


def run_usage(case, rec: Rec) -> None:
    """Files that are not there."""
    root = Path(tempfile.mkdtemp())
    try:
        (root / "p.json").write_text("[]")
        (root / "r.yaml").write_text("package:\n  name: foo\n")
        args = [str(root / x) if x else None for x in case]
        args = [a for a in args if a]
        (root / "d").mkdir()
        res = CliRunner().invoke(command, args)
        good = [Path(a).name for a in args] == ["p.json", "r.yaml"]
        rec.nontrivial(not good)
        unreadable = len(args) == 2 and "gone" not in case and "d" in case
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", case)
        expect_eq(int(res.exit_code), OK if good else IO_ERROR if unreadable else USAGE, "exit code", case, res.output)
        expect_eq(sorted(p.name for p in root.rglob("*")), ["d", "p.json", "r.yaml"], "files", case)
        expect_eq((root / "r.yaml").read_text(), "package:\n  name: foo\n", "recipe", case)
    finally:
        shutil.rmtree(root)


@st.composite
def cases(draw):
    h = draw(c06.histories())
    rare = st.sampled_from([None] * 11 + [0, 1, 2])
    return {
        "m": h["m"],
        "ops": h["ops"],
        "careful": draw(st.booleans()),
        "bad": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 5), st.integers(0, len(MALFORMED) - 1)))),
        "single": draw(st.sampled_from([False] * 5 + [True])),
        "indent": draw(st.sampled_from([None, 2])),
        "ascii": draw(st.booleans()),
        "no json": draw(st.sampled_from([None] * 14 + list(range(len(NO_JSON))))) if draw(st.integers(0, 5)) == 5 else None,
        "broken": draw(rare) if draw(st.booleans()) else None,
    }


def usages():
    f = st.sampled_from(["p.json", "r.yaml", "gone", "", "d"])
    return st.tuples(st.sampled_from(["p.json", "p.json", "gone", "", "d"]), f).filter(lambda t: t != ("p.json", "p.json")).map(list)


CHECK = Check(
    "C18",
    "A case is a recipe file and a file of patches (as in C06), with a malformed patch, a failing one, a lone one, no JSON or a "
    "broken recipe among them. The recipe file is compared with the model's data and the library's text after the patches before the first "
    "failure, and every other file with what it was. Non-trivial: two patches applied, or one before a failure.",
    [
        Sub("files", cases, run, quick=2400, thorough=60000, shards=6, shards_thorough=8),
        Sub("usage", usages, run_usage, quick=60, thorough=200),
    ],
)
