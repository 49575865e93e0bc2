"""C13: adding and removing dependencies changes just the dependency meant, as the conflict modes say."""

import copy

import recipegen as rg
import selmodel as sm
from c12 import NAMES, check_deps, model_of, recipes, specs, value, want_of, word
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str
from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.types import SchemaVersion

DEP_MODES = {m.name: m for m in DependencyConflictMode}
SEL_MODES = {m.name: m for m in SelectorConflictMode}


def lines(text):
    """Blank lines are set aside."""
    return [ln for ln in text.split("\n") if ln.strip()]


def name_of(text):
    """Name by which two dependencies are the same."""
    return dependency_data_from_str(text).name


def combined(old, new, mode):
    """Comment on a line whose selector was `old`."""
    if mode == "REPLACE" or not old:
        sel = new if mode == "REPLACE" else (new or old)
    elif not new:
        sel = old
    else:
        sel = f"[{old[1:-1]} {mode.lower()} {new[1:-1]}]"
    return f"# {sel}" if sel else ""


def selector_of(d):
    return d["c"][2:] if d["c"] else None


def add(case, op, path):
    """Applies an edit to the model. Returns whether it has an effect."""
    parts = path.split("/")
    pkg = case["pkgs"][int(parts[2]) + 1 if parts[1] == "outputs" else 0]
    sec, at = parts[-2], int(parts[-1])
    env = {n: v for n, v in case["vars"]}
    sel, mode = op["sel"], op["dep_mode"]
    spec = word(op["spec"])
    if pkg["reqs"] is None:
        return False
    entries = [r for r in pkg["reqs"] if r[0] == sec]
    new = {"w": op["spec"], "c": f"# {sel}" if sel else "", "pre": []}
    if not entries:
        if mode == "EXACT_POSITION":
            return False
        pkg["reqs"].append([sec, [new], ""])
        return True
    entry = entries[0]
    deps = entry[1] or []
    hit = None
    if mode == "EXACT_POSITION":
        if at >= len(deps):
            return False
        hit = at
    elif mode != "USE_BOTH":
        for i, d in enumerate(deps):
            text = value(d["w"], env, case["schema"]).strip()
            if text and name_of(text) == name_of(spec):
                hit = i
                break
        if hit is not None and mode == "IGNORE":
            return False
    if hit is None:
        entry[1] = deps + [new]
        return True
    old = deps[hit]
    deps[hit] = {"w": op["spec"], "c": combined(selector_of(old), sel, op["sel_mode"]), "pre": old["pre"]}
    return True


def remove(case, path):
    parts = path.split("/")
    pkg = case["pkgs"][int(parts[2]) + 1 if parts[1] == "outputs" else 0]
    for r in pkg["reqs"] or []:
        if r[0] == parts[-2] and int(parts[-1]) < len(r[1] or []):
            del r[1][int(parts[-1])]
            r[1] = r[1] or None
            return True
    return False


BAD_PATHS = [
    "/requirements/run", "/requirements/foo/0", "requirements/run/0", "/requirements/run/x", "/requirements/run/-", "", "/", "/build/number",
    "/outputs/x/requirements/run/0", "/outputs/99/requirements/run/0", "/outputs/0/run/0", "/foo/0/requirements/run/0", "/a/run/0",
    "/outputs/0/requirements/nope/0", "/outputs/0/requirements/run/y", "/outputs/0/requirements/run", "/test/run/0", "x/requirements/run/0", "x/outputs/0/requirements/run/0", " /requirements/run/0", "//requirements/run/0",
]  # fmt: skip


def run(case, rec: Rec) -> None:
    case = copy.deepcopy(case)
    text = rg.render(model_of(case))
    p = RecipeParserDeps(text)
    trace = [text]
    done, modified = 0, False
    for op in case["ops"]:
        before = p.render()
        n = len(case["pkgs"])
        base = f"/outputs/{op['pkg'] % (n - 1)}" if n > 1 and op["pkg"] % n else ""
        path = f"{base}/requirements/{op['sec']}/{op['at']}"
        own = [d for deps in p.get_all_dependencies().values() for d in deps]
        if op["op"] == "existing" and own:
            path = own[op["pkg"] * 7 % len(own)].path
        if op["op"] == "bad":
            path = BAD_PATHS[op["at"] % len(BAD_PATHS)]
        data = dependency_data_from_str(word(op["spec"]))
        if case["schema"] == 1:
            op = {**op, "sel": None}
        dep = Dependency("any", path, DependencySection.RUN, data, SelectorParser(op["sel"], SchemaVersion.V0) if op["sel"] else None)
        trace.append((op, path))
        if op["op"] == "bad":
            edit = p.remove_dependency if op["remove"] else p.add_dependency
            expect_eq(edit(dep), False, f"{edit.__name__} at {path}", *trace)
            expect_eq(p.render(), before, "a refused dependency changed the recipe", *trace)
            expect_eq(p.is_modified(), modified, "modified flag after a refused dependency", *trace)
            rec.label("bad path")
            continue
        if op["remove"]:
            dep = next((d for d in own if d.path == path), dep)
            want = remove(case, path)
            expect_eq(p.remove_dependency(dep), want, "outcome of removing", *trace)
        else:
            want = add(case, op, path)
            if op["dep_mode"] == "REPLACE" and op["sel_mode"] == "REPLACE" and op["defaults"]:
                got = p.add_dependency(dep)
            else:
                got = p.add_dependency(dep, dep_mode=DEP_MODES[op["dep_mode"]], sel_mode=SEL_MODES[op["sel_mode"]])
            expect_eq(got, want, "outcome of adding", *trace)
        rec.label(("remove" if op["remove"] else f"{op['dep_mode']} {op['sel_mode']}") + ("" if want else ": no effect"))
        done += want
        modified = modified or want
        out = p.render()
        if not want:
            expect_eq(out, before, "an edit without effect changed the recipe", *trace)
        expect_eq(lines(out), lines(rg.render(model_of(case))), "lines after the edit", *trace)
        expect_eq(p.is_modified(), modified, "modified flag", *trace)
        expected = want_of(case)
        check_deps(p.get_all_dependencies(), expected, trace + [out])
    rec.nontrivial(done >= 2)
    check_deps(RecipeParserDeps(p.render()).get_all_dependencies(), want_of(case), trace + ["re-read", p.render()])


@st.composite
def cases(draw):
    schema = draw(st.sampled_from([0, 0, 1]))
    c = draw(recipes(schema, False))
    for k in c["pkgs"]:
        for r in k["reqs"] or []:
            for d in r[1] or []:
                d["pre"] = []
                if d["w"] == "if":
                    d["w"] = ["python"]
                # Comments but selectors may go with the line (see C07), and `or` in a combination is a finding of C10.
                if not d["c"].endswith("]") or " or " in d["c"].lower():
                    d["c"] = "# [osx]" if schema == 0 and "or" in d["c"] else ""
    names = st.one_of(st.sampled_from(NAMES), st.sampled_from(["PYTHON", "Numpy", "u"]))
    have = [word(d["w"]).split(" ")[0] for k in c["pkgs"] for r in k["reqs"] or [] for d in r[1] or [] if isinstance(d["w"][0], str)]
    if have:
        alike = st.sampled_from(have).map(lambda n: n.replace("-", "_") if "-" in n else n.replace("_", "-"))
        names = st.one_of(names, st.sampled_from(have), st.sampled_from(have), alike)
    spec = st.one_of(
        st.builds(lambda n, v: [n + v], names, st.sampled_from(["", " >=9", " 1.2.*", " =4.0", " >=3,<4"])), specs(schema)
    )
    calls = [word(d["w"]) for k in c["pkgs"] for r in k["reqs"] or [] for d in r[1] or [] if len(d["w"]) == 1 and not isinstance(d["w"][0], str) and d["w"][0]["k"] == "fn"]
    if calls:  # one that is there already, or one of other letter case
        call = st.one_of(st.sampled_from(calls), st.sampled_from(calls).map(lambda t: t.replace("'c'", "'C'") if "'c'" in t else t.replace("True", "true")))
        spec = st.one_of(spec, spec, call.map(lambda t: [{"k": "fn", "x": t}]))
    sels = st.one_of(st.none(), st.sampled_from(["[linux]", "[not win]", "[osx and arm64]", "[unix]"]))
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["any", "existing", "existing", "any", "bad"]),
            "remove": st.sampled_from([False, False, True]),
            "pkg": st.integers(0, 9),
            "sec": st.sampled_from(["build", "host", "run", "run", "run_constrained" if schema == 0 else "run_constraints", "run_exports"]),
            "at": st.one_of(st.integers(0, 5), st.integers(0, 30)),
            "spec": spec.filter(lambda s: word(s).strip() == word(s)),
            "sel": sels,
            "dep_mode": st.sampled_from(list(DEP_MODES)),
            "sel_mode": st.sampled_from(list(SEL_MODES)),
            "defaults": st.booleans(),
        }
    )
    return {**c, "ops": draw(st.lists(op, min_size=2, max_size=7))}


CHECK = Check(
    "C13",
    "A case is a recipe with one to four packages and up to six edits: dependencies added in every combination of conflict modes, to "
    "existing, empty, new and impossible sections, with and without selectors, by new and existing names, and removed. The outcome, "
    "every line of the text and the dependency map are compared with a model after each edit. Non-trivial: two edits took effect.",
    [Sub("edits", cases, run, quick=3000, thorough=40000, shards=8, shards_thorough=8)],
    assumptions=["conda's MatchSpec is a stand-in (lib/stubs): conda cannot be installed here."],
)
