"""C12: the dependencies reported for each package are exactly those in its requirements."""

import recipegen as rg
import selmodel as sm
from c08 import substitute
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.dependency import (
    Dependency,
    DependencySection,
    DependencyVariable,
    dependency_data_from_str,
    dependency_data_render_as_str,
    dependency_section_to_str,
    str_to_dependency_section,
)
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.types import SchemaVersion

PARSERS = [RecipeReaderDeps, RecipeParserDeps]
SECTIONS = {
    "build": DependencySection.BUILD,
    "host": DependencySection.HOST,
    "run": DependencySection.RUN,
    "run_constrained": DependencySection.RUN_CONSTRAINTS,
    "run_constraints": DependencySection.RUN_CONSTRAINTS,
    "run_exports": DependencySection.RUN_EXPORTS,
    "requires": DependencySection.TESTS,
}
JUNK = ["foo", "tests", "hosts", "run_export", "buildx"]


def word(parts):
    return "".join(x if isinstance(x, str) else x["x"] for x in parts)


def node_of(parts):
    if parts is None:
        return rg.scalar(None)
    if parts == "if":  # elements with conditions of the new format
        return {"t": "m", "post": [], "e": [entry("if", rg.scalar("linux")), entry("then", rg.scalar("foo"))]}
    t = word(parts)
    if any(not isinstance(x, str) for x in parts):
        return {"t": "s", "x": t, "v": t}
    return rg.scalar(t)


def entry(k, v, c=""):
    return {"k": k, "c": c, "pre": [], "v": v}


def requirements(reqs):
    secs = []
    for name, deps, comment in reqs:
        if deps is None:
            v = {"t": "n", "post": []}
        elif deps == []:
            v = {"t": "s", "x": "[]", "v": []}
        else:
            v = {"t": "l", "post": [], "i": [{"pre": d["pre"], "c": "" if d["w"] == "if" else d["c"], "v": node_of(d["w"])} for d in deps]}
        secs.append(entry(name, v, comment))
    return {"t": "m", "e": secs, "post": []} if secs else {"t": "n", "post": []}


NULL = {"t": "n", "post": []}


def name_of(pkg):
    """The name of a package, or none at all."""
    return NULL if pkg["name"] is None else node_of(pkg["name"])


def model_of(case):
    """The recipe of a case."""
    schema, pkgs, multi = case["schema"], case["pkgs"], len(case["pkgs"]) > 1
    top = []
    if schema == 1:
        top.append(entry("schema_version", rg.scalar(1)))
        if case["vars"]:
            top.append(entry("context", {"t": "m", "post": [], "e": [entry(n, rg.scalar(v)) for n, v in case["vars"]]}))
        elif case["bare"]:
            top.append(entry("context", NULL))
    root = pkgs[0]
    if root["name"] is not None or case["bare"]:
        key = "recipe" if schema == 1 and (multi or case["bare"]) else "package"
        top.append(entry(key, {"t": "m", "post": [], "e": [entry("name", name_of(root)), entry("version", rg.scalar("1.2.3"))]}))
    top.append(entry("build", {"t": "m", "post": [], "e": [entry("number", rg.scalar(0))]}))
    if root["reqs"] is not None:
        top.append(entry("requirements", requirements(root["reqs"])))
    if multi:
        items = []
        for k in pkgs[1:]:
            es = []
            if k["name"] is not None or case["bare"]:
                n = entry("name", name_of(k))
                es.append(n if schema == 0 else entry("package", {"t": "m", "post": [], "e": [n]}))
            if k["reqs"] is not None:
                es.append(entry("requirements", requirements(k["reqs"])))
            es.insert(k["at"] % (len(es) + 1), entry("script", rg.scalar("build.sh")))
            items.append({"pre": [], "c": "", "v": {"t": "m", "e": es, "post": []}})
        top.insert(len(top) - case["outputs_at"] % 2, entry("outputs", {"t": "l", "i": items, "post": []}))
    elif case["bare"]:
        top.append(entry("outputs", NULL))
    return {"schema": schema, "vars": case["vars"], "top": {"t": "m", "e": top, "post": []}}


def value(parts, env, schema):
    if parts is None:
        return None
    return substitute(parts, env, schema)


def want_of(case):
    """{package: (path, [(path, section, text, selector)])} or the exception that is due."""
    env, schema = {n: v for n, v in case["vars"]}, case["schema"]
    out = {}
    for i, k in enumerate(case["pkgs"]):
        path = f"/outputs/{i - 1}" if i else "/"
        if k["name"] is None:
            return KeyError
        name = value(k["name"], env, schema)
        if name in out:
            return ValueError
        deps = []
        for sec, items, _ in k["reqs"] or []:
            kind = SECTIONS.get(sec.strip().lower())
            for j, d in enumerate(items or []):
                text = None if d["w"] == "if" else value(d["w"], env, schema)
                if kind is None or text is None or not text.strip():
                    continue
                sel = None
                if schema == 0 and d["c"].startswith("# ["):
                    sel = d["c"][2 : d["c"].index("]") + 1]
                deps.append((f"{path.rstrip('/')}/requirements/{sec}/{j}", kind, text.strip(), sel))
        out[name] = (path, deps)
    names = list(out)
    for n in names[1:]:
        out[n] = (out[n][0], out[n][1] + out[names[0]][1])
    return out


def check_deps(got, want, trace):
    """Compares a dependency map with the expected one."""
    expect_eq(list(got), list(want), "packages", *trace)
    for name, (_, deps) in want.items():
        have = got[name]
        expect_eq(
            [(d.required_by, d.path, d.type, dependency_data_render_as_str(d.data)) for d in have],
            [(name, path, kind, text) for path, kind, text, _ in deps],
            f"dependencies of {name}",
            *trace,
        )
        for d, (path, _, text, sel) in zip(have, deps):
            expect(isinstance(d, Dependency), f"{d!r} is no Dependency", *trace)
            if "{{" in text:
                expect(isinstance(d.data, DependencyVariable), f"{text!r} is {d.data!r}", *trace)
                expect_eq(d.data.name, text, f"name of {text!r}", *trace)
            expect(d.data == dependency_data_from_str(text), f"data of {path}: {d.data!r}, not {text!r}", *trace)
            if sel is None:
                expect(d.selector is None, f"{path} has no selector, but {d.selector}", *trace)
            else:
                expect(d.selector == SelectorParser(sel, SchemaVersion.V0), f"selector of {path}: {d.selector}", *trace)
                expect_eq(set(map(str, d.selector.get_selected_platforms())), sm.select(sel[1:-1].split()), f"platforms of {path}", *trace)


def paths_of(case):
    """Paths of the elements of the sections of packages that are to be built or run, section by section."""
    out = []
    for i, k in enumerate(case["pkgs"]):
        for sec in ("build", "host", "run", ["run_constrained", "run_constraints"][case["schema"]]):
            for name, items, _ in k["reqs"] or []:
                if name == sec:
                    out += [f"{f'/outputs/{i - 1}' if i else ''}/requirements/{sec}/{j}" for j in range(len(items or []))]
    return out


def run(case, rec: Rec) -> None:
    model = model_of(case)
    text = rg.render(model)
    p = PARSERS[case["cls"]](text)
    trace = [text]
    expect_eq(p.get_dependency_paths(), paths_of(case), "paths of dependencies", *trace)
    want = want_of(case)
    for _ in range(2):
        if isinstance(want, type):
            for f in (p.get_package_names_to_path, p.get_all_dependencies):
                try:
                    got = f()
                except (KeyError, ValueError) as e:
                    got = type(e)
                expect(got is want, f"{f.__name__} gave {got}, not {want}", *trace)
            rec.label(want.__name__)
        else:
            expect_eq(p.get_package_names_to_path(), {n: path for n, (path, _) in want.items()}, "packages and paths", *trace)
            check_deps(p.get_all_dependencies(), want, trace)
            rec.label(f"{min(len(want), 3)} packages")
            rec.nontrivial(sum(len(d) for _, d in want.values()) > 2)
        expect_eq(p.render(), PARSERS[0](text).render(), "a look-up changed the recipe", *trace)
        expect_eq(p.is_modified(), False, "modified flag", *trace)


def run_types(case, rec: Rec) -> None:
    """Names of sections and the data of a single dependency."""
    s = case["section"]
    expect_eq(str_to_dependency_section(s), SECTIONS.get(s.strip().lower()), f"section {s!r}")
    for v in SchemaVersion:
        for sec in DependencySection:
            name = dependency_section_to_str(sec, v)
            expect_eq(str_to_dependency_section(name), sec, f"section {sec} as {name!r}")
            want = {DependencySection.RUN_CONSTRAINTS: ["run_constrained", "run_constraints"][v.value if v.value in (0, 1) else 0]}
            expect_eq(name, want.get(sec, {DependencySection.TESTS: "requires"}.get(sec, sec.name.lower())), f"{sec} in {v}")
    a, b = case["a"], case["b"]
    da, db = dependency_data_from_str(a), dependency_data_from_str(b)
    for t, d in ((a, da), (b, db)):
        expect_eq(dependency_data_render_as_str(d), t, f"text of {t!r}")
        expect(dependency_data_from_str(t) == d and hash(dependency_data_from_str(t)) == hash(d), f"{t!r} read twice differs")
        if "{{" in t or t.lower() in UNREADABLE:
            expect(isinstance(d, DependencyVariable), f"{t!r}: {d!r}")
            expect_eq(d.name, t, f"name of {t!r}")
            expect((DependencyVariable(t) == d) and d != t, f"{t!r} compares wrongly")
            rec.label("variable")
        else:
            expect(not isinstance(d, DependencyVariable), f"{t!r}: {d!r}")
            rec.label("spec")
    if a != b and (isinstance(da, DependencyVariable) or isinstance(db, DependencyVariable)):
        expect(da != db and db != da, f"{a!r} equals {b!r}")
    rec.nontrivial("{{" in a + b)


NAMES = ["python", "numpy", "Foo", "foo", "libfoo", "foo-lib", "r", "openssl", "_openmp_mutex", "conda-forge::zlib", "importlib-metadata"]
UNREADABLE = [">=1.2", "=1", "foo >=1.2 py38 extra", "~", "??"]


@st.composite
def specs(draw, schema, jinja=True):
    """Text and expressions of a dependency."""
    o = "{{" if schema == 0 else "${{"
    n = draw(st.one_of(st.sampled_from(NAMES), rg.idents()))
    k = draw(st.integers(0, 11))
    if jinja and k == 0:
        return [{"k": "fn", "x": f"{o} {draw(st.sampled_from(['compiler', 'stdlib', 'cdt']))}('{draw(st.sampled_from(['c', 'cxx', 'C']))}') }}}}"}]
    if jinja and k == 1:
        return [{"k": "fn", "x": f"{o} pin_subpackage('{n.split("::")[-1]}', exact=True) }}}}"}]
    if jinja and k in (2, 3):
        v = draw(st.sampled_from(["name", "ver", "undefined"]))
        f = draw(st.sampled_from(["", "lower", "upper"]))
        e = {"k": "var", "n": v, "f": f, "i": None, "x": f"{o} {v}{'|' if f else ''}{f} }}}}"}
        return draw(st.sampled_from([[n, " >=", e], [n, " ", e], [n, "-", e], [n, " >=", e, ",<9"]] + [[e], [e, " >=1.2"], ["lib", e]] * (v != "ver")))
    if k == 4:
        return ["  ".join([n, ">=1"])] if draw(st.booleans()) else ["", " "][draw(st.integers(0, 1))].join([n, ""]).split("\n")
    ver = draw(st.sampled_from(["", "", " >=1.2", " 1.10.*", " ==1.0", " >=3.8,<4", " 1.2|2.0", " 1.2 py38_0", " !=2", ">=2.0", " =3.8", " >=1.0a0"]))
    return [n + ver]


@st.composite
def comments(draw, schema, p=40):
    if draw(st.integers(0, 99)) < 100 - p:
        return ""
    if schema == 1:
        return "# note"  # comments hold no selectors in the new format
    s = "[" + sm.to_text(draw(sm.expressions(2)), [1]) + "]"
    return draw(st.sampled_from([f"# {s}", f"# {s}", f"# {s} note", "# note", "# note [a]"[:6]]))


@st.composite
def some_dep(draw, schema, junk):
    k = draw(st.integers(0, 29))
    if k == 7 and junk:
        return None
    if k == 8 and junk:
        return [""]
    if k == 11 and junk:
        return [draw(st.sampled_from([" foo", "foo >=1 ", "  bar  ", " "]))]
    if k in (9, 10) and schema:
        return "if"
    return draw(specs(schema))


@st.composite
def reqs(draw, schema, junk=True):
    names = [s for s in SECTIONS if s != "requires"] + (JUNK + ["requires", "Host", "RUN"] if junk else [])
    out = []
    for sec in draw(st.lists(st.sampled_from(names), unique=True, max_size=4)):
        k = draw(st.integers(0, 9))
        if k == 8:
            deps = None
        elif k == 7:
            deps = []
        else:
            dep = some_dep(schema, junk)
            one = st.fixed_dictionaries(
                {"w": dep, "c": comments(schema), "pre": st.sampled_from([[]] * 8 + [["# about this"]])}
            )
            deps = draw(st.lists(one, min_size=1, max_size=4))
        out.append([sec, deps, draw(st.sampled_from([""] * 6 + ["# [linux]", "# note"]))])
    return out


@st.composite
def recipes(draw, schema, junk=True):
    variables = [["name", draw(st.sampled_from(["Foo", "bar", "my-lib"]))], ["ver", draw(st.sampled_from(["1.2.3", "v2", "2.0.1"]))]]
    variables = draw(st.sampled_from([variables, variables, variables[:1], []]))
    pkgs = []
    o = "{{" if schema == 0 else "${{"
    many = draw(st.integers(0, 29)) == 17
    for i in range(draw(st.integers(11, 13)) if many else draw(st.sampled_from([1, 1, 2, 3, 4]))):
        n = draw(st.sampled_from([["foo"], ["Foo"], ["bar"], ["foo-lib"]] + [[f"pkg{i}"]] * 15)) if junk else [f"pkg{i}"]
        if draw(st.integers(0, 3)) == 3:
            f = draw(st.sampled_from(["", "lower"]))
            e = {"k": "var", "n": "name", "f": f, "i": None, "x": f"{o} name{'|' if f else ''}{f} }}}}"}
            n = draw(st.sampled_from([[e, "-x"], ["lib", e], [e]])) + ([str(i)] if not junk or draw(st.integers(0, 5)) else [])
        if junk and draw(st.integers(0, 24)) == 7:
            n = None
        r = draw(reqs(schema, junk)) if draw(st.integers(0, 7)) and not 3 < i < 10 else None
        pkgs.append({"name": n, "reqs": r, "at": draw(st.integers(0, 2))})
    return {"schema": schema, "vars": variables, "pkgs": pkgs, "outputs_at": draw(st.integers(0, 1)), "bare": junk and draw(st.integers(0, 5)) == 3}


@st.composite
def cases(draw):
    return {**draw(recipes(draw(st.integers(0, 1)))), "cls": draw(st.integers(0, 1))}


@st.composite
def type_cases(draw):
    text = st.one_of(st.integers(0, 1).flatmap(specs).map(word).map(str.strip), st.sampled_from(UNREADABLE))
    sec = st.one_of(
        st.builds(lambda a, s, u, b: a + (s.upper() if u else s) + b, st.sampled_from(["", " ", "\t"]), st.sampled_from(list(SECTIONS) + JUNK), st.booleans(), st.sampled_from(["", " "])),
        st.text(max_size=6),
    )
    a = draw(text)
    return {"section": draw(sec), "a": a, "b": draw(st.one_of(text, st.just(a), st.just(a.swapcase())))}


CHECK = Check(
    "C12",
    "A case is a recipe with one to four packages, whose names and dependencies hold text, variables and Jinja calls, with known, "
    "unknown, empty and missing sections, selectors and comments, empty and null elements, missing and duplicate names. Names, paths, sections, "
    "data and selectors are compared with the model, twice. Non-trivial: more than two dependencies.",
    [
        Sub("read", cases, run, quick=6000, thorough=120000, shards=8, shards_thorough=8),
        Sub("types", type_cases, run_types, quick=2250, thorough=60000, shards=2),
    ],
    assumptions=["conda's MatchSpec is a stand-in (lib/stubs): conda cannot be installed here."],
)
