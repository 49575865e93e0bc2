"""C31: names of sections, texts of dependencies and parts of paths convert to what they mean, and back."""

import pickle

import c12
import recipegen as rg
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.dependency import (
    DependencySection,
    DependencyVariable,
    dependency_data_from_str,
    dependency_data_render_as_str,
    dependency_section_to_str,
    str_to_dependency_section,
)
from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader

S = DependencySection
NAMES = {
    SchemaVersion.V0: {S.BUILD: "build", S.HOST: "host", S.RUN: "run", S.RUN_CONSTRAINTS: "run_constrained", S.RUN_EXPORTS: "run_exports", S.TESTS: "requires"},
    SchemaVersion.V1: {S.BUILD: "build", S.HOST: "host", S.RUN: "run", S.RUN_CONSTRAINTS: "run_constraints", S.RUN_EXPORTS: "run_exports", S.TESTS: "requires"},
}
BACK = {n: s for t in NAMES.values() for s, n in t.items()}


def run_sections(case, rec: Rec) -> None:
    for schema, table in NAMES.items():
        for section, name in table.items():
            expect_eq(dependency_section_to_str(section, schema), name, f"the name of {section} in {schema}")
    s = case["name"]
    want = BACK.get(s.strip().lower())
    expect_eq(str_to_dependency_section(s), want, f"the section named {s!r}")
    rec.label("section" if want else "no section")
    rec.nontrivial(s not in BACK)


@st.composite
def section_cases(draw):
    n = draw(st.sampled_from(sorted(BACK) * 3 + ["", "runs", "run-exports", "run constrained", "ignore_run_exports", "constraints", "tests", "test", "requirements", "all", "None", "rebuild", "hosts", "0"]))
    how = draw(st.integers(0, 5))
    if how == 1:
        n = n.upper()
    elif how == 2:
        n = n.title()
    elif how == 3 and n:
        i = draw(st.integers(0, len(n) - 1))
        n = n[:i] + draw(st.sampled_from(["", "_", " ", "x"])) + n[i + 1 :]
    elif how == 4:
        n = n + draw(st.sampled_from(["s", "_", "ed", ":", "/0"]))
    pad = st.text(st.sampled_from(" \t\n"), max_size=2)
    return {"name": draw(pad) + n + draw(pad)}


def run_data(case, rec: Rec) -> None:
    made = []
    for s in case["texts"]:
        d = dependency_data_from_str(s)
        expect_eq(dependency_data_render_as_str(d), s, "text of the dependency")
        again = dependency_data_from_str(s)
        expect(d == again and hash(d) == hash(again), f"two dependencies of the text {s!r} differ")
        expect(not (d == s) and d != s and d != None, f"the dependency {s!r} equals something else")  # noqa: E711
        copy = pickle.loads(pickle.dumps(d))
        expect(copy == d and dependency_data_render_as_str(copy) == s, f"the pickled dependency {s!r} differs")
        made.append((s, d, isinstance(d, DependencyVariable)))
    for kind, s in zip(case["kinds"], case["texts"]):
        d = dependency_data_from_str(s)
        if kind == "spec":
            expect(not isinstance(d, DependencyVariable), f"{s!r} is no match specification")
            expect_eq(d.name, s.split()[0].split("::")[-1].split("[")[0].rstrip("=<>!~0123456789.*,").lower(), f"name of {s!r}")
        elif kind in ("jinja", "broken"):
            expect(isinstance(d, DependencyVariable), f"{s!r} is taken for a match specification")
        if isinstance(d, DependencyVariable):
            expect_eq(d.name, s, "name of a variable")
    for s, d, v in made:
        for s2, d2, v2 in made:
            if v or v2:
                expect_eq(d == d2, s == s2 and v == v2, f"{s!r} and {s2!r} are equal")
    expect_eq(len({d for _, d, v in made if v}), len({s for s, _, v in made if v}), "number of different variables", case["texts"])
    for k in set(case["kinds"]):
        rec.label(k)
    rec.nontrivial(len(set(case["kinds"])) > 1)


SPECS = ["numpy", "Foo", "zlib >=1.2", "python >=3.8,<4", "r-base 4.1.*", "foo ==1.0 py_0", "conda-forge::xz", "a.b-c_d", "foo[version='>=1']", "x 1.*|2.*", "_lib", "7zip"]
JINJA = ["{{ compiler('c') }}", "${{ stdlib('c') }}", "numpy {{ numpy }}", "{{ pin_subpackage('a', exact=True) }}", "foo ${{ v }}.*", "{{x}}", "{{ name|lower }}", "a {{ b }} c {{ d }}", "{{ pin_compatible(\"x\", max_pin='x.x') }}", "{{ v[0] ~ 'a' + b }}", "foo[version='{{ v }}']", "foo[build=${{ b }}]", "conda-forge/{{ a }}::foo"]
BROKEN = ["", " ", ">=1.0", "foo >=1.0, <", "a b c d", "{{ no end", "foo @ https://a.b", "!", "${x}", "a/b", "{{ a:b }}", "${{ a@b }}", "é ü"]


@st.composite
def data_cases(draw):
    kinds, texts = [], []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["spec", "spec", "jinja", "jinja", "broken", "any"]))
        if k == "any":
            t = draw(st.one_of(st.text("{}$ ab|()'\"=<>[],.0~+*:#", max_size=12), st.text(max_size=8)))
        else:
            t = draw(st.sampled_from({"spec": SPECS, "jinja": JINJA, "broken": BROKEN}[k]))
        if k in ("jinja", "any") and draw(st.integers(0, 3)) == 3:
            t = draw(st.sampled_from(["  ", "x ", "\t"])) + t
        if texts and draw(st.integers(0, 5)) == 3:  # the same up to case or white space
            k, t = "any", draw(st.sampled_from([texts[-1].swapcase(), texts[-1] + " ", texts[-1].replace(" ", "")]))
        kinds.append(k)
        texts.append(t)
    return {"kinds": kinds, "texts": texts}


def run_paths(case, rec: Rec) -> None:
    text = rg.render(c12.model_of(case["recipe"]))
    p = RecipeParserDeps(text)
    expect_eq(RecipeReader.append_to_path("", ""), "/", "nothing appended to nothing")
    n = 0
    for path in p.list_value_paths():
        parts = path[1:].split("/")
        for i in range(len(parts) + 1):
            base, ext = "/".join(parts[:i]), "/".join(parts[i:])
            want = path if ext else path + "/"
            for b in {f"/{base}", f"/{base}/" if base else "/"} | ({""} if not base else set()):
                for e in {ext, f"/{ext}"}:
                    expect_eq(RecipeReader.append_to_path(b, e), want, f"{e!r} appended to {b!r}")
                    n += 1
            if ext:
                expect(p.contains_value(want), f"{want} is missing")
    for pkg in p.get_package_paths():
        for ext in ("/requirements", "requirements", "/requirements/run", "package/name", "name"):
            want = f"/{ext.strip('/')}" if pkg == "/" else f"{pkg}/{ext.strip('/')}"
            expect_eq(RecipeReader.append_to_path(pkg, ext), want, f"{ext!r} appended to the package path {pkg!r}")
    expect_eq(p.render(), RecipeParserDeps(text).render(), "the recipe changed")
    rec.nontrivial(n > 50)


CHECK = Check(
    "C31",
    "Cases are names of dependency sections in all notations (and names that are none), texts of dependencies (match specifications, Jinja statements, broken "
    "and arbitrary texts) and all ways to split the paths of generated recipes. Each is converted and converted back and compared with tables and "
    "string operations. Non-trivial: a name that needs normalising, texts of different kinds, more than 50 splits.",
    [
        Sub("sections", section_cases, run_sections, quick=1500, thorough=20000, shards=1, shards_thorough=2),
        Sub("data", data_cases, run_data, quick=3000, thorough=80000, shards=2, shards_thorough=8),
        Sub("paths", lambda: st.fixed_dictionaries({"recipe": st.integers(0, 1).flatmap(c12.recipes)}), run_paths, quick=400, thorough=8000, shards=2, shards_thorough=8),
    ],
)
