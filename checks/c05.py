"""C05: values, paths and searches agree with what is in the file."""

import recipegen as rg
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

PARSERS = [RecipeReader, RecipeParser, RecipeReaderDeps, RecipeParserDeps]


def _parse(case):
    text = rg.render(case["m"], rg.Noise(case["noise"]) if case.get("noise") else None)
    return text, PARSERS[case["cls"]](text)


def run_values(case, rec: Rec) -> None:
    model = case["m"]
    text, p = _parse(case)
    before = p.render()
    found = list(rg.walk(model))
    terminal = list(rg.leaves(model))
    rec.nontrivial(len(found) >= 4)
    for f in rg.features(model):
        rec.label(f)
    if not found:
        return
    expect_eq(p.list_value_paths(), [t[0] for t in terminal], "terminal paths", text)
    for path, _kind, _c, node in found:
        expect(p.contains_value(path) is True, f"{path} is in the file and not found", text)
        if node["t"] == "n":
            got = p.get_value(path)  # known finding: the key is given instead of null
            expect(got is None or (not case.get("strict") and got == path.split("/")[-1]), f"value at {path} is {got!r}, not null", text)
            continue
        want = rg.data(node)
        expect_eq(rg.chomp(p.get_value(path)), want, f"value at {path}", text)
        expect_eq(rg.chomp(p.get_value(path, default="DEFAULT")), want, f"value at {path} with a default", text)
    if found:
        expect_eq(rg.chomp(p.get_value("/")), rg.data(model["top"]), "value at /", text)
    expect_eq(rg.chomp(p.render_to_object()), rg.data(model["top"]), "object form", text)
    expect_eq(p.render(), before, "reading changed the recipe", text)


def run_absent(case, rec: Rec) -> None:
    model = case["m"]
    text, p = _parse(case)
    nodes = {path: node for path, _k, _c, node in rg.walk(model)}
    paths = sorted(nodes) or [""]
    for which, op, extra in case["q"]:
        base = paths[which % len(paths)]
        if op == "key":
            path = f"{base}/{extra}"
        elif op == "index":
            path = f"{base}/{which % 5}"
        elif op == "past":
            node = nodes.get(base)
            path = f"{base}/{len(node['i']) + which % 3 if node and node['t'] == 'l' else 0}"
        elif op == "prefix":
            path = base[:-1] if len(base) > 2 else "/zzz"
        elif op == "value":
            node = nodes.get(base)
            if not node or node["t"] != "s" or not str(node["v"]) or "/" in str(node["v"]):
                continue
            path = f"{base}/{node['v']}"
        else:
            path = f"/{extra}{base}"
        if path in nodes or path == "/" or path.endswith("/") or "//" in path:
            continue
        rec.nontrivial()
        rec.label(op)
        expect(p.contains_value(path) is False, f"{path} is not in the file and is found", text)
        try:
            v = p.get_value(path)
        except KeyError:
            v = KeyError
        expect(v is KeyError, f"{path} is not in the file, value {v!r}", text)
        for d in (None, 0, False, "", "x", [], {"a": 1}, ["x"]):
            expect_eq(p.get_value(path, default=d), d, f"default of {path}", text)
            expect_eq(p.get_value(path, d), d, f"default of {path}", text)
        expect_eq(p.get_value(path, None, sub_vars=True), None, f"default of {path}", text)


def run_find(case, rec: Rec) -> None:
    model = case["m"]
    text, p = _parse(case)
    terminal = [(path, v, node) for path, v, node, _c in rg.leaves(model) if node["t"] != "b"]
    queries = [v for _p, v, _n in terminal] + case["q"]
    rec.nontrivial(len(terminal) > 2)
    for q in queries:
        want = [path for path, v, _n in terminal if type(v) is type(q) and v == q]
        if len(want) > 1:
            rec.label("value at several paths")
        expect_eq(p.find_value(q), want, f"paths of {q!r}", text)
    for bad in ([], {}, ["x"], {"a": 1}):
        try:
            p.find_value(bad)
            raise Violation(f"collection {bad!r} accepted as a value to look for")
        except ValueError:
            pass


def run_layout(case, rec: Rec) -> None:
    """Recipe names, outputs and package paths."""
    schema, lines, name = case["schema"], [], case["name"]
    want_name = None
    o = "{{" if schema == 0 else "${{"
    if schema == 1:
        lines += ["schema_version: 1", "", "context:", f'  name: "{case["var"]}"', ""]
    else:
        lines += [f'{{% set name = "{case["var"]}" %}}', ""]
    is_multi = bool(case["outputs"])

    def txt():
        if case["bare"]:
            return ""
        return f"{o} name{case['filter']} }}}}" if name is None else name

    eff = None if case["bare"] else name if name is not None else (case["var"].lower() if case["filter"] else case["var"])
    if schema == 1 and (is_multi or case["null_outputs"]):
        if case["has_recipe"]:
            lines += ["recipe:", f"  name: {txt()}", "  version: 1.2.3", ""]
            want_name = eff
        if case["has_package"]:
            lines += ["package:", "  name: decoy", ""]
    elif case["has_package"]:
        lines += ["package:", f"  name: {txt()}", "  version: 1.2.3", ""]
        want_name = eff
    paths = ["/"]
    if case["null_outputs"] and not is_multi:
        lines += ["outputs:", ""]
    if is_multi:
        lines.append("outputs:")
        for i, out in enumerate(case["outputs"]):
            paths.append(f"/outputs/{i}")
            if case["ocomments"]:
                lines.append("  # a comment")
            lines.append(f"  - package:\n      name: {out}" if schema else f"  - name: {out}")
        lines.append("")
    lines += ["about:", "  summary: x", ""]
    text = "\n".join(lines)
    p = PARSERS[case["cls"]](text)
    rec.nontrivial(is_multi or name is None)
    if is_multi or not case["null_outputs"]:
        expect_eq(p.is_multi_output(), is_multi, "multi-output", text)
    expect_eq(p.get_package_paths(), paths, "package paths", text)
    expect_eq(p.get_recipe_name(), want_name, "recipe name", text)
    expect_eq(int(p.get_schema_version()), schema, "schema version", text)
    for base in paths:
        for ext in case["ext"]:
            got = PARSERS[case["cls"]].append_to_path(base, ext)
            expect_eq(got, ("" if base == "/" else base) + "/" + ext.removeprefix("/"), f"{base} + {ext}")
            if base != "/":
                expect_eq(p.append_to_path(base + "/", ext), base + "/" + ext.removeprefix("/"), f"{base}/ + {ext}")
    for i, out in enumerate(case["outputs"]):
        sub = "/package/name" if schema else "name"
        expect_eq(p.get_value(p.append_to_path(paths[i + 1], sub)), out, f"name of output {i}", text)


def _noise():
    return st.one_of(st.none(), st.lists(st.integers(0, 59), min_size=3, max_size=20))


@st.composite
def values(draw):
    return {"m": draw(rg.recipes(rg.Cfg(nulls=True, empty_comments=False))), "cls": draw(st.integers(0, 3)), "noise": draw(_noise())}


@st.composite
def absent(draw):
    q = st.tuples(
        st.integers(0, 200),
        st.sampled_from(["key", "index", "past", "prefix", "value", "front"]),
        st.one_of(rg.keys(), st.just("name")),
    )
    return {"m": draw(rg.recipes()), "cls": draw(st.integers(0, 3)), "q": draw(st.lists(q, min_size=4, max_size=12))}


_FEW = st.sampled_from(["1", 1, 1.0, True, False, "true", "foo", "foo bar", "x: y", 0, "0x1f", "bar", "no"])


@st.composite
def find(draw):
    def few(_schema, _names):
        return _FEW.filter(lambda v: not isinstance(v, str) or rg.storable(v)).map(rg.scalar)

    cfg = rg.Cfg(scalars=few if draw(st.integers(0, 3)) else None, nulls=True, empty_comments=False)
    return {
        "m": draw(rg.recipes(cfg)),
        "cls": draw(st.integers(0, 3)),
        "noise": draw(_noise()),
        "q": draw(st.lists(st.one_of(_FEW, st.none(), rg.strings()), max_size=6)),
    }


@st.composite
def layout(draw):
    return {
        "schema": draw(st.integers(0, 1)),
        "cls": draw(st.integers(0, 3)),
        "name": draw(st.one_of(st.none(), rg.idents())),
        "var": draw(st.sampled_from(["foo", "Foo-Bar", "libX"])),
        "filter": draw(st.sampled_from(["", " | lower", "|lower"])),
        "outputs": draw(st.lists(rg.idents(), max_size=12)),
        "ocomments": draw(st.booleans()),
        "bare": draw(st.integers(0, 5)) == 3,
        "null_outputs": draw(st.integers(0, 5)) == 3,
        "has_recipe": draw(st.booleans()),
        "has_package": draw(st.booleans()),
        "ext": draw(st.lists(st.sampled_from(["/build", "build", "/build/number", "requirements/run/0", "/"]), max_size=3)),
    }


CHECK = Check(
    "C05",
    "A case is a generated recipe (see C04) and, where needed, paths that are not in it, values to look for or an output "
    "layout. Non-trivial: at least four addressable nodes (values), a path that is really absent (absent), more than two "
    "values (find), several outputs or a templated name (layout).",
    [
        Sub("values", values, run_values, quick=4800, thorough=72000, shards=4, shards_thorough=8),
        Sub("absent", absent, run_absent, quick=2400, thorough=36000, shards=2, shards_thorough=8),
        Sub("find", find, run_find, quick=2400, thorough=36000, shards=2, shards_thorough=8),
        Sub("layout", layout, run_layout, quick=1800, thorough=18000),
    ],
)
