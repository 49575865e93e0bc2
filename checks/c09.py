"""C09: variables form one ordered table through any history of edits, and the file follows it."""

import recipegen as rg
from harness import Check, Rec, Sub, Violation, expect, expect_eq, same
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

PARSERS = [RecipeParser, RecipeParserDeps]
NAMES = ["name", "name2", "version", "ver", "Ver", "build", "_x", "a1", "sha256", "hash", "hash_type", "offset", "settings", "for_x"]
DEFAULTS = [None, 0, False, "", "x", [], {"a": [1]}]


def check(p, env, refs, body, schema, trace, rec) -> None:
    expect_eq(p.list_variables(), list(env), "variables", *trace)
    for n in NAMES + ["", "nam", "name.", "n.me", "[", "na*me", "zz"]:
        expect_eq(p.contains_variable(n), n in env, f"{n!r} is a variable", *trace)
        if n in env:
            expect_eq(p.get_variable(n), env[n], f"value of {n!r}", *trace)
            expect_eq(p.get_variable(n, "zz"), env[n], f"value of {n!r} with a default", *trace)
            expect_eq(p.get_variable_references(n), refs.get(n, []), f"references to {n!r}", *trace)
            rec.label("references", len(refs.get(n, [])))
            continue
        expect_eq(p.get_variable_references(n), [], f"references to {n!r}, which is not set", *trace)
        for d in DEFAULTS:
            expect_eq(p.get_variable(n, d), d, f"default of {n!r}", *trace)
            expect_eq(p.get_variable(n, default=d), d, f"default of {n!r}", *trace)
        try:
            got = p.get_variable(n)
            raise Violation(f"{n!r} is not set and has the value {got!r}")
        except KeyError:
            pass
    if schema == 1:
        return
    lines = [f'{{% set {k} = "{v}" %}}' if isinstance(v, str) else f"{{% set {k} = {v} %}}" for k, v in env.items()]
    out = p.render()
    expect_eq(out, "\n".join(lines + [""] + body if lines else body), "file after the edits", *trace)


def run(case, rec: Rec) -> None:
    model = case["m"]
    schema = model["schema"]
    body = rg.render({**model, "vars": [] if schema == 0 else model["vars"]}).split("\n")
    text = "\n".join(body)
    if schema == 0 and model["vars"]:
        no_body = {**model, "top": {"t": "m", "e": [], "post": []}}
        text = rg.render(no_body, rg.Noise(case["noise"]) if case["noise"] else None).rstrip("\n") + "\n\n" + text
    p = PARSERS[case["cls"]](text)
    env = dict(map(tuple, model["vars"]))
    refs: dict = {}
    for path, _k, _c, node in rg.walk(model):
        for n in node.get("uses", []):
            refs.setdefault(n, [])
            if path not in refs[n]:
                refs[n].append(path)
    trace = [text]
    check(p, env, refs, body, schema, trace, rec)
    expect_eq(p.is_modified(), False, "modified without an edit", *trace)
    modified = False
    for op, n, v in case["ops"]:
        trace.append((op, n, v))
        before = p.render()
        if op == "set":
            p.set_variable(n, v)
            env[n] = v
            modified = True
        else:
            p.del_variable(n)
            modified = modified or n in env
            env.pop(n, None)
        check(p, env, refs, body, schema, trace, rec)
        if case.get("strict") and schema == 1:
            expect(p.render() != before, "the file does not follow the variable", *trace, p.render())
        expect_eq(p.is_modified(), modified, "modified flag", *trace)
    rec.nontrivial(len(case["ops"]) >= 2 and bool(refs))
    if schema == 0:
        again = PARSERS[case["cls"]](p.render())
        expect_eq(again.list_variables(), list(env), "variables of the rendered file", *trace, p.render())
        for n, v in env.items():
            expect_eq(again.get_variable(n), v, f"value of {n} in the rendered file", *trace, p.render())
            expect_eq(again.get_variable_references(n), refs.get(n, []), f"references to {n} in the rendered file", *trace)
        expect_eq(again.render(), p.render(), "the rendered file is not stable", *trace)


@st.composite
def values(draw):
    k = draw(st.integers(0, 9))
    if k < 2:
        return draw(st.integers(-5, 10**9))
    if k == 2:
        return draw(st.booleans())
    if k == 3:
        return round(draw(st.floats(-99, 99)), 2) + 0.0
    if k == 4:
        return draw(st.lists(st.one_of(rg.idents(), st.integers(0, 9)), max_size=3))
    return draw(
        st.one_of(
            rg.VERSIONS,
            rg.idents(),
            st.sampled_from(["", " ", "Foo-Bar", "A B", "1.10", "3", "True", "None", "x: y", "a#b", "a # b", "it's", "a=b", "%", "[x]", "é"]),
        )
    )


@st.composite
def scalars(draw, schema, _names):
    if draw(st.integers(0, 9)) < 4:
        return draw(rg.scalars(schema, [], 0))
    o = "{{" if schema == 0 else "${{"
    text, uses = draw(st.sampled_from(["", "", "foo-", "name ", "ver/"])), []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        n = draw(st.sampled_from(NAMES + ["nam", "names", "my_name"]))
        body, used = draw(
            st.sampled_from(
                [(n, [n]), (f"{n}|lower", [n]), (f"{n} | upper", [n]), (f"{n}[0]", [n]), (f"{n} + 1", [n]), (f"1 + {n}", [n])]
                + [(f"{n} + ver", [n, "ver"]), ("compiler('cxx')", []), (f"{n} ~ _x", [n, "_x"])]
            )
        )
        sp = draw(st.sampled_from([" ", " ", ""]))
        text += f"{o}{sp}{body}{sp}}}}}" + draw(st.sampled_from(["", "", "-name", ".gz", "/version"]))
        uses += used
    return {"t": "s", "x": text, "v": text, "uses": uses}


@st.composite
def cases(draw):
    schema = draw(st.integers(0, 1))
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=5))
    variables = [[n, draw(values())] for n in names]
    cfg = rg.Cfg(depth=2, scalars=scalars, p_lines=4, blocks=False, empty=False)
    top = draw(rg.maps(cfg, schema, names, 2, 2))
    top["e"] = [e for e in top["e"] if e["k"] not in ("schema_version", "context")]
    for e in top["e"]:
        if draw(st.integers(0, 9)) == 0:
            ln = [draw(scalars(schema, names)) for _ in range(draw(st.integers(1, 3)))]
            ln = [x for x in ln if "uses" in x] or [{"v": "x", "uses": []}]
            e["c"] = ""
            e["v"] = {"t": "b", "var": "|", "ln": [x["v"] for x in ln], "tb": 0, "uses": [u for x in ln for u in x["uses"]]}
    top["post"] = []
    if schema == 1:
        head = [{"k": "schema_version", "c": "", "pre": [], "v": rg.scalar(1)}]
        variables = [[n, v] for n, v in variables if not isinstance(v, list) and (not isinstance(v, str) or rg.storable(v))]
        if variables:
            ctx = {"t": "m", "post": [], "e": [{"k": n, "c": "", "pre": [], "v": rg.scalar(v)} for n, v in variables]}
            head.append({"k": "context", "c": "", "pre": [], "v": ctx})
        elif draw(st.booleans()):
            head.append({"k": "context", "c": "", "pre": [], "v": {"t": "n", "post": []}})
        top["e"] = head + top["e"]
    op = st.tuples(st.sampled_from(["set", "set", "set", "del", "del"]), st.sampled_from(NAMES), values())
    return {
        "m": {"schema": schema, "vars": variables, "top": top},
        "cls": draw(st.integers(0, 1)),
        "noise": None if schema else draw(st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=5, max_size=20))),
        "ops": draw(st.lists(op, max_size=6)),
        "strict": False,
    }


CHECK = Check(
    "C09",
    "A case is a recipe with variables and values that use some of them (with filters, indices, sums, look-alike names and text "
    "outside of the braces), and a history of setting and deleting variables. The table, references, modified flag and the text "
    "of the file are compared with a model after every step. Non-trivial: at least two edits and a value that uses a variable.",
    [Sub("histories", cases, run, quick=7200, thorough=120000, shards=8, shards_thorough=8)],
)
