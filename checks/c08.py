"""C08: Jinja variables are substituted with their current values, and nothing else is."""

import recipegen as rg
import yaml
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader

PARSERS = [RecipeParser, RecipeParserDeps, RecipeReader]
NAMES = ["name", "name2", "version", "ver", "build", "Name", "major_minor", "x", "offset", "_p"]
UNKNOWN = object()


def token(tok, env):
    """Value of an operand of `+`."""
    if tok[0] == "str":
        return tok[1]
    if tok[0] == "num":
        return tok[1]
    return env.get(tok[1], tok[1])


def evaluate(expr, env):
    """Text that replaces an expression (with a flag if it is a string whatever it looks like), or UNKNOWN."""
    kind = expr["k"]
    if kind == "fn":
        return UNKNOWN
    if kind == "add":
        a, b = token(expr["a"], env), token(expr["b"], env)
        if all(isinstance(v, (int, float)) for v in (a, b)):
            return str(a + b)
        return f'"{a}{b}"'
    if expr["n"] not in env:
        return UNKNOWN
    v = str(env[expr["n"]])
    if expr["f"] == "lower":
        v = v.lower()
    if expr["f"] == "upper":
        v = v.upper()
    if expr["i"] is not None and expr["i"] < len(v):
        v = v[expr["i"]]
    return v


def substitute(parts, env, schema, block=False):
    out = ""
    for n, part in enumerate(parts):
        if isinstance(part, str):
            out += part
            continue
        v = evaluate(part, env)
        if v is UNKNOWN:
            v = part["x"]
            if schema == 0 and n == 0 and not block:
                v = "$" + v
        out += v
    return out


def expected(node, env, schema):
    if node["t"] == "s":
        if "w" not in node:
            return node["v"]
        return yaml.safe_load(substitute(node["w"], env, schema))
    if node["t"] == "n":
        return None
    if node["t"] == "b":
        return rg.data({**node, "ln": [substitute(parts, env, schema, True) for parts in node["w"]]})
    if node["t"] == "m":
        return {e["k"]: expected(e["v"], env, schema) for e in node["e"]}
    return [expected(it["v"], env, schema) for it in node["i"]]


def run(case, rec: Rec) -> None:
    model = case["m"]
    schema = model["schema"]
    text = rg.render(model)
    p = PARSERS[case["cls"]](text)
    env = {n: v for n, v in model["vars"]}
    trace = [text]
    nodes = [(path, node) for path, _k, _c, node in rg.walk(model) if node["t"] != "n" and not path.startswith("/context")]
    exprs = sum(1 for _, n in nodes if "w" in n)
    rec.nontrivial(exprs >= 2 and bool(env))

    def check():
        before = p.render()
        try:  # `{{ x }} >=1` may well become `- >=1`
            for _, node in nodes:
                expected(node, env, schema)
        except yaml.YAMLError:
            rec.label("skipped: no YAML after the substitution")
            return
        body = {"t": "m", "e": [e for e in model["top"]["e"] if e["k"] != "context"], "post": []}
        got = p.render_to_object(replace_variables=True)
        got.pop("context", None)
        expect_eq(rg.chomp(got), rg.chomp(expected(body, env, schema)), "object with variables replaced", *trace, env)
        plain = p.render_to_object(replace_variables=False)
        expect_eq(rg.chomp(plain), rg.chomp(rg.data(model["top"])), "object without substitution", *trace)
        for path, node in nodes:
            want = expected(node, env, schema)
            expect_eq(rg.chomp(p.get_value(path, sub_vars=True)), rg.chomp(want), f"value of {path}", *trace, env)
            expect_eq(rg.chomp(p.get_value(path, "x", True)), rg.chomp(want), f"value of {path}, default", *trace, env)
            expect_eq(rg.chomp(p.get_value(path)), rg.chomp(rg.data(node)), f"plain value of {path}", *trace)
            if "w" in node:
                vals = [evaluate(e, env) for parts in ([node["w"]] if node["t"] == "s" else node["w"]) for e in parts if not isinstance(e, str)]
                rec.label("resolved", sum(v is not UNKNOWN for v in vals))
                rec.label("not resolved", sum(v is UNKNOWN for v in vals))
        expect_eq(p.render(), before, "substitution changed the recipe", *trace)

    check()
    for op, name, value in case["ops"]:
        if not hasattr(p, "set_variable"):
            break
        trace.append((op, name, value))
        if op == "set":
            p.set_variable(name, value)
            env[name] = value
        else:
            p.del_variable(name)
            env.pop(name, None)
        if schema == 1:
            # Variables of the new format are kept in /context, which these edits do not touch (see DESIGN.md)
            got = p.render_to_object(replace_variables=True)
            for path, node in nodes:
                want = expected(node, env, schema)
                expect_eq(rg.chomp(p.get_value(path, sub_vars=True)), rg.chomp(want), f"value of {path}", *trace, env)
            got.pop("context", None)
            body = {"t": "m", "e": [e for e in model["top"]["e"] if e["k"] != "context"], "post": []}
            expect_eq(rg.chomp(got), rg.chomp(expected(body, env, schema)), "object with variables", *trace, env)
        else:
            check()


def var_values():
    return st.one_of(
        st.integers(0, 400),
        st.floats(0, 99).map(lambda f: round(f, 2) + 0.0),
        st.sampled_from(["Foo", "LIB-bar", "1.2.3", "1.10", "3.8", "2024a", "a", "A_b", "0.1.0rc1", "007", "Zlib.Ng", "10"]),
        rg.idents(),
        rg.VERSIONS,
    )


SAFE = st.sampled_from(["foo", "-", "lib", "1.2", ".", " >=", "/", "_", " py3", "x86", " and ", "https://a.org/", "v", "=", "("])


@st.composite
def expressions(draw, schema):
    o = "{{" if schema == 0 else "${{"
    sp = draw(st.sampled_from([" ", " ", ""]))
    kind = draw(st.sampled_from(["var"] * 6 + ["fn"]))
    if kind == "fn":
        body = draw(st.sampled_from(["compiler('c')", 'pin_subpackage("x", exact=True)', "stdlib('c')"]))
        return {"k": "fn", "x": f"{o}{sp}{body}{sp}}}}}"}
    name = draw(st.sampled_from(NAMES + ["missing", "nam"]))
    idx = draw(st.sampled_from([None, None, None, 0, 1, 3, 40]))
    f = draw(st.sampled_from(["", "", "lower", "upper"]))
    bar = draw(st.sampled_from(["|", " | ", " |", "| "]))
    body = name + (f"[{idx}]" if idx is not None else "") + (f"{bar}{f}" if f else "")
    return {"k": "var", "n": name, "f": f, "i": idx, "x": f"{o}{sp}{body}{sp}}}}}"}


@st.composite
def operands(draw, left):
    kind = draw(st.sampled_from(["var", "var", "num", "str"]))
    if kind == "var":
        n = draw(st.sampled_from(NAMES + ["missing"]))
        return ["var", n], n
    if kind == "num":
        n = draw(st.one_of(st.integers(0, 500), st.integers(1, 99).map(lambda i: i + 0.5)))
        return ["num", n], str(n)
    s = draw(st.sampled_from(["a", ".1", "1", "x_y", "0.5", "post1"]))
    q = draw(st.sampled_from("'\""))
    return ["str", s], f"{q}{s}{q}"


@st.composite
def parts_of(draw, schema, block=False):
    """Text and expressions in turns, as a list."""
    k = draw(st.integers(0, 9))
    if k == 0 and not block:
        (a, ta), (b, tb) = draw(operands(True)), draw(operands(False))
        plus = draw(st.sampled_from([" + ", "+"]))
        o = "{{" if schema == 0 else "${{"
        return [{"k": "add", "a": a, "b": b, "x": f"{o} {ta}{plus}{tb} }}}}"}]
    parts = []
    if draw(st.booleans()):
        parts.append(draw(SAFE.map(str.strip).filter(lambda s: s not in ("-", "", ">=", "="))))
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        parts.append(draw(expressions(schema)))
        if draw(st.booleans()):
            parts.append(draw(SAFE.filter(lambda s: not s.endswith(" "))))
    return parts


def text_of(parts):
    return "".join(x if isinstance(x, str) else x["x"] for x in parts)


@st.composite
def scalars(draw, schema, names):
    if draw(st.integers(0, 9)) < 6:
        parts = draw(parts_of(schema))
        t = text_of(parts)
        return {"t": "s", "x": t, "v": t, "w": parts}
    # Substitution interprets every string again: quoted strings are set aside (see DESIGN.md)
    return draw(
        st.one_of(
            rg.numbers().map(rg.scalar),
            st.booleans().map(rg.scalar),
            st.one_of(rg.specs(), rg.idents(), st.sampled_from(rg.WORDS + ["https://foo.org/x.tar.gz", "foo = a.b:main"]))
            .map(rg.scalar)
            .filter(lambda n: n["x"] == n["v"]),
        )
    )


@st.composite
def cases(draw):
    schema = draw(st.integers(0, 1))
    cls = draw(st.integers(0, 2))
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=5))
    variables = [[n, draw(var_values())] for n in names]
    cfg = rg.Cfg(empty=False, blocks=False, depth=2, scalars=scalars, p_lines=4, p_eol=10)
    top = draw(rg.maps(cfg, schema, names, 2, 2))
    top["e"] = [e for e in top["e"] if e["k"] not in ("schema_version", "context")]
    for e in top["e"]:
        if draw(st.integers(0, 9)) == 0:
            lines = [draw(parts_of(schema, True)) for _ in range(draw(st.integers(1, 3)))]
            e["c"], e["v"] = "", {"t": "b", "var": draw(st.sampled_from(["|", ">", "|-"])), "ln": [text_of(x) for x in lines], "tb": 0, "w": lines}
    if schema == 1:
        head = [{"k": "schema_version", "c": "", "pre": [], "v": rg.scalar(1)}]
        variables = [[n, v] for n, v in variables if not isinstance(v, str) or rg.storable(v)]
        if variables:
            ctx = {"t": "m", "post": [], "e": [{"k": n, "c": "", "pre": [], "v": rg.scalar(v)} for n, v in variables]}
            head.append({"k": "context", "c": "", "pre": [], "v": ctx})
        top["e"] = head + top["e"]
    ops = draw(st.lists(st.tuples(st.sampled_from(["set", "set", "del"]), st.sampled_from(NAMES), var_values()), max_size=4))
    return {"m": {"schema": schema, "vars": variables, "top": top}, "cls": cls, "ops": ops}


CHECK = Check(
    "C08",
    "A case is a recipe with variables and values made of text and Jinja expressions (variables with filters and indices, "
    "addition, calls, unknown names), and a history of setting and deleting variables. After every step all values, with and "
    "without substitution, are compared with a reference evaluator. Non-trivial: variables and at least two values with expressions.",
    [Sub("substitution", cases, run, quick=7200, thorough=120000, shards=8, shards_thorough=8)],
)
