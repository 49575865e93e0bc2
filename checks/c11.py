"""C11: searching by regular expression finds the matching values, and search-and-patch patches these and no others."""

import copy
import re

import recipegen as rg
from c06 import Fail, lookup, m_apply, toks, unsupported
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader

PARSERS = [RecipeParser, RecipeParserDeps, RecipeReader]


def matches(model, regex, flags, with_comment):
    r = re.compile(regex, flags)
    return [p for p, v, n, c in rg.leaves(model) if r.search(text_of(n) + (f"  {c}" if with_comment and c else ""))]


def text_of(n):
    """What is searched: the text of the value, the lines of a string with several lines."""
    return "\n".join(n["ln"]) if n["t"] == "b" else n["x"]


def all_regexes(case):
    """Regular expressions for which line breaks at the end of a value make no difference (see DESIGN.md)."""
    blocks = [text_of(n) for _, _, n, _ in rg.leaves(case["m"]) if n["t"] == "b"]
    for regex in some_regexes(case):
        for r in (re.compile(regex), re.compile(regex, re.I)):
            if any(bool(r.search(b)) != bool(r.search(b + end)) for b in blocks for end in ("\n", "\n\n")):
                break
        else:
            yield regex


def some_regexes(case):
    """Regular expressions made from the values and comments of the recipe."""
    leaves = list(rg.leaves(case["m"]))
    for kind, which, extra in case["q"]:
        p, v, n, c = leaves[which % len(leaves)]
        other = leaves[(which * 7 + 3) % len(leaves)]
        x = text_of(n)
        yield {
            "exact": f"^{re.escape(x)}$",
            "part": re.escape(x[len(x) // 3 :][:4]),
            "start": f"^{re.escape(x[:2])}",
            "end": re.escape(x[-2:]) + "$",
            "comment": re.escape(c[2:6]) or "#",
            "both": re.escape(x) + r"\s+" + re.escape(c) + "$",
            "sel": r"\[[^\]]*\]",
            "any": [".", "^$", r"^\s*$", r"\d", "[a-z]+", "$^", "#", '"', "^true$", "^null$"][extra % 10],
            "either": f"{re.escape(x)}|{re.escape(text_of(other[2]))}",
            "upper": re.escape(x.upper()),
            "key": re.escape(p.rsplit("/", 1)[-1]) + "$",
        }[kind]


def run_search(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model)
    if not list(rg.leaves(model)):
        return
    p = PARSERS[case["cls"]](text)
    before = p.render()
    hits = 0
    for regex in all_regexes(case):
        for with_comment in (False, True):
            want = matches(model, regex, 0, with_comment)
            hits += bool(want)
            rec.label("found" if want else "not found")
            expect_eq(p.search(regex, with_comment), want, f"search for {regex!r}, comments {with_comment}", text)
            expect_eq(p.search(regex, include_comment=with_comment), want, f"search for {regex!r}", text)
            if not with_comment:
                expect_eq(p.search(regex), want, f"search for {regex!r}", text)
            want = matches(model, regex, re.I, with_comment)
            got = p.search(re.compile(regex, re.I), with_comment)
            expect_eq(got, want, f"search for {regex!r}, any case, comments {with_comment}", text)
    rec.nontrivial(hits >= 2)
    expect_eq(p.render(), before, "a search changed the recipe", text)


def run_patch(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model)
    if not list(rg.leaves(model)):
        return
    regex = next(all_regexes(case), None)
    if regex is None:
        return
    p = PARSERS[case["cls"] % 2](text)
    paths = matches(model, regex, 0, case["comment"])
    doc = rg.data(model["top"])
    patch = {"op": case["op"], "value": case["value"]}
    if case["op"] == "remove":
        del patch["value"]
    if case["path"]:
        patch["path"] = "/package/zzz"
    result = True
    for path in paths:
        full = {**patch, "path": path}
        if case["op"] == "test":
            result = result and type(lookup(doc, toks(path))) is type(case["value"]) and lookup(doc, toks(path)) == case["value"]
            if isinstance(case["value"], (bool, int, float)):
                return  # True equals 1 in Python: a recorded finding
            continue
        if unsupported(doc, full) or lookup(doc, toks(path)) is None:
            return
        try:
            doc = m_apply(doc, full)
        except Fail:
            result = False
    given = copy.deepcopy(patch)
    trace = [text, regex, case["comment"], patch, paths]
    before = p.render()
    rec.label(f"{case['op']} {min(len(paths), 3)}")
    rec.nontrivial(len(paths) > 1)
    got = p.search_and_patch(re.compile(regex) if case["compiled"] else regex, patch, include_comment=case["comment"])
    expect_eq(got, result, "outcome", *trace)
    expect_eq(patch, given, "the patch given was changed", *trace)
    expect_eq(rg.chomp(p.render_to_object()), rg.chomp(doc), "recipe after the patches", *trace, p.render())
    again = PARSERS[0](p.render())
    expect_eq(rg.chomp(again.render_to_object()), rg.chomp(doc), "rendered recipe after the patches", *trace, p.render())
    if not paths or case["op"] == "test":
        expect_eq(p.render(), before, "nothing to patch, but the recipe changed", *trace)
        expect_eq(p.is_modified(), False, "modified flag", *trace)
    else:
        expect_eq(p.is_modified(), result or p.render() != before, "modified flag", *trace)


def bare_blocks(node):
    """The comment on the line above a string with several lines is not searched: there is none here."""
    for e in node.get("e", []):
        if e["v"]["t"] == "b":
            e["c"] = ""
        bare_blocks(e["v"])
    for it in node.get("i", []):
        bare_blocks(it["v"])


KINDS = ["exact", "part", "start", "end", "comment", "both", "sel", "any", "either", "upper", "key"]


def few_scalars(schema, names):
    """Values that occur again and again."""
    return st.one_of(
        rg.scalars(schema, names, 15),
        st.sampled_from(["foo", "foobar", "bar", "Foo", "foo >=1.2", "true", 1, 11, True, "1.10", "a b", ""]).map(rg.scalar),
    )


@st.composite
def cases(draw, blocks=True):
    m = draw(rg.recipes(rg.Cfg(blocks=blocks, empty=False, tb=False, p_eol=40, min_top=2, scalars=few_scalars)))
    bare_blocks(m["top"])
    q = st.tuples(st.sampled_from(KINDS), st.integers(0, 60), st.integers(0, 9))
    return {"m": m, "cls": draw(st.integers(0, 2)), "q": draw(st.lists(q, min_size=1, max_size=5))}


@st.composite
def patches(draw):
    c = draw(cases(blocks=draw(st.booleans())))
    return {
        **c,
        "op": draw(st.sampled_from(["replace", "replace", "add", "remove", "test"])),
        "value": draw(st.sampled_from(["new", "foo", 5, True, "x: y", "{{ name }}x", "foo >=1.2", ["a", "b"], {"k": "v"}])),
        "comment": draw(st.booleans()),
        "compiled": draw(st.booleans()),
        "path": draw(st.booleans()),
    }


CHECK = Check(
    "C11",
    "A case is a generated recipe with values that repeat, and regular expressions derived from its values, comments and keys "
    "(exact, anchored, partial, alternatives, other letter case, never matching). Results are compared with the same search over the "
    "model's values in file order; for patches, with the patches of a model at these paths. Non-trivial: at least two "
    "queries with results; patches of at least two paths.",
    [
        Sub("search", cases, run_search, quick=4000, thorough=90000, shards=6, shards_thorough=8),
        Sub("patch", patches, run_patch, quick=5000, thorough=90000, shards=6, shards_thorough=8),
    ],
)
