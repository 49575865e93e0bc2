"""C15: the modified flag, hash, equality and diff of a recipe all describe one thing: the text it would be written as."""

import copy
import hashlib
import re

import recipegen as rg
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader

PARSERS = [RecipeParser, RecipeParserDeps, RecipeParserConvert]


def apply_diff(diff: str, old: list[str]) -> list[str]:
    """Applies a unified diff. Empty lines are no part of it: its lines begin with a mark."""
    out: list[str] = []
    pos = 0
    in_body = False
    for line in diff.split("\n"):
        if not line:
            continue
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", line)
        if m:
            in_body = True
            start = int(m[1]) - (0 if m[2] == "0" else 1)
            expect(start >= pos, "hunks of the diff are out of order", diff)
            out += old[pos:start]
            pos = start
            continue
        if not in_body:
            expect(line.startswith(("---", "+++")), "unknown header of a diff", diff)
            continue
        if line[0] == "+":
            out.append(line[1:])
            continue
        expect(line[0] in " -", "unknown mark in a diff", diff)
        expect(pos < len(old) and old[pos] == line[1:], "the diff is not of the original file", diff)
        if line[0] == " ":
            out.append(old[pos])
        pos += 1
    return out + old[pos:]


def state(p):
    return (p.render(), p.is_modified(), p.list_variables())


def check(p, text, first, modified, trace):
    now = p.render()
    expect_eq(p.render(), now, "rendering twice", *trace)
    expect_eq(p.is_modified(), modified, "modified flag", *trace, now)
    expect_eq(p.calc_sha256(), hashlib.sha256(now.encode()).hexdigest(), "SHA-256 of the recipe", *trace, now)
    diff = p.diff()
    if not modified:
        expect_eq(now, first, "the text changed, but the recipe is not modified", *trace)
        expect_eq(diff, "", "diff of a recipe without modifications", *trace)
    elif now.splitlines() == text.splitlines():
        expect_eq(diff, "", "diff of a recipe with its original text", *trace)
    else:
        expect_eq(apply_diff(diff, text.splitlines()), now.splitlines(), "original with the diff applied", *trace, diff)
    expect_eq(p.diff(), diff, "diff asked for twice", *trace)
    str(p)
    expect_eq(p.render(), now, "asking changed the recipe", *trace)
    expect_eq(p.is_modified(), modified, "asking changed the modified flag", *trace)


def compare(p, q, same_schema, trace):
    want = same_schema and p.render() == q.render()
    for a, b in ((p, q), (q, p)):
        expect_eq(a == b, want, "equality of recipes", *trace, a.render(), b.render())
        expect_eq(a != b, not want, "inequality of recipes", *trace, a.render(), b.render())
    if want:
        expect_eq(p.calc_sha256(), q.calc_sha256(), "hashes of equal recipes", *trace)


def vandalise(o):
    """What a careless caller does to what it got."""
    if isinstance(o, list):
        for v in o:
            vandalise(v)
        o.append("x")
        o[0] = "y"
        o.reverse()
    elif isinstance(o, dict):
        for v in o.values():
            vandalise(v)
        o["zz"] = 1
        if len(o) > 1:
            o.pop(next(iter(o)))


def look(p, paths, trace):
    """Asks for everything and spoils the answers."""
    before = state(p)

    def answers():
        yield p.list_value_paths()
        yield p.list_variables()
        yield p.list_selectors()
        yield p.get_comments_table()
        yield p.render_to_object()
        yield p.get_package_paths()
        yield p.get_dependency_paths()
        yield p.find_value("foo")
        yield p.search(".")
        for v in before[2]:
            yield p.get_variable_references(v)
            yield p.get_variable(v)
        for s in p.list_selectors():
            yield p.get_selector_paths(s)
        for path in paths:
            yield p.get_value(path)

    first = [copy.deepcopy(a) for a in answers()]
    for a in answers():
        vandalise(a)
    expect_eq(state(p), before, "editing an answer changed the recipe", *trace)
    again = list(answers())
    expect_eq(again, first, "editing an answer changed later answers", *trace)


def do(p, op, paths):
    """Performs one edit; returns if it counts as a modification (None: it may or may not)."""
    kind, which, value = op
    path = paths[which % len(paths)] if paths else "/zz"
    try:
        if kind == "replace" and (isinstance(value, list) or value == {}) and path.rsplit("/", 1)[-1].isdigit():
            return False  # lists and empty objects in lists have no notation
        if kind == "replace":
            return p.patch({"op": "replace", "path": path, "value": value})
        if kind == "remove":
            if path.count("/") == 1 and len({x.split("/")[1] for x in paths}) < 2:
                return False
            return p.patch({"op": "remove", "path": path})
        if kind == "add":
            return p.patch({"op": "add", "path": f"/zz{which % 3}", "value": value})
        if kind == "test":
            p.patch({"op": "test", "path": path, "value": value})
            return False
        if kind == "bad patch":
            p.patch({"op": "frobnicate", "path": path, "value": value})
            raise Violation("a malformed patch was accepted")
        if kind == "absent":
            return p.patch({"op": "replace", "path": path + "/zz/9", "value": value})
        if kind == "set variable":
            p.set_variable(["name", "version", "zz"][which % 3], value)
            return True
        if kind == "del variable":
            name = ["name", "version", "zz"][which % 3]
            had = p.contains_variable(name)
            p.del_variable(name)
            return had
        if kind == "selector":
            p.add_selector(path, "[unix]", [SelectorConflictMode.REPLACE, SelectorConflictMode.OR][which % 2])
            return True
        if kind == "remove selector":
            return p.remove_selector(path) is not None
        if kind == "comment":
            p.add_comment(path, "a note")
            return True
        if kind == "bad comment":
            p.add_comment(path, " ")
            raise Violation("an empty comment was accepted")
        if kind == "search":
            hits = p.search(re.escape(str(value)))
            if "/schema_version" in hits:
                return False
            return p.search_and_patch(re.escape(str(value)), {"op": "replace", "value": "seen"}) and bool(hits)
    except (JsonPatchValidationException, KeyError, ValueError):
        return False
    raise AssertionError(kind)


def run(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model, rg.Noise(case["noise"]) if case["noise"] else None)
    cls = PARSERS[case["cls"]]
    p = cls(text)
    first = p.render()
    trace: list = [text]
    twin = PARSERS[case["cls"] - 1](text)
    other = RecipeReader(rg.render(case["other"]))
    modified = False
    check(p, text, first, modified, trace)
    compare(p, twin, True, trace)
    compare(p, other, model["schema"] == case["other"]["schema"], trace)
    for thing in (text, None, 1, first, [p]):
        try:
            p == thing  # pylint: disable=pointless-statement
        except TypeError:
            continue
        raise Violation(f"a recipe was compared with {type(thing).__name__}")
    # A value given is not part of the recipe afterwards.
    texts = {first: 0}
    steps = 0
    kinds = set()
    for i, op in enumerate(case["ops"]):
        # Values with many lines and keys without one are C05's and C06's business.
        paths = [x for x in p.list_value_paths() if x != "/schema_version" and "\n" not in str(p.get_value(x))]
        before = p.render()
        given = copy.deepcopy(op)
        counts = do(p, op, paths)
        expect_eq(op, given, "the value given was changed", *trace)
        trace.append(op)
        now = p.render()
        if not counts and op[0] != "search":
            expect_eq(now, before, "a refused edit changed the text", *trace)
        vandalise(op[2])
        expect_eq(p.render(), now, "the recipe shares a value with the caller", *trace)
        modified = modified or bool(counts) or (op[0] == "search" and p.is_modified())
        check(p, text, first, modified, trace)
        compare(p, twin, True, trace)
        compare(p, RecipeParser(now), True, trace)
        steps += now != before
        kinds.add(op[0])
        rec.label(op[0])
        if now in texts and now != before:
            rec.label("back to an earlier text")
        texts[now] = i
    expect_eq(twin.render(), first, "editing one recipe changed another", *trace)
    expect_eq(twin.is_modified(), False, "editing one recipe changed another", *trace)
    look(p, p.list_value_paths()[:6] + p.list_value_paths()[-3:] + ["/" + e["k"] for e in model["top"]["e"] if p.contains_value("/" + e["k"])], trace)
    rec.label(f"differs {steps}")
    rec.nontrivial(steps >= 2)


KINDS = ["replace", "replace", "remove", "add", "add", "test", "bad patch", "absent", "set variable", "del variable"]
KINDS += ["selector", "remove selector", "comment", "bad comment", "search"]


@st.composite
def cases(draw):
    m = draw(rg.recipes(rg.Cfg(empty=False, depth=2, min_top=2, tb=False)))
    other = draw(st.one_of(st.just(m), st.just(m), rg.recipes(rg.Cfg(depth=1, blocks=False))))
    if other is m and draw(st.booleans()):
        # As the other one, but for one value.
        other = copy.deepcopy(m)
        lv = [n for _, _, n, _ in rg.leaves(other) if n["t"] == "s"]
        if lv:
            draw(st.sampled_from(lv)).update(rg.scalar(draw(st.sampled_from(["foo", 1, True, "1"]))))
    values = st.one_of(
        st.sampled_from(["foo", "bar", 1, True, "a b", "x: y", ["a", "b"], {"k": "v"}, {"k": ["v", {"w": 1}]}]),
        st.sampled_from([[], {}, {"k": []}, {"k": {}, "l": ["a"]}, {"k": {"l": []}}]).map(copy.deepcopy),
        st.integers(0, 99),
        rg.storable_strings(),
    )
    if case_values := [n["v"] for _, _, n, _ in rg.leaves(m) if n["t"] == "s"]:
        values = st.one_of(values, st.sampled_from(case_values))
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, 30), values).map(list)
    return {
        "m": m,
        "other": other,
        "cls": draw(st.integers(0, 2)),
        "noise": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 11), min_size=5, max_size=20))),
        "ops": draw(st.lists(op, min_size=draw(st.sampled_from([0, 2, 4])), max_size=7)),
    }


CHECK = Check(
    "C15",
    "A case is a recipe (canonical or with other spacing and quotes), a second one (the same, nearly the same or unrelated) and a history of edits, "
    "refused edits and edits that undo others. After every step flag, hash, equality and diff are compared with what the "
    "rendered text says (hashlib, a diff applier); callers spoil the values they gave and got. Non-trivial: at "
    "least two edits that change the text.",
    [Sub("histories", cases, run, quick=3200, thorough=100000, shards=8, shards_thorough=8)],
)
