"""C07: patches leave comments, selectors, order and layout of everything else as they are."""

import copy

import recipegen as rg
from c06 import LONG
from c10 import lines_of, note_of, selector_of
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

PARSERS = [RecipeParser, RecipeParserDeps]
ANY = "\0"  # marks the comment on a line that a patch replaced: it may stay or go (existing tests pin both)


def maps_of(model):
    """(path, map, is the map an element of a list)."""

    def go(v, path, in_list):
        if v["t"] == "m":
            yield path, v, in_list
            for e in v["e"]:
                yield from go(e["v"], f"{path}/{e['k']}", False)
        elif v["t"] == "l":
            for i, it in enumerate(v["i"]):
                yield from go(it["v"], f"{path}/{i}", True)

    yield from go(model["top"], "", False)


def lists_of(model):
    def go(v, path):
        if v["t"] == "m":
            for e in v["e"]:
                yield from go(e["v"], f"{path}/{e['k']}")
        elif v["t"] == "l":
            yield path, v
            for i, it in enumerate(v["i"]):
                yield from go(it["v"], f"{path}/{i}")

    yield from go(model["top"], "")


def node_of(value):
    """Model of a new value."""
    if isinstance(value, dict):
        return {"t": "m", "e": [{"k": k, "c": "", "pre": [], "v": node_of(v)} for k, v in value.items()], "post": []}
    if isinstance(value, list):
        return {"t": "l", "i": [{"c": "", "pre": [], "v": node_of(v)} for v in value], "post": []}
    return rg.scalar(value)


def mark(comment):
    return comment if not comment or comment.startswith(ANY) else ANY + comment


def apply(model, step):
    """Edits the model. Returns the patch, or None if the step does not fit the recipe."""
    op, which, value = step["op"], step["which"], step["value"]
    maps, lists = list(maps_of(model)), list(lists_of(model))
    if op == "replace key":
        path, m, _ = maps[which % len(maps)]
        e = m["e"][step["at"] % len(m["e"])]
        if e["v"]["t"] == "n":
            return None
        at = m["e"].index(e)
        if at == 0 and e["v"]["t"] != "s" and _ and isinstance(value, (dict, list)):
            return None
        e["v"] = node_of(value)
        e["c"] = mark(e["c"])
        return {"op": step["alias"], "path": f"{path}/{e['k']}", "value": value}
    if op == "add key":
        path, m, _ = maps[which % len(maps)]
        if any(e["k"] == step["key"] for e in m["e"]) or (path == "" and step["key"] in ("context", "schema_version")):
            return None
        m["e"].append({"k": step["key"], "c": "", "pre": m["post"], "v": node_of(value)})
        m["post"] = []
        return {"op": "add", "path": f"{path}/{step['key']}", "value": value}
    if op == "remove key":
        path, m, _ = maps[which % len(maps)]
        at = step["at"] % len(m["e"])
        if len(m["e"]) < 2:
            return None
        first = _ and at == 0
        if first and m["e"][1]["v"]["t"] == "n":
            return None
        e = m["e"].pop(at)
        if first:  # comments above the key that is the first one now follow its line
            if m["e"][0]["v"]["t"] != "s" and m["e"][0]["pre"]:
                m["e"].insert(0, e)
                return None
            e["pre"], m["e"][0]["pre"] = m["e"][0]["pre"], []
            at = 1
        if at < len(m["e"]):
            m["e"][at]["pre"] = e["pre"] + m["e"][at]["pre"]
        else:
            m["post"] = e["pre"] + m["post"]
        return {"op": "remove", "path": f"{path}/{e['k']}"}
    if not lists:
        return None
    path, l = lists[which % len(lists)]
    at = step["at"] % len(l["i"])
    if isinstance(value, list):
        value = value[0]
    if op == "replace item":
        it = l["i"][at]
        it["c"] = mark(it["c"])
        if it["v"]["t"] == "m":
            return None
        it["v"] = node_of(value)
        return {"op": "replace", "path": f"{path}/{at}", "value": value}
    if op == "append item":
        l["i"].append({"c": "", "pre": l["post"], "v": node_of(value)})
        l["post"] = []
        return {"op": "add", "path": f"{path}/{'-' if step['alias'] == 'add' else len(l['i']) - 1}", "value": value}
    if op == "insert item":
        l["i"].insert(at, {"c": "", "pre": l["i"][at]["pre"], "v": node_of(value)})
        l["i"][at + 1]["pre"] = []
        return {"op": "add", "path": f"{path}/{at}", "value": value}
    if len(l["i"]) < 2:
        return None
    it = l["i"].pop(at)
    if at < len(l["i"]):
        l["i"][at]["pre"] = it["pre"] + l["i"][at]["pre"]
    else:
        l["post"] = it["pre"] + l["post"]
    return {"op": "remove", "path": f"{path}/{at}"}


def settle(model, got, trace):
    """Compares the text with the model's."""
    # Blank lines carry no meaning but in block scalars, whose text C06 compares.
    want = [ln for ln in rg.render(model).split("\n") if ln.strip()]
    have = [ln for ln in got.split("\n") if ln.strip()]
    expect(len(have) == len(want), "the patch changed other lines", *trace, "got:", got, "want:", "\n".join(want))
    for h, w in zip(have, want):
        if ANY in w:
            head, _, c = w.partition(ANY)
            ok = h in (head.rstrip(), f"{head.rstrip()}  {c}")
        else:
            ok = h == w
        expect(ok, f"line {h!r} where {w!r} should be", *trace, "got:", got, "want:", "\n".join(want))


def run(case, rec: Rec) -> None:
    model = copy.deepcopy(case["m"])
    text = rg.render(model)
    p = PARSERS[case["cls"]](text)
    trace = [text]
    done = 0
    for step in case["ops"]:
        after = copy.deepcopy(model)
        patch = apply(after, step)
        if patch is None:
            continue
        trace.append(patch)
        expect_eq(p.patch(copy.deepcopy(patch)), True, "outcome of the patch", *trace)
        out = p.render()
        settle(after, out, trace)
        model = after
        done += 1
        rec.label(step["op"])
    rec.nontrivial(done >= 2 and bool({"comment", "selector", "comment line"} & rg.features(case["m"])))
    found_where_they_are(p, model, trace + [p.render()])


def found_where_they_are(p, model, trace):
    """Selectors and comments of the lines that no patch replaced are found at the paths these lines have now."""
    known, sels, notes = set(), set(), {}
    for path, h in lines_of(model):
        if ANY in h["c"]:
            continue
        known.add(path)
        s = selector_of(h["c"])
        if s is not None:
            sels.add((s, path))
        if note_of(h["c"]) is not None:
            notes[path] = note_of(h["c"])
        expect_eq(p.get_selector_at_path(path, "[none]"), s or "[none]", f"selector at {path} after the patches", *trace)
    got = {(s, path) for s in p.list_selectors() for path in p.get_selector_paths(s) if path in known}
    expect_eq(sorted(got), sorted(sels), "selectors after the patches", *trace)
    got = {path: c for path, c in p.get_comments_table().items() if path in known}
    expect_eq(dict(sorted(got.items())), dict(sorted(notes.items())), "comments after the patches", *trace)


def values(schema):
    prim = st.one_of(
        rg.strings().filter(rg.storable).filter(lambda s: s.strip() == s),
        rg.jinja(schema, ["name"]),
        st.integers(0, 99),
        st.booleans(),
        st.integers(0, 9).flatmap(lambda n: LONG if n == 7 else st.sampled_from(rg.WORDS)),
    )
    return st.one_of(
        prim,
        prim,
        prim,
        st.dictionaries(rg.idents(), prim, min_size=1, max_size=3),
        st.lists(prim, min_size=1, max_size=3),
        st.dictionaries(rg.idents(), st.lists(prim, min_size=1, max_size=2), min_size=1, max_size=2),
    )


OPS = ["replace key", "add key", "remove key", "replace item", "append item", "insert item", "remove item"]


@st.composite
def cases(draw):
    schema = draw(st.integers(0, 1))
    m = draw(rg.recipes(rg.Cfg(empty_comments=False, p_lines=25, p_eol=40, min_top=2, tb=False), schema))
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(OPS),
            "which": st.integers(0, 60),
            "at": st.integers(0, 11),
            "key": rg.keys(),
            "value": values(schema),
            "alias": st.sampled_from(["add", "replace"]),
        }
    )
    return {"m": m, "cls": draw(st.integers(0, 1)), "ops": draw(st.lists(op, min_size=1, max_size=6))}


CHECK = Check(
    "C07",
    "A case is a generated recipe rich in comments and selectors and up to six patches that replace, add, insert and remove keys and "
    "list elements at places that exist. The text after every patch is compared, line by line, with the text of a model edited "
    "at that place only. Non-trivial: at least two patches applied to a recipe with comments.",
    [Sub("lines", cases, run, quick=7200, thorough=120000, shards=8, shards_thorough=8)],
)
