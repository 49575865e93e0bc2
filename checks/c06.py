"""C06: JSON patches have the effect RFC 6902 gives them, or none at all."""

import copy

import recipegen as rg
from harness import Check, Rec, Sub, Violation, expect, expect_eq, same
from hypothesis import strategies as st

from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

PARSERS = [RecipeParser, RecipeParserDeps]
MISSING = object()


class Fail(Exception):
    """The operation can't be applied."""


def toks(path):
    return path.removeprefix("/").split("/")


def unshare(v):
    if isinstance(v, dict):
        return {k: unshare(x) for k, x in v.items()}
    return [unshare(x) for x in v] if isinstance(v, list) else v


def lookup(doc, tokens):
    for t in tokens:
        if isinstance(doc, dict) and t in doc:
            doc = doc[t]
        elif isinstance(doc, list) and t.isdigit() and int(t) < len(doc):
            doc = doc[int(t)]
        else:
            return MISSING
    return doc


def set_at(doc, tokens, value):
    parent = lookup(doc, tokens[:-1])
    last = tokens[-1]
    if isinstance(parent, dict):
        parent[last] = value
    else:
        parent[int(last)] = value


def m_add(doc, tokens, value):
    parent = lookup(doc, tokens[:-1])
    last = tokens[-1]
    if parent is MISSING:
        raise Fail
    if parent is None and last.isdigit():
        raise Fail
    if parent is None:  # a key without a value may become a list or an object
        set_at(doc, tokens[:-1], [value] if last == "-" else {last: value})
    elif isinstance(parent, dict) and last != "-":
        parent[last] = value
    elif isinstance(parent, list):
        if last == "-":
            parent.append(value)
        elif last.isdigit() and int(last) <= len(parent):
            parent.insert(int(last), value)
        else:
            raise Fail
    else:
        raise Fail


def m_remove(doc, tokens):
    if lookup(doc, tokens) is MISSING:
        raise Fail
    parent = lookup(doc, tokens[:-1])
    if isinstance(parent, dict):
        del parent[tokens[-1]]
    else:
        del parent[int(tokens[-1])]
    if not parent and len(tokens) > 1:
        set_at(doc, tokens[:-1], None)  # YAML has a key without a value then


def m_apply(doc, patch):
    """New document, or Fail."""
    doc = copy.deepcopy(doc)
    op, tokens = patch["op"], toks(patch["path"])
    if op == "add":
        m_add(doc, tokens, unshare(patch["value"]))
    elif op == "replace":
        if lookup(doc, tokens) is MISSING:
            raise Fail
        set_at(doc, tokens, unshare(patch["value"]))
    elif op == "remove":
        m_remove(doc, tokens)
    else:
        src = toks(patch["from"])
        value = lookup(doc, src)
        if value is MISSING:
            raise Fail
        value = copy.deepcopy(value)
        if op == "move":
            if src == tokens:
                return doc
            if tokens[: len(src)] == src:
                raise Fail
            m_remove(doc, src)
        m_add(doc, tokens, value)
    return doc


def containers(doc, path=""):
    """Paths of every value."""
    yield path
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from containers(v, f"{path}/{k}")
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from containers(v, f"{path}/{i}")


def pick_path(doc, sel):
    """A path that exists, or is to be created, or nearly fits."""
    which, kind, extra = sel
    paths = list(containers(doc))[1:] or ["/package"]
    if kind == "element":
        inside = [p for p in paths if isinstance(lookup(doc, toks(p)[:-1]), list)]
        return inside[which % len(inside)] if inside else paths[which % len(paths)]
    if kind == "equal":  # as an element before it
        inside = [p for p in paths if toks(p)[-1].isdigit() and isinstance(lookup(doc, toks(p)[:-1]), list)]
        inside = [p for p in inside if lookup(doc, toks(p)) in lookup(doc, toks(p)[:-1])[: int(toks(p)[-1])]]
        return inside[which % len(inside)] if inside else paths[which % len(paths)]
    if kind in ("exists", "deep", "twin", "cousin"):
        if kind == "deep":
            paths.sort(key=lambda p: p.count("/"))
            paths = paths[len(paths) // 2 :]
        return paths[which % len(paths)]
    if kind in ("append", "index", "end"):
        lists = [p for p in paths if isinstance(lookup(doc, toks(p)), list)]
        if not lists:
            return f"/{extra}"
        base = lists[which % len(lists)]
        n = len(lookup(doc, toks(base)))
        return f"{base}/-" if kind == "append" else f"{base}/{n if kind == 'end' else which % (n + 3)}"
    if kind == "member":
        objs = [""] + [p for p in paths if isinstance(lookup(doc, toks(p)), dict)]
        return f"{objs[which % len(objs)]}/{extra}"
    if kind == "under":
        return f"{paths[which % len(paths)]}/{extra}"
    if kind == "dash":
        return f"{paths[which % len(paths)]}/-"
    if kind == "two":
        return f"{paths[which % len(paths)]}/{extra}/zz"
    return f"/{extra}"


def cousin(doc, src, sel):
    """A place below a key named like the one at `src`, but in another part of the recipe."""
    src = toks(src)
    n = len(src)
    paths = [p for p in containers(doc) if isinstance(lookup(doc, toks(p)), dict) and toks(p)[n - 1 : n] == src[-1:] and toks(p)[:n] != src]
    return f"{paths[sel[0] % len(paths)]}/{sel[2]}" if paths else None


def has_lists_in_lists(doc):
    if isinstance(doc, dict):
        return any(map(has_lists_in_lists, doc.values()))
    if isinstance(doc, list):
        return any(isinstance(v, list) or v == {} or has_lists_in_lists(v) for v in doc)
    return False


def unsupported(doc, patch):
    """Set aside: what recipe files have no notation for in this project, and recorded findings (see DESIGN.md)."""
    op, tokens = patch["op"], toks(patch["path"])
    if op != "test":
        try:
            after = m_apply(doc, patch)
        except Fail:
            after = doc
        if has_lists_in_lists(after):
            return "list or empty collection as a list element"
        if after == {} or doc == {} or (op == "move" and len(doc) == 1 and len(toks(patch["from"])) == 1):
            return "recipe without keys"
        # The last key of a list element is taken away
        for p in [patch["path"]] * (op == "remove") + [patch.get("from", "/x")] * (op == "move"):
            t = toks(p)
            parent = lookup(doc, t[:-1])
            if isinstance(parent, dict) and len(parent) == 1 and t[-1] in parent and len(t) > 1:
                renamed = op == "move" and tokens[:-1] == t[:-1] and tokens != t and tokens[-1] not in ("-",)
                if isinstance(lookup(doc, t[:-2]), list) and not renamed:
                    return "list element without keys"
    if op in ("add", "move", "copy") and tokens[-1].isdigit():
        if not isinstance(lookup(doc, tokens[:-1]), list):
            return "index into something else than a list"
    if "from" in patch:
        src = toks(patch["from"])
    if tokens == ["-"] or tokens[0] == "":
        return "root"
    return None


def run(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model)
    p = PARSERS[case["cls"]](text)
    doc = rg.data(model["top"])
    trace = [text]
    done = 0
    for step in case["ops"]:
        kind = step["op"]
        patch = {"op": kind, "path": pick_path(doc, step["path"])}
        if kind in ("move", "copy"):
            patch["from"] = pick_path(doc, step["from"])
            if step["path"][1] == "twin" and isinstance(lookup(doc, toks(patch["from"])[:-1]), list):
                patch["path"] = patch["from"].rpartition("/")[0] + "/-"
            if step["path"][1] == "cousin":
                patch["path"] = cousin(doc, patch["from"], step["path"]) or patch["path"]
        elif kind != "remove":
            patch["value"] = step["value"]
            if step["share"] and isinstance(step["value"], (dict, list)) and kind in ("add", "replace") and step["value"]:
                shared = step["value"]
                patch["value"] = {"one": shared, "two": shared, "z": {"three": shared}}
        if kind == "test" and step["hit"] and lookup(doc, toks(patch["path"])) is not MISSING:
            patch["value"] = copy.deepcopy(lookup(doc, toks(patch["path"])))
            if step["near"] is not None:
                patch["value"] = variant(patch["value"], step["near"])
        why = unsupported(doc, patch)
        if why:
            rec.label(f"skipped: {why}")
            continue
        given = copy.deepcopy(patch)
        trace.append(patch)
        before, was_modified = p.render(), p.is_modified()
        if kind == "test":
            target = lookup(doc, toks(patch["path"]))
            if target is None or (target is not MISSING and not comparable(p, doc, patch)):
                continue
            want = target is not MISSING and same_json(target, patch["value"])
            expect_eq(p.patch(patch), want, "result of a test", *trace)
            expect_eq(p.render(), before, "a test changed the recipe", *trace)
            expect_eq(p.is_modified(), was_modified, "a test changed the modified flag", *trace)
            rec.label(f"test {want}")
            continue
        try:
            new = m_apply(doc, patch)
            want = True
        except Fail:
            new, want = doc, False
        got = p.patch(patch)
        expect(type(got) is bool, f"result is {got!r}", *trace)
        expect_eq(patch, given, "the patch given was changed", *trace)
        tokens = toks(patch["path"])
        if want and got is False and lookup(doc, tokens[:-1]) is None and kind in ("add", "move", "copy"):
            # `null` is a value, a key without a value is not: both read as None
            rec.label("null parent refused")
            new, want = doc, False
        expect_eq(got, want, "outcome of the patch", *trace)
        rec.label(f"{kind} {'applied' if want else 'refused'}")
        if not want:
            expect_eq(p.render(), before, "a refused patch changed the recipe", *trace)
            expect_eq(p.is_modified(), was_modified, "a refused patch changed the modified flag", *trace)
            continue
        doc = new
        done += 1
        if not (kind == "move" and patch["from"] == patch["path"]):
            expect_eq(p.is_modified(), True, "modified flag", *trace)
        expect_eq(rg.chomp(p.render_to_object()), rg.chomp(doc), "recipe after the patch", *trace, p.render())
        out = p.render()
        again = PARSERS[case["cls"]](out)
        expect_eq(rg.chomp(again.render_to_object()), rg.chomp(doc), "rendered recipe after the patch", *trace, out)
        if not has_null(doc):  # whether a key that just has comments left is one of them depends on their place
            expect_eq(p.list_value_paths(), again.list_value_paths(), "paths after the patch", *trace, out)
        expect_eq(p.get_package_paths(), again.get_package_paths(), "packages after the patch", *trace, out)
        for v in (0, True, 1):
            expect_eq(p.find_value(v), again.find_value(v), f"paths of {v!r} after the patch", *trace, out)
        if kind in ("add", "replace"):
            path = patch["path"]
            if path.endswith("/-"):
                path = f"{path[:-1]}{len(lookup(doc, toks(path)[:-1])) - 1}"
            if patch["value"] is not None:
                expect(p.contains_value(path), f"no value at {path}", *trace, out)
                expect_eq(rg.chomp(p.get_value(path)), rg.chomp(patch["value"]), f"value at {path}", *trace, out)
                if isinstance(patch["value"], str) and isinstance(lookup(doc, toks(path)[:-1]), list):
                    # Elements of lists are written on a single line, which keeps newlines at the end.
                    expect_eq(p.get_value(path), patch["value"], f"element {path}", *trace, out)
                    expect_eq(again.get_value(path), patch["value"], f"element {path}, read back", *trace, out)
    rec.nontrivial(done >= 2)
    # The values only: how a recipe is laid out after patches is settled by its next rendering
    last = PARSERS[case["cls"]](p.render())
    expect_eq(rg.chomp(last.render_to_object()), rg.chomp(doc), "final recipe", *trace)


def comparable(p, doc, patch):
    real = lookup(p.render_to_object(), toks(patch["path"]))
    if not same(rg.chomp(real), real) or not same(rg.chomp(patch["value"]), patch["value"]):
        return False
    got = p.get_value(patch["path"])
    return same(rg.chomp(got), got) and not has_null(real)


def has_null(v):
    if isinstance(v, dict):
        return any(map(has_null, v.values()))
    if isinstance(v, list):
        return any(map(has_null, v))
    return v is None


def same_json(a, b):
    """Equality as in RFC 6902: flags are no numbers, 1 is 1.0."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_json(v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same_json, a, b))
    return isinstance(a, bool) == isinstance(b, bool) and a == b


def variant(v, n):
    """A value that is alike, but not always equal."""
    if isinstance(v, dict):
        keys = list(v)
        return {k: variant(x, n) if i == n % len(keys) else x for i, (k, x) in enumerate(v.items())}
    if isinstance(v, list):
        return [variant(x, n) if i == n % len(v) else x for i, x in enumerate(v)]
    if isinstance(v, bool):
        return [int(v), float(v), str(v).lower()][n % 3]
    if isinstance(v, int):
        return [float(v), bool(v), str(v), v + 1][n % 4]
    if isinstance(v, float):
        return [int(v), str(v), v + 1][n % 3]
    return [v + " ", v.upper(), 1, True][n % 4] if isinstance(v, str) else v


def run_invalid(case, rec: Rec) -> None:
    text = rg.render(case["m"])
    p = PARSERS[0](text)
    before = p.render()
    rec.nontrivial()
    path = (p.list_value_paths() or ["/package"])[0] or "/package"
    good = {"op": "add", "path": path, "value": 1}
    bad = {
        "op": [{**good, "op": o} for o in ("ADD", "delete", "", None, 1)],
        "no op": [{"path": path, "value": 1}],
        "no path": [{"op": "add", "value": 1}, {"op": "remove"}],
        "path": [{**good, "path": x} for x in ("", None, 5, ["a"])],
        "no value": [{"op": o, "path": path} for o in ("add", "replace", "test")],
        "no from": [{"op": o, "path": path} for o in ("move", "copy")],
        "from": [{"op": o, "path": path, "from": x} for o in ("move", "copy") for x in (None, 3, ["/x"])],
        "not an object": [[], "x", None, 7],
        "empty": [{}],
    }[case["kind"]]
    for patch in bad:
        try:
            r = p.patch(patch)
        except JsonPatchValidationException:
            r = JsonPatchValidationException
        expect(r is JsonPatchValidationException, f"malformed patch {patch!r} was not rejected: {r!r}", text)
        expect_eq(p.render(), before, f"malformed patch {patch!r} changed the recipe")
        expect_eq(p.is_modified(), False, f"malformed patch {patch!r} set the modified flag")


def texts():
    line = rg.phrases().map(lambda s: s.strip() or "x").filter(lambda s: "{{" not in s and "{%" not in s)
    return st.lists(st.one_of(line, line.map(lambda s: "  " + s), st.just("")), min_size=1, max_size=3).flatmap(
        lambda more: st.builds(lambda a, nl: "\n".join([a, *more]).rstrip("\n") + "\nend" + nl, line, st.sampled_from(["", "\n"]))
    )


LONG = st.sampled_from([100, 300, 900, 3000]).map(lambda n: ("some long text, " * (n // 10))[:n].strip())


def prims(schema):
    return st.one_of(
        st.integers(0, 19).flatmap(lambda n: LONG if n == 13 else rg.strings().filter(rg.storable)),
        rg.strings().filter(rg.storable),
        rg.jinja(schema, ["name", "version"]),
        rg.numbers(),
        st.booleans(),
        texts(),
        st.none(),
    )


def json_values(schema, depth=2, in_list=False):
    prim = prims(schema)
    if depth == 0:
        return prim
    inner = json_values(schema, depth - 1)
    objs = st.dictionaries(rg.keys(), inner, min_size=1, max_size=3)
    lists = st.lists(st.one_of(prim, prim, objs), min_size=1, max_size=3)
    out = [prim, prim, prim, objs]
    if not in_list:
        out += [lists, lists, st.just([]), st.just({})]
    return st.one_of(*out)


SEL_TARGET = ["exists", "exists", "element", "append", "index", "end", "member", "member", "under", "dash", "two", "new", "deep", "twin", "equal", "equal", "cousin"]


def selectors(kinds):
    return st.tuples(st.integers(0, 400), st.sampled_from(kinds), rg.keys())


@st.composite
def histories(draw):
    schema = draw(st.integers(0, 1))
    few = st.sampled_from(["name", "build", "run", "a"]) if draw(st.integers(0, 3)) == 3 else None
    m = draw(rg.recipes(rg.Cfg(empty_comments=False, min_top=1, keys=few), schema))
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["add", "add", "add", "replace", "replace", "remove", "move", "copy", "test"]),
            "path": selectors(SEL_TARGET),
            "from": selectors(["exists", "exists", "element", "element", "deep", "new", "member"]),
            "value": json_values(schema),
            "share": st.sampled_from([False] * 7 + [True]),
            "hit": st.booleans(),
            "near": st.one_of(st.none(), st.integers(0, 11)),
        }
    )
    return {"m": m, "cls": draw(st.integers(0, 1)), "ops": draw(st.lists(op, min_size=1, max_size=8))}


@st.composite
def invalid(draw):
    kinds = ["op", "no op", "no path", "path", "no value", "no from", "from", "not an object", "empty"]
    return {"m": draw(rg.recipes(rg.Cfg(depth=1, width=2))), "kind": draw(st.sampled_from(kinds))}


CHECK = Check(
    "C06",
    "A case is a generated recipe (see C04) and a history of up to eight patches: add, replace, remove, move, copy and test "
    "at existing, new, deep, out-of-range, appending and impossible locations with nested values, empty collections, multi-line "
    "strings and shared objects. Each step is compared with a model of RFC 6902 on plain data. Non-trivial: at least two "
    "patches of the history were applied; for malformed patches, all.",
    [
        Sub("histories", histories, run, quick=7200, thorough=120000, shards=8, shards_thorough=8),
        Sub("malformed", invalid, run_invalid, quick=600, thorough=3000),
    ],
)
