"""C10: selectors and comments of a recipe are found where they are, and edits change one line only."""

import copy
import re

import recipegen as rg
import selmodel as sm
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.selector_parser import SelectorParser

PARSERS = [RecipeParser, RecipeParserDeps]
MODES = {"and": SelectorConflictMode.AND, "or": SelectorConflictMode.OR, "replace": SelectorConflictMode.REPLACE}
SEL = re.compile(r"\[.*\]")


def lines_of(model):
    """(path, other paths of the line, holder of its comment), in file order."""

    def go(v, path):
        if v["t"] == "m":
            for e in v["e"]:
                yield f"{path}/{e['k']}", e
                yield from go(e["v"], f"{path}/{e['k']}")
        elif v["t"] == "l":
            for i, it in enumerate(v["i"]):
                p = f"{path}/{i}"
                if it["v"]["t"] == "m":
                    yield p, it["v"]["e"][0]
                else:
                    yield p, it
                yield from go(it["v"], p)

    yield from go(model["top"], "")


def selector_of(c):
    m = SEL.search(c)
    return m.group(0) if m else None


def note_of(c):
    """The comment without the selector."""
    if not c or SEL.sub("", c).strip() in ("", "#"):
        return None
    if selector_of(c) is None:
        return c
    rest = SEL.sub("", c).replace("#", "", 1).strip()
    return "# " + rest.removeprefix("# ")


def is_block(holder):
    return holder["v"]["t"] == "b"


def check_queries(p, model, trace):
    lines = list(lines_of(model))
    sels: dict = {}
    notes = {}
    for path, h in lines:
        s = selector_of(h["c"])
        if s is not None:
            sels.setdefault(s, []).append(path)
        n = note_of(h["c"])
        if n is not None:
            notes[path] = n
        expect_eq(p.contains_selector_at_path(path), s is not None, f"selector at {path}", *trace)
        if s is not None:
            expect_eq(p.get_selector_at_path(path), s, f"selector at {path}", *trace)
            expect_eq(p.get_selector_at_path(path, "[other]"), s, f"selector at {path}", *trace)
        else:
            expect_eq(p.get_selector_at_path(path, "[other]"), "[other]", f"default selector at {path}", *trace)
            for default in ((), ("no selector",), ("",), ("see [linux]",), ("# [unix]",)):
                try:
                    got = p.get_selector_at_path(path, *default)
                except (KeyError, ValueError) as e:
                    got = type(e)
                want = ValueError if default else KeyError
                expect(got is want, f"no selector at {path}, default {default}, but {got!r}", *trace)
    expect_eq(p.list_selectors(), list(sels), "selectors by first appearance", *trace)
    for s, paths in sels.items():
        expect_eq(p.contains_selector(s), True, f"{s} is in the file", *trace)
        expect_eq(p.get_selector_paths(s), paths, f"paths with {s}", *trace)
    for s in ("[none]", "", "linux", "[linux"):
        if s not in sels:
            expect_eq(p.contains_selector(s), False, f"{s!r} is not in the file", *trace)
            expect_eq(p.get_selector_paths(s), [], f"paths with {s!r}", *trace)
    expect_eq(dict(sorted(p.get_comments_table().items())), dict(sorted(notes.items())), "table of comments", *trace)
    for path in ("/zz/y", "/package/zzz", "zz"):
        expect_eq(p.contains_selector_at_path(path), False, f"selector at {path}, which is not in the file", *trace)
        try:
            got = p.get_selector_at_path(path)
        except KeyError:
            got = None
        expect(got is None, f"selector at {path}, which is not in the file: {got!r}", *trace)


def norm(text):
    return [ln for ln in text.split("\n") if ln.strip()]


def run(case, rec: Rec) -> None:
    model = copy.deepcopy(case["m"])
    text = rg.render(model)
    p = PARSERS[case["cls"]](text)
    trace = [text]
    check_queries(p, model, trace)
    expect_eq(p.is_modified(), False, "modified without an edit", *trace)
    modified = False
    lines = list(lines_of(model))
    done = 0
    for op in case["ops"]:
        path, holder = lines[op["which"] % len(lines)]
        before, was = p.render(), holder["c"]
        if is_block(holder):
            continue  # blocks may not have comments in YAML
        trace.append((op["op"], path, op["text"], op["mode"]))
        if op["op"] == "add selector":
            sel = op["text"]
            if op["parser"]:
                p.add_selector(path, SelectorParser(sel, SchemaVersion.V0), MODES[op["mode"]])
            elif op["mode"] == "replace" and op["default"]:
                p.add_selector(path, sel)
            else:
                p.add_selector(path, sel, mode=MODES[op["mode"]])
            old = selector_of(was)
            if op["mode"] == "replace" or not was:
                holder["c"] = f"# {sel}"  # existing tests ask for this: the comment goes, too
            elif old:
                holder["c"] = f"# [{old[1:-1]} {op['mode']} {sel[1:-1]}]"
            else:
                holder["c"] = f"# {sel} {was.replace('#', '', 1).strip()}"
            modified = True
            got = SelectorParser(p.get_selector_at_path(path), SchemaVersion.V0).get_selected_platforms()
            new = plats(sel)
            if old and op["mode"] == "or":
                expect_eq(set(map(str, got)), plats(old) | new, "platforms of the combined selector", *trace)
            elif old and op["mode"] == "and" and (case.get("strict") or " or " not in (old + sel).lower()):
                expect_eq(set(map(str, got)), plats(old) & new, "platforms of the combined selector", *trace)
            elif not old or op["mode"] == "replace":
                expect_eq(set(map(str, got)), new, "platforms of the selector", *trace)
            done += 1
        elif op["op"] == "remove selector":
            got = p.remove_selector(path)
            old = selector_of(was)
            expect_eq(got, old, "removed selector", *trace)
            if old is not None:
                rest = note_of(was)
                holder["c"] = rest or ""
                modified = True
                done += 1
            else:
                expect_eq(p.render(), before, "nothing was removed, but the file differs", *trace)
        elif op["op"] == "add comment":
            p.add_comment(path, op["text"])
            body = op["text"].strip()
            old = selector_of(was)
            if old is not None:
                holder["c"] = f"# {old} {body[1:].strip() if body[0] == '#' else body}"
            else:
                holder["c"] = body if body[0] == "#" else f"# {body}"
            modified = True
            done += 1
        else:
            for call in op["bad"]:
                try:
                    if call[0] == "selector":
                        p.add_selector(path if call[1] is None else call[1], call[2])
                    elif call[0] == "remove":
                        p.remove_selector(call[1])
                    else:
                        p.add_comment(path if call[1] is None else call[1], call[2])
                    got = None
                except (KeyError, ValueError) as e:
                    got = type(e)
                want = KeyError if call[1] is not None else ValueError
                expect(got is want, f"{call!r}: {got}, not {want}", *trace)
                expect_eq(p.render(), before, f"{call!r} was refused and changed the file", *trace)
        rec.label(op["op"])
        expect_eq(norm(p.render()), norm(rg.render(model)), "lines after the edit", *trace)
        expect_eq(p.is_modified(), modified, "modified flag", *trace)
        check_queries(p, model, trace + [p.render()])
    rec.nontrivial(done >= 2)
    again = PARSERS[case["cls"]](p.render())
    check_queries(again, model, ["re-read:", *trace, p.render()])
    if case["m"]["schema"] == 0:
        expect_eq(again.render(), p.render(), "the edited file is not stable", *trace)
    # Patches that take lines away, or add some, count for the queries at once. What they do to the text is settled by C07.
    for kind, n in case["patches"]:
        paths = [x for x, _ in lines if p.contains_value(x) and x != "/schema_version"]
        if len({x.split("/")[1] for x in paths}) < 2:
            break
        path = paths[n % len(paths)]
        parent = path.rpartition("/")[0]
        if kind == "remove" and parent[-1:].isdigit() and sum(x.rpartition("/")[0] == parent for x in paths) < 2:
            continue  # empty objects in lists have no notation
        patch = {"op": "remove", "path": path} if kind == "remove" else {"op": "add", "path": f"/zz{n % 2}", "value": ["a"]}
        trace.append(patch)
        if not p.patch(patch):
            continue
        fresh = PARSERS[case["cls"]](p.render())
        rec.label(f"patch: {kind}")
        more = trace + [p.render()]
        expect_eq(p.list_selectors(), fresh.list_selectors(), "selectors after a patch", *more)
        for s in {s for s in p.list_selectors()}:
            expect_eq(p.contains_selector(s), True, f"{s} after a patch", *more)
            expect_eq(p.get_selector_paths(s), fresh.get_selector_paths(s), f"paths of {s} after a patch", *more)
        expect_eq(p.get_comments_table(), fresh.get_comments_table(), "comments after a patch", *more)


def plats(sel):
    return sm.select(sel[1:-1].split())


@st.composite
def selector_texts(draw):
    return "[" + sm.to_text(draw(sm.expressions(2)), [1]) + "]"


NOTES = st.one_of(
    st.sampled_from(["note", "# note", "#note", "  padded  ", "see https://x.org/#1", "a # b", "it's", "# # x", "## x", "#! y", "é", "k: v", "|"]),
    st.lists(rg.idents(), min_size=1, max_size=3).map(" ".join),
)
BAD = [
    ["selector", "/zz/yy", "[linux]"],
    ["selector", None, "linux"],
    ["selector", None, ""],
    ["selector", None, "# [linux]"],
    ["remove", "/zz/yy", ""],
    ["comment", "/zz/yy", "note"],
    ["comment", None, ""],
    ["comment", None, "  \t "],
    ["comment", None, "[linux]"],
    ["comment", None, " [linux and win] "],
]


@st.composite
def cases(draw):
    patches = st.lists(st.tuples(st.sampled_from(["remove", "remove", "add"]), st.integers(0, 60)).map(list), max_size=3)
    m = draw(rg.recipes(rg.Cfg(p_eol=45, p_lines=10, min_top=2, empty_comments=False)))
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("add selector"), "text": selector_texts()}),
        st.fixed_dictionaries({"op": st.just("remove selector"), "text": st.none()}),
        st.fixed_dictionaries({"op": st.just("add comment"), "text": NOTES}),
        st.fixed_dictionaries({"op": st.just("refused"), "text": st.none(), "bad": st.lists(st.sampled_from(BAD), min_size=1, max_size=4)}),
    )
    more = st.fixed_dictionaries(
        {"which": st.integers(0, 60), "mode": st.sampled_from(sorted(MODES)), "parser": st.booleans(), "default": st.booleans()}
    )
    ops = draw(st.lists(st.tuples(op, more).map(lambda t: {**t[0], **t[1]}), min_size=1, max_size=6))
    if draw(st.booleans()):  # several edits of one line
        for o in ops:
            o["which"] = ops[0]["which"]
    return {"m": m, "cls": draw(st.integers(0, 1)), "ops": ops, "strict": False, "patches": draw(patches)}


CHECK = Check(
    "C10",
    "A case is a generated recipe rich in comments and selectors, and up to six edits: selectors added with each conflict mode, "
    "removed, comments added, and calls that must be refused, often on one line. All look-ups and the text are compared with a "
    "model before and after each edit, and again on the re-read file. Non-trivial: at least two edits took effect.",
    [Sub("edits", cases, run, quick=6000, thorough=120000, shards=8, shards_thorough=8)],
)
