"""C27: a recipe that was copied, pickled or sent to another process is the same recipe, with a life of its own."""

import atexit
import copy
import os
import pickle
import struct
import subprocess
import sys

import c14
import recipegen as rg
import selmodel as sm
from c15 import KINDS, do
from harness import REPO, Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.types import SentinelType

PARSERS = [RecipeParser, RecipeParserDeps, RecipeParserConvert]

# A process that takes pickles of (function, arguments) and gives pickles of the results.
SERVER = """
import pickle, struct, sys
sys.path[0:0] = %r
import c27
out = sys.stdout.buffer
while True:
    head = sys.stdin.buffer.read(8)
    if len(head) < 8:
        break
    data = sys.stdin.buffer.read(struct.unpack("<Q", head)[0])
    answer = c27.remote(data)
    out.write(struct.pack("<Q", len(answer)) + answer)
    out.flush()
"""
PEER: dict[int, subprocess.Popen] = {}


def remote(data: bytes) -> bytes:
    """Runs in the other process."""
    obj, ops = pickle.loads(data)
    for op in ops:
        do(obj, op, targets(obj))
    return pickle.dumps((view(obj), obj))


def ask(obj, ops):
    """Edits an object in another process; gives how it looks there, and the object sent back."""
    if os.getpid() not in PEER:
        PEER[os.getpid()] = subprocess.Popen(
            [sys.executable, "-B", "-c", SERVER % (sys.path,)], stdin=subprocess.PIPE, stdout=subprocess.PIPE
        )
        atexit.register(PEER[os.getpid()].kill)
    peer = PEER[os.getpid()]
    data = pickle.dumps((obj, ops))
    peer.stdin.write(struct.pack("<Q", len(data)) + data)
    peer.stdin.flush()
    return pickle.loads(peer.stdout.read(struct.unpack("<Q", peer.stdout.read(8))[0]))


def targets(p):
    return [x for x in p.list_value_paths() if x != "/schema_version" and "\n" not in str(p.get_value(x))]


def view(p):
    """All that one can see of a recipe."""
    paths = p.list_value_paths()
    out = {
        "text": p.render(),
        "object": p.render_to_object(),
        "paths": paths,
        "values": [p.get_value(x) for x in paths],
        "variables": {v: p.get_variable(v) for v in p.list_variables()},
        "selectors": {s: p.get_selector_paths(s) for s in p.list_selectors()},
        "comments": p.get_comments_table(),
        "search": p.search("o", True),
        "schema": p.get_schema_version(),
        "null": [p.get_value("/zz/none", None), p.find_value(None)],
        "string": str(p),
    }
    if isinstance(p, RecipeParser):
        out |= {"modified": p.is_modified(), "diff": p.diff(), "hash": p.calc_sha256()}
    return out


HOW = {
    "copy": lambda p: copy.deepcopy(p),
    **{f"pickle {n}": lambda p, n=n: pickle.loads(pickle.dumps(p, n)) for n in range(pickle.HIGHEST_PROTOCOL + 1)},
    "process": lambda p: ask(p, [])[1],
}


def run(case, rec: Rec) -> None:
    text = rg.render(case["m"])
    trace: list = [text]
    p = PARSERS[case["cls"]](text) if case["cls"] < 3 else RecipeReader(text)
    ops = case["ops"] if case["cls"] < 3 else []
    at = min(case["at"], len(ops))
    for op in ops[:at]:
        do(p, op, targets(p))
        trace.append(op)
    before = view(p)
    q = HOW[case["how"]](p)
    trace.append(case["how"])
    expect(type(q) is type(p) and q is not p, "the copy is of another kind", *trace)
    expect_eq(view(p), before, "making a copy changed the recipe", *trace)
    expect_eq(view(q), before, "the copy", *trace)
    expect_eq((p == q, q == p, p != q), (True, True, False), "comparison with the copy", *trace)
    r = copy.deepcopy(q)
    if case["remote"] and ops:
        seen, s = ask(p, ops[at:])
    for op in ops[at:]:
        do(q, op, targets(q))
        trace.append(op)
        expect_eq(view(p), before, "editing the copy changed the recipe", *trace)
    after = view(q)
    for op in ops[at:]:
        do(p, op, targets(p))
    expect_eq(view(p), after, "the recipe and its copy differ after the same edits", *trace)
    expect_eq(view(q), after, "editing the recipe changed the copy", *trace)
    expect_eq(view(r), before, "editing the copy changed the copy of it", *trace)
    if case["remote"] and ops:
        expect_eq(seen, after, "the recipe, edited in another process", *trace)
        expect_eq(view(s), after, "the recipe, edited in another process and sent back", *trace)
        rec.label("edited in another process")
    rec.label(case["how"])
    rec.nontrivial(after["text"] != before["text"])


@st.composite
def cases(draw):
    m = draw(rg.recipes(rg.Cfg(depth=2, min_top=2, tb=False)))
    values = st.one_of(st.sampled_from(["foo", 1, True, None, "a b", "x: y", ["a", "b"], {"k": "v"}, {"k": ["v", {"w": 1}]}]), rg.storable_strings())
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, 30), values).map(list)
    return {
        "m": m,
        "cls": draw(st.sampled_from([0, 0, 1, 2, 3])),
        "ops": draw(st.lists(op, min_size=1, max_size=5)),
        "at": draw(st.integers(0, 2)),
        "how": draw(st.sampled_from(sorted(HOW))),
        "remote": draw(st.integers(0, 3)) == 3,
    }


def converted(p):
    text, tbl, _ = p.render_to_v1_recipe_format()
    return text, {c: tbl.get_messages(c) for c in ("exception", "error", "warning")}


def run_convert(case, rec: Rec) -> None:
    text = rg.render(case["m"])
    p = RecipeParserConvert(text)
    q = HOW[case["how"]](p)
    want = converted(p)
    expect_eq(converted(q), want, "conversion of the copy", text)
    expect_eq(converted(HOW[case["how"]](p)), want, "conversion of a copy made later", text)
    expect_eq(q.render(), p.render(), "the copy after its conversion", text)
    rec.label(case["how"])
    rec.nontrivial(bool(want[1]["warning"]))


@st.composite
def convert_cases(draw):
    return {"m": draw(c14.cases())["m"], "how": draw(st.sampled_from(["copy", "pickle 2", "pickle 5"]))}


def run_parts(case, rec: Rec) -> None:
    """Selectors, dependencies and the sentinel."""
    text = sm.to_text(case["e"], case["sp"])
    schema = list(SchemaVersion)[case["schema"]]
    sel = SelectorParser(f"[{text}]" if case["schema"] == 0 else text, schema)
    deps = RecipeParserDeps(
        "package:\n  name: foo\n\nrequirements:\n  host:\n"
        + "".join(f"    - {d}{'  # [' + text + ']' if i % 2 else ''}\n" for i, d in enumerate(case["deps"]))
    ).get_all_dependencies()
    for how in (copy.copy, copy.deepcopy, *(lambda o, n=n: pickle.loads(pickle.dumps(o, n)) for n in range(6))):
        got = how(sel)
        expect(got == sel and not got != sel, "a copied selector", text)
        expect_eq(got.render(), sel.render(), "a copied selector", text)
        expect_eq(got.get_selected_platforms(), sel.get_selected_platforms(), "platforms of a copied selector", text)
        expect(how(deps) == deps, "copied dependencies", deps)
        for one in (SentinelType(), [SentinelType()][0]):
            expect(how(one) is SentinelType(), "a copied sentinel is another one")
        nested = how({"a": [SentinelType()], "b": SentinelType()}) if how is not copy.copy else {"a": [how(SentinelType())], "b": how(SentinelType())}
        expect(nested["a"][0] is nested["b"] is SentinelType(), "a copied sentinel is another one")
    rec.nontrivial(len(case["e"]) > 1)


@st.composite
def part_cases(draw):
    return {
        "e": draw(sm.expressions(4)),
        "sp": draw(sm.spacing()),
        "schema": draw(st.integers(0, 1)),
        "deps": draw(st.lists(st.sampled_from(["foo", "bar >=1.2", "{{ compiler('c') }}", "baz 1.0.* *_0", "python"]), max_size=4)),
    }


CHECK = Check(
    "C27",
    "A case is a recipe and a history of edits, within which the recipe is deep-copied, pickled (any protocol) or sent to another process and back. "
    "Text, values, variables, selectors, comments, hash and diff of recipe and copy are compared, then both are edited in the same way, one after the other, here or in the other "
    "process. Conversions of copies are compared, too. Non-trivial: the edits after the copy change the text; a conversion with messages.",
    [
        Sub("histories", cases, run, quick=1000, thorough=40000, shards=6, shards_thorough=8, confirm=True),
        Sub("convert", convert_cases, run_convert, quick=300, thorough=15000, shards=5, shards_thorough=8),
        Sub("parts", part_cases, run_parts, quick=400, thorough=8000, shards=1, shards_thorough=8),
    ],
)
