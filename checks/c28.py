"""C28: hashes are those of the bytes, and message tables, statistics and printing say exactly what was put in."""

import hashlib
import json
import os
import random
import shutil
import tempfile
from contextlib import redirect_stderr, redirect_stdout
from io import StringIO
from pathlib import Path

from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.commands.utils.print import print_err, print_messages, print_out
from conda_recipe_manager.grapher.types import PackageStats, PackageStatsEncoder
from conda_recipe_manager.types import MessageCategory, MessageTable
from conda_recipe_manager.utils.cryptography.hashing import hash_file, hash_str
from conda_recipe_manager.utils.typing import optional_str

ALGOS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "blake2b", "blake2s"]
SIZES = [0, 1, 63, 64, 65, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145, 1048576, 1048577]


def run_hash(case, rec: Rec) -> None:
    algo = case["algo"]
    rnd = random.Random(case["seed"])
    data = case["text"].encode() if case["size"] is None else rnd.randbytes(case["size"])
    if case["nl"]:
        data = data.replace(b"0", b"\r\n").replace(b"1", b"\x1a\0")
    root = Path(tempfile.mkdtemp())
    try:
        f = root / case["name"]
        f.write_bytes(data)
        os.utime(f, (1e9, 1e9))
        want = getattr(hashlib, algo)(data).hexdigest()
        for file in (f, str(f)):
            for a in (algo, getattr(hashlib, algo)):
                expect_eq(hash_file(file, a), want, f"{algo} of a file of {len(data)} bytes")
        other = data[:-1] + bytes([data[-1] ^ 1]) if data else b"x"
        f.write_bytes(other)
        os.utime(f, (1e9, 1e9))
        expect_eq(hash_file(f, algo), getattr(hashlib, algo)(other).hexdigest(), f"{algo} of the file after it changed")
        expect_eq(f.read_bytes(), other, "hashing changed the file")
        f.unlink()
        try:
            hash_file(f, algo)
        except OSError:
            pass
        else:
            expect(False, "a file that is gone was hashed")
    finally:
        shutil.rmtree(root)
    ctor = getattr(hashlib, algo)
    text = case["text"]
    expect_eq(hash_str(text, ctor), ctor(text.encode("utf-8")).hexdigest(), f"{algo} of a text", repr(text))
    for enc in ("utf-8", "utf-16-le", "utf-16", "latin-1", "ascii"):
        try:
            raw = text.encode(enc)
        except UnicodeEncodeError:
            try:
                hash_str(text, ctor, enc)
            except UnicodeEncodeError:
                continue
            expect(False, f"a text that {enc} can't express was hashed", repr(text))
        expect_eq(hash_str(text, ctor, enc), ctor(raw).hexdigest(), f"{algo} of a text in {enc}", repr(text))
        expect_eq(hash_str(text, ctor, encoding=enc), ctor(raw).hexdigest(), f"{algo} of a text in {enc}", repr(text))
    rec.label(algo)
    rec.nontrivial(len(data) > 65536 or not text.isascii())


hashes = st.fixed_dictionaries(
    {
        "algo": st.sampled_from(ALGOS),
        "size": st.one_of(st.none(), st.sampled_from(SIZES), st.integers(0, 200000)),
        "seed": st.integers(0, 2**32),
        "text": st.one_of(st.text(max_size=30), st.sampled_from(["a\r\nb\n", "\ufeffx", "ä\u0308", "\0", "line\n" * 9])),
        "nl": st.booleans(),
        "name": st.sampled_from(["f", "recipe.yaml", "ä ö", "-", "sha256", "a.txt", "b.md", "c.tar.gz", "d.py", ".e"]),
    }
)

CATS = [MessageCategory.EXCEPTION, MessageCategory.ERROR, MessageCategory.WARNING]


def agree(tbl, model, trace):
    total = sum(map(len, model.values()))
    for c in CATS:
        expect_eq(list(tbl.get_messages(c)), model[c], f"messages of kind {c}", *trace)
        expect_eq(tbl.get_message_count(c), len(model[c]), f"number of messages of kind {c}", *trace)
        out, err = StringIO(), StringIO()
        with redirect_stdout(out), redirect_stderr(err):
            print_messages(c, tbl)
        expect_eq(out.getvalue(), "", "standard output of printed messages", *trace)
        expect_eq(err.getvalue(), "".join(f"[{c.value.upper()}]: {m}\n" for m in model[c]), "printed messages", *trace)
    e, w = len(model[MessageCategory.ERROR]), len(model[MessageCategory.WARNING])
    text = f"{e} error{'' if e == 1 else 's'} and {w} warning{'' if w == 1 else 's'} were found." if total else ""
    expect_eq(tbl.get_totals_message(), text, "the totals", *trace)


def run_messages(case, rec: Rec) -> None:
    tables = [MessageTable(), MessageTable()]
    models = [{c: [] for c in CATS} for _ in tables]
    trace: list = []
    for kind, which, cat, text in case["ops"]:
        trace.append([kind, which, cat, text])
        if kind == "clear":
            tables[which].clear_messages()
            models[which] = {c: [] for c in CATS}
        elif kind == "look":
            tables[which].get_messages(CATS[cat])
        else:
            tables[which].add_message(CATS[cat], text)
            models[which][CATS[cat]].append(text)
        for t, m in zip(tables, models):
            agree(t, m, trace)
    rec.label(f"{min(9, len(case['ops']))} steps")
    rec.nontrivial(len({(o[1], o[2]) for o in case["ops"] if o[0] == "add"}) > 2)


messages = st.fixed_dictionaries(
    {
        "ops": st.lists(
            st.tuples(st.sampled_from(["add"] * 8 + ["look", "clear"]), st.integers(0, 1), st.integers(0, 2), st.sampled_from(["a", "b", "", "a\nb", "ä %s {}", "  a", "b \n", "[ERROR]: a", "\t"])).map(list),
            max_size=14,
        )
    }
)


def run_rest(case, rec: Rec) -> None:
    v = case["value"]
    expect_eq(optional_str(v), None if v is None else str(v), f"{v!r} as an optional string")
    args = case["args"]
    for f, err in ((print_out, False), (print_err, True)):
        for kw in ({}, {"end": ""}, {"sep": "-"}, {"print_enabled": True}, {"print_enabled": False}):
            so, se = StringIO(), StringIO()
            with redirect_stdout(so), redirect_stderr(se):
                f(*args, **kw)
            want = "" if kw == {"print_enabled": False} else kw.get("sep", " ").join(map(str, args)) + kw.get("end", "\n")
            expect_eq((so.getvalue(), se.getvalue()), ("", want) if err else (want, ""), f"{f.__name__} {kw}", args)
    a, b = PackageStats(), PackageStats()
    for n in case["dup"]:
        a.package_name_duplicates.add(n)
    for n in case["fail"]:
        a.recipes_failed_to_parse.add(n)
        a.recipes_failed_to_parse_dependencies[n] = list(case["dup"])
    a.total_recipes, a.total_packages, a.total_parsed_recipes = case["n"]
    want = {
        "package_name_duplicates": sorted(set(case["dup"])),
        "recipes_failed_to_parse": sorted(set(case["fail"])),
        "recipes_failed_to_parse_dependencies": {n: case["dup"] for n in case["fail"]},
        "total_parsed_recipes": case["n"][2],
        "total_recipes": case["n"][0],
        "total_packages": case["n"][1],
    }
    for indent in (None, 2):
        text = json.dumps(a, indent=indent, cls=PackageStatsEncoder)
        expect_eq(json.loads(text), want, "statistics as JSON", case)
        expect_eq(json.dumps(a, indent=indent, cls=PackageStatsEncoder), text, "statistics as JSON, again")
        expect_eq(json.loads(json.dumps({"x": [a, {1, 3, 2}]}, cls=PackageStatsEncoder)), {"x": [want, [1, 2, 3]]}, "statistics in other data", case)
    empty = {"package_name_duplicates": [], "recipes_failed_to_parse": [], "recipes_failed_to_parse_dependencies": {}, "total_parsed_recipes": 0, "total_recipes": 0, "total_packages": 0}
    expect_eq(json.loads(json.dumps(b, cls=PackageStatsEncoder)), empty, "other statistics")
    try:
        json.dumps({"x": object()}, cls=PackageStatsEncoder)
    except TypeError:
        pass
    else:
        expect(False, "an object that has no JSON form was written")
    rec.nontrivial(len(set(case["dup"])) > 1)


rest = st.fixed_dictionaries(
    {
        "value": st.one_of(st.none(), st.booleans(), st.integers(), st.floats(allow_nan=False), st.text(max_size=5), st.lists(st.integers(), max_size=2), st.just({}), st.just({"a": None})),
        "args": st.lists(st.one_of(st.text(max_size=4), st.integers()), max_size=3),
        "dup": st.lists(st.text(max_size=4), max_size=6),
        "fail": st.lists(st.sampled_from(["b", "a", "c/d", "ä"]), max_size=4, unique=True),
        "n": st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9)).map(list),
    }
)


CHECK = Check(
    "C28",
    "A case is a file (empty to beyond a megabyte, around buffer sizes, with any bytes) or text in some encoding and a hash algorithm; or a history of messages "
    "added to two tables, looked at and cleared; or values, statistics and text to print. Compared with hashlib, lists and Python's own output. "
    "Non-trivial: more than 64 KiB or text beyond ASCII; messages of three kinds or tables.",
    [
        Sub("hashes", lambda: hashes, run_hash, quick=1200, thorough=30000, shards=3, shards_thorough=8),
        Sub("messages", lambda: messages, run_messages, quick=2000, thorough=40000, shards=2, shards_thorough=8),
        Sub("rest", lambda: rest, run_rest, quick=800, thorough=20000, shards=1, shards_thorough=4),
    ],
)
