"""C22: a build configuration file gives each variable's first value whose selector applies."""

import recipegen as rg
import selmodel as sm
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.cbc_parser import CbcParser
from conda_recipe_manager.parser.platform_types import Platform
from conda_recipe_manager.parser.selector_query import SelectorQuery

ABSENT = ["KeyError"]
NO_VALUE = ["ValueError"]


def text_of(case):
    out = []
    for entry in case["entries"]:
        out += [f"# {c}" for c in entry["pre"]]
        if entry["kind"] == "list":
            out.append(f"{entry['name']}:" + (f"  # {entry['c']}" if entry["c"] else ""))
            for v in entry["values"]:
                out += [f"  # {c}" for c in v["pre"]]
                comment = ""
                if v["sel"] is not None:
                    comment = f"  # [{sm.to_text(v['sel'], v['spaces'])}]" + (f" {v['note']}" if v["note"] else "")
                elif v["note"]:
                    comment = f"  # {v['note']}"
                out.append(f"  - {v['text']}{' ' * case['pad'] if comment else ''}{comment}")
        else:
            out += entry["lines"]
        out += [""] * entry["blank"]
    return "\n".join(out) + "\n"


def lookup(case, name, platform):
    for entry in case["entries"]:
        if entry["kind"] == "list" and entry["name"] == name:
            for v in entry["values"]:
                if v["sel"] is None or platform is None or platform in sm.select(v["sel"]):
                    return [v["value"]]
            return NO_VALUE
    return ABSENT


def ask(parser, name, query, *default):
    try:
        return [parser.get_cbc_variable_value(name, query, *default)]
    except KeyError:
        return ABSENT
    except ValueError:
        return NO_VALUE


def run(case, rec: Rec) -> None:
    text = text_of(case)
    parser = CbcParser(text)
    names = [e["name"] for e in case["entries"] if e["kind"] == "list"]
    expect_eq(parser.list_cbc_variables(), names, "variables", text)
    for e in case["entries"]:
        expect_eq(e["name"] in parser, e["kind"] == "list", f"is {e['name']} in it?", text)
    expect("no such variable" not in parser and 3 not in parser and None not in parser, "a variable that is not there", text)
    mixed = False
    platforms = [None, *sm.PLATFORMS]
    for name in [*names, "no such variable", *[e["name"] for e in case["entries"] if e["kind"] != "list"]]:
        results = []
        for p in platforms:
            query = SelectorQuery(platform=Platform(p)) if p else SelectorQuery()
            want = lookup(case, name, p)
            results.append(want)
            expect_eq(ask(parser, name, query), want, f"value of {name} on {p}", text)
            for d in (None, "other", 0):
                expect_eq(ask(parser, name, query, d), [d] if want in (ABSENT, NO_VALUE) and len(want) == 1 and want[0] in ("KeyError", "ValueError") else want, f"value of {name} on {p}, default {d!r}", text)
        mixed |= any(r != results[0] for r in results)
    expect_eq(parser.list_cbc_variables(), names, "variables after the look-ups", text)
    expect(not parser.is_modified(), "a look-up modifies the file", text)
    rec.label(f"{min(len(names), 5)} variables")
    rec.nontrivial(mixed)


NAMES = ["python", "numpy", "c_compiler", "CONDA_BUILD_SYSROOT", "vc", "r-base", "boost_cpp", "target_platform", "MACOSX_DEPLOYMENT_TARGET", "zip", "pin", "pin_run_as_build", "zip_keys_", "extend_keys"]
NOTES = ["see issue #12", "use this", "TODO: drop", "win only"]
VALUES = ["gcc", "clang", "vs2019", "3.9.* *_cpython", "/opt/MacOSX10.10.sdk", "V=1", "1.2.3", "https://a.b/c", "cos7", "3.10", "no", ">=1", "a: b", "@x", "*", "x #y", "grüße", "1.20", ""]


@st.composite
def values(draw):
    kind = draw(st.integers(0, 9))
    if kind <= 6:
        s = rg.scalar(draw(st.sampled_from([v for v in VALUES if v and rg.canonical_string(v) == v or not v])))
        if s["v"] == "":
            s = {"x": '""', "v": ""}
        if rg.faithful(s["v"]) is False or s["v"].replace(".", "").isdigit() or s["v"] == "no":
            s = {"x": '"' + s["v"] + '"', "v": s["v"]}
        if s["v"] and s["v"][0] in rg.SPECIAL_FIRST:
            s = {"x": '"' + s["v"] + '"', "v": s["v"]}
    elif kind == 7:
        n = draw(st.integers(0, 3000))
        s = {"x": str(n), "v": n}
    elif kind == 8:
        f = draw(st.sampled_from([1.82, 3.9, 10.15, 0.5, 5.26]))
        s = {"x": str(f), "v": f}
    else:
        x = draw(st.sampled_from(["true", "false", "1", "1.0", "0", "0.0", "null", '" gcc "', '"gcc  "']))
        s = {"x": x, "v": {"true": True, "false": False, "1": 1, "1.0": 1.0, "0": 0, "0.0": 0.0, "null": None}.get(x, x[1:-1])}
    sel = draw(st.one_of(st.none(), sm.expressions(3), sm.expressions(2), st.sampled_from([["win"], ["linux"], ["osx"], ["not", "win"], ["unix"]])))
    return {
        "text": s["x"],
        "value": s["v"],
        "sel": sel,
        "spaces": draw(sm.spacing()),
        "note": draw(st.sampled_from([None, None, None, *NOTES])),
        "pre": draw(st.lists(st.sampled_from(NOTES + ["[win]"]), max_size=1)) if draw(st.integers(0, 5)) == 5 else [],
    }


@st.composite
def cases(draw):
    entries: list = []
    for name in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True)):
        entries.append(
            {
                "kind": "list",
                "name": name,
                "c": draw(st.sampled_from([None, None, "[win]", "[linux]", "a note"])),
                "values": draw(st.lists(values(), min_size=1, max_size=5)),
                "pre": [],
                "blank": 0,
            }
        )
    names = {e["name"] for e in entries}
    for e in entries:
        if draw(st.integers(0, 7)) == 5:  # values that are equal but for their type
            for v in e["values"]:
                v["text"], v["value"] = draw(st.sampled_from([("true", True), ("1", 1), ("1.0", 1.0), ("0", 0), ("false", False), ("0.0", 0.0)]))
    for other in draw(st.lists(st.sampled_from(["pin_run_as_build", "zip_keys", "extend_keys", "scalar"]), max_size=2, unique=True)):
        if other in names:
            continue
        lines = {
            "pin_run_as_build": ["pin_run_as_build:", "  libboost:", "    max_pin: x.x.x", "  python:", "    min_pin: x.x"],
            "zip_keys": ["zip_keys:", "  - python  # [win]", "  - numpy"],
            "extend_keys": ["extend_keys:", "  a: b"],
            "scalar": ["scalar: 7  # [osx]"],
        }[other]
        entries.append({"kind": "other", "name": other, "lines": lines, "pre": [], "blank": 0})
    entries = draw(st.permutations(entries))
    for e in entries:
        e["pre"] = draw(st.lists(st.sampled_from(NOTES), max_size=2)) if draw(st.integers(0, 3)) == 3 else []
        e["blank"] = draw(st.sampled_from([0, 0, 1]))
    return {"entries": list(entries), "pad": draw(st.sampled_from([0, 0, 1, 12]))}


CHECK = Check(
    "C22",
    "A case is a build configuration file with lists of values of all types, with selectors, notes and comments between them, and entries that are no variables. "
    "Each variable is looked up for every platform and none, with and without defaults, against the first value whose selector's "
    "expression holds. Non-trivial: a variable whose value depends on the platform.",
    [Sub("lookups", cases, run, quick=2500, thorough=60000, shards=4, shards_thorough=8)],
)
