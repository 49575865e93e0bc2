"""C01: a selector picks exactly the platforms its boolean expression picks."""

import selmodel as sm
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.platform_types import Platform
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.selector_query import SelectorQuery


def run(case, rec: Rec) -> None:
    tokens, v1 = case["tokens"], case["v1"]
    text = sm.to_text(tokens, case["spaces"])
    if not v1 and case["brackets"]:
        text = f"[{text}]"
    schema = SchemaVersion.V1 if v1 else SchemaVersion.V0
    want = sm.select(tokens)
    ops = {t.lower() for t in tokens} & {"and", "or", "not"}
    rec.nontrivial(len(ops) >= 2)
    rec.label(f"ops={len([t for t in tokens if t.lower() in ('and', 'or', 'not')])}")
    rec.label("mixed and/or" if {"and", "or"} <= ops else "single kind")
    sel = SelectorParser(text, schema)
    got = sel.get_selected_platforms()
    expect(all(isinstance(p, Platform) for p in got), f"{text!r}: results are not platforms: {got}")
    expect_eq(sorted(p.value for p in got), sorted(want), f"platforms selected by {text!r}")
    for p in sm.PLATFORMS:
        expect_eq(
            sel.does_selector_apply(SelectorQuery(platform=Platform(p))), p in want, f"does {text!r} apply on {p}?"
        )
    expect_eq(sel.does_selector_apply(SelectorQuery()), True, f"{text!r} without a constraint")
    expect_eq(sorted(p.value for p in sel.get_selected_platforms()), sorted(want), f"{text!r} asked a second time")
    expect_eq(
        sorted(p.value for p in SelectorParser(text, schema).get_selected_platforms()),
        sorted(want),
        f"{text!r} parsed a second time",
    )


def cases():
    return st.fixed_dictionaries(
        {
            "tokens": sm.expressions(),
            "v1": st.booleans(),
            "brackets": st.booleans(),
            "spaces": sm.spacing(),
        }
    )


def enum_small(tier):
    """Every expression with up to two binary operators over representative operands."""
    atoms = ["linux", "osx", "unix", "win", "arm64", "x86", "linux-ppc64le", "py37"]
    if tier != "quick":
        atoms += ["x86_64", "win-64", "s390x"]
    nots = [[], ["not"]]
    for n1 in nots:
        for a in atoms:
            yield {"tokens": n1 + [a], "v1": False, "brackets": True, "spaces": [1]}
            for op in ("and", "or"):
                for n2 in nots:
                    for b in atoms:
                        yield {"tokens": n1 + [a, op] + n2 + [b], "v1": False, "brackets": True, "spaces": [1]}
                        for op2 in ("and", "or"):
                            for n3 in nots:
                                for c in atoms[:6]:
                                    yield {
                                        "tokens": n1 + [a, op] + n2 + [b, op2] + n3 + [c],
                                        "v1": False,
                                        "brackets": True,
                                        "spaces": [1],
                                    }


CHECK = Check(
    "C01",
    "A case is a selector expression (operands from every platform, operating system and architecture keyword plus "
    "unknown words; and/or/not without parentheses; random case and spacing; with or without brackets; both schemas), "
    "judged per platform by Python's own evaluation of the same boolean expression. Non-trivial: at least two different "
    "operators.",
    [
        Sub("random", cases, run, quick=6000, thorough=80000, shards=4),
        Sub("small-exhaustive", None, run, quick=0, thorough=0, enumerate=enum_small, shards=4),
    ],
    assumptions=["keyword-to-platform table of conda-build as listed in lib/selmodel.py"],
)
