"""C03: rendering, re-parsing and comparing selectors agree with each other."""

import selmodel as sm
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.selector_parser import SelectorParser

SCHEMAS = [SchemaVersion.V0, SchemaVersion.V1]


def canonical(tokens):
    """Known words in lower case, unknown words as they are: what a selector is compared by."""
    return [t.lower() if t.lower() in sm.KEYWORDS or t.lower() in ("and", "or", "not") else t for t in tokens]


def run(case, rec: Rec) -> None:
    a, b = case["a"], case["b"]
    if "not" in (a[0].lower(), b[0].lower()):  # not well-formed with a bracket as part of the word
        case = {**case, "br1": False}
    sa, sb = SCHEMAS[case["sa"]], SCHEMAS[case["sb"]]

    def text(tokens, schema, key):
        pad = "" if case["br1"] else " " * case["pad"]
        t = pad + sm.to_text(tokens, case[key]) + pad
        # In the new format brackets are text like any other
        return f"[{t}]" if (schema == SchemaVersion.V0 and case["br"]) or (schema == SchemaVersion.V1 and case["br1"]) else t

    ta, tb = text(a, sa, "spa"), text(b, sb, "spb")
    pa, pb = SelectorParser(ta, sa), SelectorParser(tb, sb)
    rec.nontrivial(len(a) > 1)
    # Rendering
    body = sm.to_text(a, case["spa"])
    if sa == SchemaVersion.V0:
        expect_eq(pa.render(), f"[{body}]", f"rendering of {ta!r}")
    else:
        expect_eq(pa.render(), ta, f"rendering of {ta!r}")
    again = SelectorParser(pa.render(), sa)
    expect_eq(again.render(), pa.render(), f"rendering of the rendered {ta!r}")
    expect(again == pa and pa == again, f"{ta!r} is not equal to its re-parsed rendering")
    expect_eq(again.get_selected_platforms(), pa.get_selected_platforms(), f"platforms of the rendered {ta!r}")
    # Comparison
    expect(pa == pa, "a selector is not equal to itself")
    if case["br1"] and SchemaVersion.V1 in (sa, sb):
        a, b = ta.split(), tb.split()  # as there is no removal of brackets
    equal = canonical(a) == canonical(b) and sa == sb
    rec.label("equal pair" if equal else "different pair")
    expect_eq(pa == pb, equal, f"({ta!r}, {sa!r}) == ({tb!r}, {sb!r})")
    expect_eq(pb == pa, equal, f"({tb!r}, {sb!r}) == ({ta!r}, {sa!r})")
    expect_eq(pa != pb, not equal, f"({ta!r}, {sa!r}) != ({tb!r}, {sb!r})")
    for other in (ta, None, 1, [ta]):
        expect_eq(pa == other, False, f"{ta!r} == {other!r}")
    expect_eq(pa.is_modified(), False, "a parsed selector is flagged as modified")


@st.composite
def cases(draw):
    a = draw(sm.expressions(5))
    kind = draw(st.sampled_from(["same", "case", "mutate", "other", "other", "drop", "swap", "not", "ops", "unknown"]))
    b = list(a)
    if kind == "case":
        b = [t.swapcase() if t.lower() in sm.KEYWORDS else t for t in b]
    elif kind == "unknown":
        b = [t.swapcase() if t.lower() not in (*sm.KEYWORDS, "and", "or", "not") else t for t in b]
    elif kind == "mutate":
        i = draw(st.integers(0, len(b) - 1))
        b[i] = draw(sm.operands()) if b[i].lower() not in ("and", "or", "not") else {"and": "or", "or": "and"}.get(
            b[i].lower(), "not"
        )
    elif kind == "drop" and len(b) > 2 and b[-2].lower() in ("and", "or"):
        b = b[:-2]
    elif kind in ("swap", "ops"):  # the same words, two operands or operators exchanged
        ops = ("and", "or", "not") if kind == "swap" else ("not",)
        at = [i for i, t in enumerate(b) if (t.lower() in ("and", "or")) == (kind == "ops") and t.lower() not in ops]
        if len(at) > 1:
            i, j = draw(st.sampled_from(at)), draw(st.sampled_from(at))
            b[i], b[j] = b[j], b[i]
    elif kind == "not":  # the same words, a `not` in front of another operand
        at = [i for i, t in enumerate(b) if t.lower() == "not"]
        if at:
            t = b.pop(draw(st.sampled_from(at)))
            ends = [i for i, x in enumerate(b) if x.lower() not in ("and", "or", "not")]
            b.insert(draw(st.sampled_from(ends)), t)
    elif kind == "other":
        b = draw(sm.expressions(5))
    return {
        "a": a,
        "b": b,
        "sa": draw(st.integers(0, 1)),
        "sb": draw(st.integers(0, 1)),
        "spa": draw(sm.spacing()),
        "spb": draw(sm.spacing()),
        "pad": draw(st.integers(0, 2)),
        "br": draw(st.booleans()),
        "br1": draw(st.integers(0, 7)) == 5,
    }


CHECK = Check(
    "C03",
    "A case is a pair of selectors (the second equal, differing in case or spacing, with one token changed, two exchanged, a `not` moved, shortened, "
    "or unrelated), a schema for each, and padding. Non-trivial: the first has an operator.",
    [Sub("pairs", cases, run, quick=5000, thorough=60000, shards=4)],
)
