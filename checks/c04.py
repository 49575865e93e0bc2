"""C04: reading a recipe and writing it back loses and changes nothing."""

import recipegen as rg
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader

PARSERS = [RecipeReader, RecipeParser]


def run_canonical(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model)
    feats = rg.features(model)
    for f in feats:
        rec.label(f)
    rec.nontrivial(bool(feats & {"l", "b", "m"}) and len(text.splitlines()) > 3)
    p = PARSERS[case["cls"]](text)
    expect_eq(p.render(), text, "a recipe in the canonical format is rendered differently", text)
    expect_eq(rg.chomp(p.render_to_object()), rg.data(model["top"]), "object form differs from what the file says", text)
    expect_eq(int(p.get_schema_version()), model["schema"], "schema version", text)
    expect_eq({v: p.get_variable(v) for v in p.list_variables()}, dict(model["vars"]), "variables", text)
    again = PARSERS[1 - case["cls"]](p.render())
    expect_eq(again.render(), text, "rendered text is rendered differently", text)
    expect(p == again, "a recipe is not equal to its re-parsed rendering", text)


def run_noise(case, rec: Rec) -> None:
    model = case["m"]
    want = rg.render(model)
    nz = rg.Noise(case["noise"])
    text = rg.render(model, nz)
    if rg.last_block(model) is None:
        text += case["end"]
    rec.nontrivial(nz.used >= 3)
    p = PARSERS[case["cls"]](text)
    got = p.render()
    expect_eq(PARSERS[case["cls"]](got).render(), got, "rendered text is rendered differently", text)
    expect_eq(rg.chomp(p.render_to_object()), rg.data(model["top"]), "object form differs from what the file says", text)
    # Blank lines that touch a block scalar are a part of it, everything else is normalised.
    if "b" in rg.features(model):
        norm = lambda s: [ln for ln in s.splitlines() if ln]  # noqa: E731
        expect_eq(norm(got), norm(want), "rendered lines differ from the canonical format", text)
    else:
        expect_eq(got, want, "rendered text is not in the canonical format", text)
    expect_eq({v: p.get_variable(v) for v in p.list_variables()}, dict(model["vars"]), "variables", text)


def run_text(case, rec: Rec) -> None:
    p = PARSERS[case["cls"]](case["text"])
    rec.nontrivial()
    expect_eq(p.render(), case["text"], "the recipe is rendered differently")


# Hand-written recipes; the known findings of this property are replayed with this test, too.
TEXTS = [
    "\n".join(["{% set name = \"foo\" %}", "{% set build = 3 %}", "", "package:", "  name: {{ name|lower }}", ""]),
    "\n".join(["schema_version: 1", "", "context:", "  name: foo", "", "package:", "  name: ${{ name }}", ""]),
    "\n".join(["build:", "  skip: true  # [win or py<38]  # why", "  script:", "    - if x: foo", "    # y", ""]),
]


@st.composite
def canonical(draw):
    return {"m": draw(rg.recipes()), "cls": draw(st.integers(0, 1))}


@st.composite
def noisy(draw):
    return {
        "m": draw(rg.recipes()),
        "cls": draw(st.integers(0, 1)),
        "noise": draw(st.lists(st.integers(0, 59), min_size=3, max_size=40)),
        "end": draw(st.sampled_from(["", "\n", "\n\n"])),
    }


CHECK = Check(
    "C04",
    "A case is a generated recipe: either schema, variables, nested maps and lists, lists of maps, block scalars of every "
    "variant, plain, quoted and Jinja strings, numbers, booleans, empty keys, comments and selectors at the end of lines and "
    "comment lines; for `noise` also formatting that has no meaning (spacing, quotes, blank lines). Non-trivial: more than "
    "three lines with a list, map or block scalar (canonical); at least three deviations from the canonical format (noise).",
    [
        Sub("canonical", canonical, run_canonical, quick=6000, thorough=120000, shards=8, shards_thorough=8),
        Sub("noise", noisy, run_noise, quick=6000, thorough=120000, shards=8, shards_thorough=8),
        Sub(
            "text",
            None,
            run_text,
            quick=0,
            thorough=0,
            enumerate=lambda _tier: [{"text": t, "cls": c} for t in TEXTS for c in (0, 1)],
        ),
    ],
)
