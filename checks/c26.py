"""C26: the text of a license field is matched to the SPDX identifier it means, and to none if it is an expression."""

import difflib
import json
import re

from harness import REPO, Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

LICENSES = [(e["licenseId"], e["name"]) for e in json.loads((REPO / "conda_recipe_manager/licenses/spdx_licenses.json").read_text(encoding="utf-8"))["licenses"]]
IDS = sorted({i for i, _ in LICENSES})
BY_ID = {i.upper(): i for i in IDS}
BY_NAME: dict[str, set[str]] = {}
for _i, _n in LICENSES:
    BY_NAME.setdefault(_n.upper(), set()).add(_i)
KEYS = [(i, i) for i in IDS] + [(n, i) for i, n in LICENSES]
MISTAKES = {'BSD 2-CLAUSE "SIMPLIFIED"': "BSD-2-Clause", "UNLIMITED": "NOASSERTION"}
COMMON = (
    "MIT Apache-2.0 BSD-2-Clause BSD-3-Clause GPL-2.0-only GPL-2.0-or-later GPL-3.0-only GPL-3.0-or-later LGPL-2.1-only LGPL-2.1-or-later "
    "LGPL-3.0-only LGPL-3.0-or-later MPL-2.0 ISC Zlib BSL-1.0 Unlicense CC0-1.0 CC-BY-4.0 AGPL-3.0-only AGPL-3.0-or-later Python-2.0 PSF-2.0 "
    "Artistic-2.0 EPL-2.0 OFL-1.1 0BSD WTFPL curl OpenSSL libtiff X11 HPND NCSA"
).split()
UTILS = SpdxUtils()


def closest(text):
    """The identifiers of the licenses whose identifier or name is most like the text, and how alike they are."""
    m = difflib.SequenceMatcher()
    m.set_seq2(text)
    best, found = 0.6, set()
    for key, i in KEYS:
        m.set_seq1(key)
        if m.real_quick_ratio() >= best and m.quick_ratio() >= best:
            r = m.ratio()
            if r > best:
                best, found = r, {i}
            elif r == best:
                found.add(i)
    return found


def expected(text):
    """What may come out for a text, and why."""
    if text in IDS:
        return {text}, "identifier"
    clean = text.strip().upper()
    if clean in BY_ID:
        return {BY_ID[clean]}, "identifier in other letters"
    if clean in BY_NAME:
        return BY_NAME[clean], "name"
    if clean in MISTAKES:
        return {MISTAKES[clean]}, "known mistake"
    if "," in clean or re.search(r"(?<![^\s()])(AND|OR|WITH)(?![^\s()])", clean):
        return {None}, "expression"
    found = closest(text) or {None}
    if text != text.strip():
        found |= closest(text.strip()) or {None}
    if any(op in clean for op in ("AND", "OR", "WITH")):  # inside of another word: an expression, perhaps
        found = found | {None}
    return found, "similar" if found != {None} else "unlike any"


def run(case, rec: Rec) -> None:
    text = case["text"]
    want, why = expected(text)
    got = UTILS.find_closest_license_match(text)
    expect(got in want, f"match of {text!r} ({why})", got, sorted(map(str, want)))
    expect(got is None or got == "NOASSERTION" or got in IDS, f"match of {text!r} is no identifier", got)
    for other in case["other"]:
        o = UTILS.find_closest_license_match(other)
        w, y = expected(other)
        expect(o in w, f"match of {other!r} ({y})", o, sorted(map(str, w)))
    expect_eq(UTILS.find_closest_license_match(text), got, f"second match of {text!r}")
    if got is not None and got != "NOASSERTION":
        expect_eq(UTILS.find_closest_license_match(got), got, "match of the match")
        expect_eq(UTILS.find_closest_license_match(f"{got} AND {text}") if f"{got} AND {text}".upper() not in BY_NAME else None, None, "match of an expression")
    if case["fresh"]:
        expect_eq(SpdxUtils().find_closest_license_match(text), got, f"match of {text!r} by another instance")
    rec.label(why)
    rec.nontrivial(text not in IDS)


def enum_all(_tier):
    """Every identifier and name, as they are and in other letter cases."""
    out = []
    for i in COMMON:
        out.append({"text": i, "other": [i.lower(), i.upper()], "fresh": False})
    for i, n in LICENSES:
        for t in (i, n):
            out.append({"text": t, "other": [t.lower(), " " + t.upper() + " "], "fresh": False})
    return out


def run_known(case, rec: Rec) -> None:
    expect(case["text"] not in COMMON or case["text"] in IDS, f"{case['text']} is not in the list of licenses")
    run(case, rec)


base = st.one_of(
    st.sampled_from(COMMON),
    st.sampled_from(IDS),
    st.sampled_from([n for _, n in LICENSES]),
    st.sampled_from(sorted(MISTAKES) + ["BSD 3-Clause", "GPL-2", "GPL-3", "Apache License 2.0", "BSD_3_Clause", "LGPL (>= 2)", "MIT License", "Public Domain", "PSF", "GPL", "proprietary"]),
)


@st.composite
def texts(draw):
    kind = draw(st.sampled_from(["typo", "typo", "typo", "case", "sep", "words", "expr", "expr", "any"]))
    t = draw(base)
    if kind == "any":
        return draw(st.one_of(st.text(max_size=25), st.text(alphabet="GPLBSDMIT-.0123 ", max_size=14)))
    if kind == "case":
        t = draw(st.sampled_from([str.lower, str.upper, str.title, str.swapcase]))(t)
    elif kind == "sep":
        t = t.replace(*draw(st.sampled_from([("-", " "), ("-", "_"), (" ", "-"), ("-", ""), (" ", "  "), (".0", "")])))
    elif kind == "words":
        t = draw(st.sampled_from(["{} License", "The {}", "{} v2", "({})", "{} (see LICENSE)", "{}+", "license: {}", "{} | file LICENSE"])).format(t)
    elif kind == "expr":
        t = draw(st.sampled_from(["{} AND {}", "{} or {}", "{} WITH {}", "{}, {}", "({} OR {})", "{},{}", "{} and {}", "{} With {}", "({})AND({})", "{}  OR\t{}"])).format(t, draw(base))
    else:
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(t)))
            t = t[:i] + draw(st.sampled_from(["", "a", "-", "1", " ", "L", "E"])) + t[i + draw(st.integers(0, 2)):]
    return draw(st.sampled_from(["{}"] * 4 + [" {}", "{} ", "\t{}\n"])).format(t.replace("{", "").replace("}", ""))


cases = st.fixed_dictionaries({"text": texts(), "other": st.lists(texts(), max_size=1), "fresh": st.integers(0, 30).map(lambda n: n == 17)})


CHECK = Check(
    "C26",
    "A case is a license text: every SPDX identifier and name in several letter cases (exhaustively), and generated ones with typing errors, other "
    "separators, added words, expressions or arbitrary text. The match is compared with the SPDX list and with a search for the most similar "
    "identifier or name. Non-trivial: the text is not itself an identifier.",
    [
        Sub("known", None, run_known, quick=0, thorough=0, enumerate=enum_all, shards=4),
        Sub("texts", lambda: cases, run, quick=3000, thorough=80000, shards=8, shards_thorough=8),
    ],
    assumptions=["The licenses are those of the SPDX list that the package ships."],
)
