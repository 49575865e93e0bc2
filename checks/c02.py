"""C02: operating system and architecture names map to a fixed family of platforms."""

import selmodel as sm
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.platform_types import (
    ALL_ARCHITECTURES,
    ALL_OPERATING_SYSTEMS,
    ALL_PLATFORMS,
    Arch,
    OperatingSystem,
    Platform,
    get_platforms_by_arch,
    get_platforms_by_os,
)


def _vals(s):
    return sorted(p.value for p in s)


def run(case, rec: Rec) -> None:
    """A history of look-ups, some of whose results the caller then edits."""
    rec.nontrivial(len(case) >= 2 and any(op["edit"] for op in case))
    for op in case:
        name, kind = op["name"], op["kind"]
        tbl, fn, enum = (
            (sm.OS_TBL, get_platforms_by_os, OperatingSystem)
            if kind == "os"
            else (sm.ARCH_TBL, get_platforms_by_arch, Arch)
        )
        text = " " * op["lead"] + (name.upper() if op["upper"] else name) + "\t" * op["trail"]
        want = tbl.get(name.strip().lower(), set())
        got = fn(text)
        rec.label("known name" if want else "unknown name")
        expect(isinstance(got, set) and all(isinstance(p, Platform) for p in got), f"{kind} {text!r}: {got!r}")
        expect_eq(_vals(got), sorted(want), f"platforms of {kind} {text!r}")
        if name in tbl:
            expect_eq(_vals(fn(enum(name))), sorted(want), f"platforms of {enum(name)!r}")
        if op["edit"]:
            # The answer belongs to the caller.
            got.clear()
            got.update({Platform.WIN_32, Platform.LINUX_RISC_V64})
            expect_eq(_vals(fn(text)), sorted(want), f"platforms of {kind} {text!r} after the caller edited a result")
    expect_eq(_vals(ALL_PLATFORMS), sorted(sm.PLATFORMS), "all platforms")
    expect_eq(sorted(o.value for o in ALL_OPERATING_SYSTEMS), sorted(sm.OS_TBL), "all operating systems")
    expect_eq(sorted(a.value for a in ALL_ARCHITECTURES), sorted(sm.ARCH_TBL), "all architectures")
    # Every platform belongs to exactly one of linux, osx and win; unix is linux and osx together.
    lin, osx, win, unix = (get_platforms_by_os(x) for x in ("linux", "osx", "win", "unix"))
    expect(not (lin & osx or lin & win or osx & win), "operating systems overlap")
    expect_eq(_vals(lin | osx | win), sorted(sm.PLATFORMS), "operating systems cover all platforms")
    expect_eq(_vals(unix), _vals(lin | osx), "unix")
    expect(get_platforms_by_arch("x86_64") <= get_platforms_by_arch("x86"), "x86_64 is not part of x86")


def cases():
    # A word close to a known one is the interesting kind of unknown word.
    near = st.tuples(st.sampled_from(sorted(sm.KEYWORDS)), st.sampled_from(["", "x", "-64", "_", "32", "0"])).map("".join)
    names = st.one_of(
        st.sampled_from(sorted(sm.OS_TBL)),
        st.sampled_from(sorted(sm.ARCH_TBL)),
        st.sampled_from(sm.PLATFORMS),
        near,
        st.text(max_size=8),
    )
    op = st.fixed_dictionaries(
        {
            "name": names,
            "kind": st.sampled_from(["os", "arch"]),
            "lead": st.integers(0, 2),
            "trail": st.integers(0, 1),
            "upper": st.booleans(),
            "edit": st.booleans(),
        }
    ).filter(lambda d: d["name"].upper().strip().lower() == d["name"].strip().lower())
    return st.lists(op, min_size=1, max_size=6)


CHECK = Check(
    "C02",
    "A case is a history of look-ups by operating-system or architecture name (known names, platform names, near "
    "misses, arbitrary text; random case and surrounding white space), after some of which the caller edits the set it "
    "got. Judged against a fixed table. Non-trivial: at least two look-ups, one of them edited.",
    [Sub("lookups", cases, run, quick=4000, thorough=60000, shards=4)],
    assumptions=["keyword-to-platform table of conda-build as listed in lib/selmodel.py"],
)
