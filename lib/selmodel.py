"""Independent model of V0 selector expressions: which platforms a boolean expression over keywords picks."""

from hypothesis import strategies as st

LINUX = [
    "linux-32",
    "linux-64",
    "linux-aarch64",
    "linux-armv6l",
    "linux-armv7l",
    "linux-ppc64",
    "linux-ppc64le",
    "linux-riscv64",
    "linux-s390x",
]
OSX = ["osx-64", "osx-arm64"]
WIN = ["win-32", "win-64", "win-arm64"]
PLATFORMS = LINUX + OSX + WIN
OS_TBL = {"linux": set(LINUX), "osx": set(OSX), "unix": set(LINUX + OSX), "win": set(WIN)}
ARCH_TBL = {
    "s390x": {"linux-s390x"},
    "x86": {"linux-32", "win-32", "linux-64", "osx-64", "win-64"},
    "x86_64": {"linux-64", "osx-64", "win-64"},
    "arm64": {"osx-arm64", "win-arm64"},
    "armv6l": {"linux-armv6l"},
    "armv7l": {"linux-armv7l"},
    "ppc64": {"linux-ppc64"},
    "ppc64le": {"linux-ppc64le"},
}
KEYWORDS = {**{p: {p} for p in PLATFORMS}, **OS_TBL, **ARCH_TBL}
UNKNOWN = ["py37", "py<38", "py>=310", "vc14", "cuda", "blas_impl=='mkl'", "linux64", "aarch64", "True", "win32"]
# Words that look like keywords, or that other tools know
UNKNOWN += ["x", "noarch", "all", "any", "none", "linux-", "osx-32", "arm", "windows", "macos", "emscripten", "nota", "orx", "x86-64", "_", "0"]


def operand_set(tok: str) -> set[str]:
    return KEYWORDS.get(tok.lower(), set())


def select(tokens: list[str]) -> set[str]:
    """Evaluates the expression once per platform with Python's own operators and precedence."""
    out = set()
    for p in PLATFORMS:
        expr = []
        for t in tokens:
            if t.lower() in ("and", "or", "not"):
                expr.append(t.lower())
            else:
                expr.append("True" if p in operand_set(t) else "False")
        if eval(" ".join(expr), {"__builtins__": {}}, {}):  # only the words True/False/and/or/not
            out.add(p)
    return out


def operands():
    return st.one_of(
        st.sampled_from(sorted(KEYWORDS)),
        st.sampled_from(sorted(OS_TBL)),
        st.sampled_from(sorted(ARCH_TBL)),
        st.sampled_from(UNKNOWN),
        st.sampled_from(sorted(KEYWORDS)).map(str.upper),
        st.sampled_from(sorted(OS_TBL)).map(str.capitalize),
        st.builds(lambda t, m: "".join(c.upper() if m >> i & 1 else c for i, c in enumerate(t)), st.sampled_from(sorted(KEYWORDS)), st.integers(1, 2**13)),
    )


@st.composite
def expressions(draw, max_terms=7):
    """A well-formed expression as a list of tokens."""
    n = draw(st.integers(1, max_terms))
    toks: list[str] = []
    for i in range(n):
        if i:
            toks.append(draw(st.sampled_from(["and", "or", "and", "or", "AND", "Or", "aNd", "OR"])))
        nots = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
        toks += [draw(st.sampled_from(["not", "not", "not", "NOT", "Not", "noT"])) for _ in range(nots)]
        toks.append(draw(operands()))
    return toks


def spacing():
    """White space between tokens: so many spaces, or a tab (0)."""
    return st.lists(st.sampled_from([1, 1, 1, 2, 3, 0]), min_size=1, max_size=4)


def to_text(tokens: list[str], spaces: list[int]) -> str:
    out = ""
    for i, t in enumerate(tokens):
        if i:
            out += " " * spaces[i % len(spaces)] or "\t"
        out += t
    return out
