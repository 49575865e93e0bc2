"""
Recipes as plain JSON models, the text they have in a recipe file, and what a reader of that text must find in it.
Nothing here imports the code under test: this is the reference the parser is compared with.

A recipe is {"schema": 0 | 1, "vars": [[name, value], ...], "top": MAP}. A MAP is {"t": "m", "e": [ENTRY...], "post": []}
with ENTRY {"k": key, "c": comment on its line, "pre": comment lines above it, "v": NODE}.

NODE is one of
  {"t": "s", "x": text in the canonical format, "v": value}       scalar
  {"t": "n", "post": comment lines}                               key without a value
  {"t": "b", "var": "|", "ln": lines, "tb": blank lines after}    block scalar
  {"t": "m", ...}                                                 map
  {"t": "l", "i": [ITEM...], "post": comment lines}               list, ITEM is {"c", "pre", "v": scalar or MAP}
"""

from __future__ import annotations

import functools
import json
import re
from typing import Any

import yaml
from hypothesis import strategies as st

# ------------------------------------------------------------------------------------------------------- scalar text

WORDS = ["foo", "bar", "baz", "libfoo", "python", "numpy", "pip", "zlib", "cmake", "make", "wheel", "setuptools"]
SPECIAL_FIRST = set("[],&:*?-=!%@\\")
JINJA = re.compile(r"\$?{{[^{}]*}}")


def faithful(s: str) -> bool:
    """YAML reads the unquoted text as this very string (numbers that keep their text are quoted by nobody)."""
    try:
        v = yaml.safe_load(JINJA.sub("JINJA", s))
    except Exception:
        return False
    plain = JINJA.sub("JINJA", s)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return str(v) == plain
    return v == plain


def canonical_string(s: str) -> str:
    """The text of a string value in the canonical format."""
    if JINJA.search(s):
        return s
    if s == "" or s[0] in SPECIAL_FIRST or "'" in s or '"' in s or not faithful(s):
        return json.dumps(s)
    return s


def scalar(value: Any, text: str | None = None) -> dict[str, Any]:
    if text is None:
        if value is None:
            text = "null"
        elif isinstance(value, bool):
            text = "true" if value else "false"
        elif isinstance(value, str):
            text = canonical_string(value)
        else:
            text = str(value)
    return {"t": "s", "x": text, "v": value}


# ---------------------------------------------------------------------------------------------------------- rendering


def _block_lines(v: dict[str, Any], ind: str) -> list[str]:
    return [(ind + ln).rstrip() for ln in v["ln"]] + [""] * v["tb"]


class Noise:
    """Draws formatting that has no meaning in YAML. Without noise, the text is canonical."""

    def __init__(self, choices: list[int] | None = None) -> None:
        self.choices = list(choices or [])
        self.on = choices is not None
        self.i = 0
        self.used = 0

    def pick(self, n: int) -> int:
        if not self.on or not self.choices:
            return 0
        c = self.choices[self.i % len(self.choices)] % n
        self.i += 1
        if c:
            self.used += 1
        return c

    def gap(self, lines: list[str]) -> None:
        lines.extend([[], [], [""], ["", ""], ["   "]][self.pick(5)])

    def comment(self, c: str) -> str:
        if not c:
            return ["", "", " ", "   "][self.pick(4)]
        return ["  ", "  ", " ", "     "][self.pick(4)] + c + ["", "", " "][self.pick(3)]

    def sep(self) -> str:
        return [" ", " ", "  ", "    "][self.pick(4)]

    def text(self, node: dict[str, Any]) -> str:
        """Other ways to write a scalar."""
        v, x = node["v"], node["x"]
        if isinstance(v, str):
            k = self.pick(6)
            if JINJA.search(v) and '"' not in v and "\\" not in v:
                return [x, x, x, x, f'"{v}"', x][k]
            if JINJA.search(v):
                return x
            if k == 4:
                return json.dumps(v)
            if k == 5 and not any(ord(ch) < 32 or ch in "\x85\u2028\u2029" for ch in v):
                return "'" + v.replace("'", "''") + "'"
            return x
        if isinstance(v, bool):
            return [x, x, str(v), str(v).upper(), {True: "yes", False: "no"}[v]][self.pick(5)]
        if v is None:
            return [x, x, "~", "NULL"][self.pick(4)]
        return x

    def comment_indent(self, ind: str) -> str:
        """Comment lines may be indented in any way that YAML allows (the text that follows fixes their place)."""
        return ind


def render(model: dict[str, Any], noise: Noise | None = None) -> str:
    nz = noise or Noise()
    lines: list[str] = []
    if model["schema"] == 0 and model["vars"]:
        for name, value in model["vars"]:
            nz.gap(lines)
            val = f'"{value}"' if isinstance(value, str) else str(value)
            if isinstance(value, str) and nz.pick(4) == 3 and "'" not in value:
                val = f"'{value}'"
            sp = ["", "", " ", "  "][nz.pick(4)]
            lines.append(f"{{% set {name}{sp}{' ' if not sp else ''}={sp or ' '}{val} %}}")
        lines.append("")
    for e in model["top"]["e"]:
        _entry(e, 0, lines, nz)
        if lines[-1] != "":
            if nz.pick(4) != 3:
                lines.append("")
        nz.gap(lines)
    for c in model["top"]["post"]:
        lines.append(c)
    # A block scalar at the end of a file keeps no more than the line break of the last section.
    while len(lines) > 1 and not lines[-1].strip() and not lines[-2].strip():
        lines.pop()
    return "\n".join(lines)


def _entry(e: dict[str, Any], depth: int, lines: list[str], nz: Noise, first: bool = False) -> None:
    ind = "  " * depth
    for c in e["pre"]:
        nz.gap(lines)
        lines.append(ind + c)
    nz.gap(lines)
    head = ("  " * (depth - 1) + "- ") if first else ind
    v = e["v"]
    if v["t"] == "s":
        lines.append(f"{head}{e['k']}:{nz.sep()}{nz.text(v)}{nz.comment(e['c'])}")
        return
    if v["t"] == "b":
        lines.append((f"{head}{e['k']}:{nz.sep()}{v['var']}" + (f"  {e['c']}" if e["c"] else "")))
        lines.extend(_block_lines(v, ind + "  "))
        return
    lines.append(f"{head}{e['k']}:{nz.comment(e['c'])}")
    if v["t"] == "n":
        for c in v["post"]:
            lines.append(ind + "  " + c)
    elif v["t"] == "m":
        _map(v, depth + 1, lines, nz)
    else:
        _list(v, depth + 1, lines, nz)


def _map(m: dict[str, Any], depth: int, lines: list[str], nz: Noise, in_list: bool = False) -> None:
    for n, e in enumerate(m["e"]):
        _entry(e, depth, lines, nz, in_list and n == 0)
    for c in m["post"]:
        lines.append("  " * depth + c)


def _list(l: dict[str, Any], depth: int, lines: list[str], nz: Noise) -> None:
    ind = "  " * depth
    for it in l["i"]:
        for c in it["pre"]:
            nz.gap(lines)
            lines.append(ind + c)
        nz.gap(lines)
        if it["v"]["t"] == "s":
            lines.append(f"{ind}-{nz.sep()}{nz.text(it['v'])}{nz.comment(it['c'])}")
        else:
            _map(it["v"], depth + 1, lines, nz, True)
    for c in l["post"]:
        lines.append(ind + c)


# ------------------------------------------------------------------------------------------------------------ oracles


def block_value(v: dict[str, Any]) -> str:
    """What YAML reads. Line breaks at the very end are not compared (see DESIGN.md)."""
    return yaml.safe_load("k: " + v["var"] + "\n" + "\n".join(_block_lines(v, "  ")) + "\n")["k"]


def data(node: dict[str, Any]) -> Any:
    """Python object of a node."""
    t = node["t"]
    if t == "s":
        return node["v"]
    if t == "n":
        return None
    if t == "b":
        return block_value(node).rstrip("\n")
    if t == "m":
        return {e["k"]: data(e["v"]) for e in node["e"]}
    return [data(it["v"]) for it in node["i"]]


def chomp(obj: Any) -> Any:
    """Drops line breaks at the end of every string with several lines or a line break."""
    if isinstance(obj, str):
        return obj.rstrip("\n")
    if isinstance(obj, dict):
        return {k: chomp(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [chomp(v) for v in obj]
    return obj


def last_block(model: dict[str, Any]) -> dict[str, Any] | None:
    """The block scalar that ends the file, if one does."""
    node = model["top"]
    while node["t"] in ("m", "l"):
        if node["post"]:
            return None
        last = (node["e"] if node["t"] == "m" else node["i"])[-1:]
        if not last:
            return None
        node = last[0]["v"]
    return node if node["t"] == "b" else None


def walk(model: dict[str, Any]):
    """Yields (path, kind, comment, node) in file order. kind: key, item (scalar in a list) or object (map in a list)."""

    def go_map(m, path):
        for e in m["e"]:
            p = f"{path}/{e['k']}"
            yield p, "key", e["c"], e["v"]
            yield from go(e["v"], p)

    def go(v, path):
        if v["t"] == "m":
            yield from go_map(v, path)
        elif v["t"] == "l":
            for i, it in enumerate(v["i"]):
                p = f"{path}/{i}"
                if it["v"]["t"] == "s":
                    yield p, "item", it["c"], it["v"]
                else:
                    yield p, "object", it["v"]["e"][0]["c"], it["v"]
                    yield from go(it["v"], p)

    yield from go_map(model["top"], "")


def leaves(model: dict[str, Any]):
    """(path, value, node, comment) of every terminal path."""
    for p, _kind, c, v in walk(model):
        if v["t"] in ("s", "n", "b"):
            yield p, data(v), v, c


# ---------------------------------------------------------------------------------------------------------- generators

_YAML_WORDS = {"y", "n", "yes", "no", "on", "off", "true", "false", "null", "~", "nan", "inf"}


@functools.lru_cache(maxsize=None)
def idents(min_size: int = 1) -> st.SearchStrategy[str]:
    return st.from_regex(r"[a-z][a-z0-9_]{0,7}(-[a-z][a-z0-9]{0,4})?", fullmatch=True).filter(
        lambda s: s not in _YAML_WORDS and len(s) >= min_size
    )


KEYS = [
    "package", "name", "version", "source", "url", "sha256", "build", "number", "script", "skip", "noarch", "about",
    "home", "license", "summary", "description", "test", "tests", "imports", "commands", "requires", "requirements",
    "host", "run", "extra", "recipe-maintainers", "fn", "patches", "missing_dso_whitelist", "entry_points", "files",
]  # fmt: skip


@functools.lru_cache(maxsize=None)
def keys() -> st.SearchStrategy[str]:
    return st.one_of(st.sampled_from(KEYS), idents())


VERSIONS = st.builds(
    lambda parts, suf: ".".join(map(str, parts)) + suf,
    st.lists(st.integers(0, 30), min_size=3, max_size=4),
    st.sampled_from(["", "", "", "rc1", ".post1"]),
)


@functools.lru_cache(maxsize=None)
def specs() -> st.SearchStrategy[str]:
    return st.builds(
        lambda n, op, v, more: f"{n}{op}{v}{more}",
        st.one_of(st.sampled_from(WORDS), idents()),
        st.sampled_from([" >=", " <", " ==", " =", " >", " !=", " ", " ~="]),
        VERSIONS,
        st.sampled_from(["", "", ",<3", ".*", "|2.0.*", " py38_0"]),
    )


@functools.lru_cache(maxsize=None)
def phrases() -> st.SearchStrategy[str]:
    word = st.one_of(
        st.sampled_from(WORDS + ["c#sharp", "a:b", "x=1", "--flag", "|", ">", "&&", "{curly}", "100%", "#tag", "it's"]),
        idents(),
        st.text("abcXYZ019_.,;:/+*@!?()[]<>=~^$%&|`é✓", min_size=1, max_size=6),
    )
    return st.lists(word, min_size=1, max_size=5).map(" ".join)


# Strings that do not survive without quotes, or start with a character that is always quoted.
TRICKY = [
    "", " ", "true", "false", "null", "~", "yes", "No", "1.10", "1e5", "0x1f", "012", "1_000", "1.0e+3", "x: y", "a # b",
    "# x", "- x", "key:", "*.so", "**/lib", "&a", "!x", "%TEMP%", "@b", "`c`", "[x]", "{x}", "{x: y}", "a, b", "'q'", '"q"',
    "it's", 'say "x"', "x: 'y'", " lead", "trail ", "a: b: c", "a\\b", "\\n", "?", "? x", "-", "--", "=", "==1", ">", ">=1.0",
    "|", "| x", "2020-01-01", "12:30", ".5", "+1", "-1x", ".inf", "<<", "é: ü", "✓ #1", "foo:bar", "a#b", "%", "a %",
    "..", "...", "---", "--- a", ": x", ",x", "]", "}", "x]", "x}",
]  # fmt: skip


@functools.lru_cache(maxsize=None)
def strings() -> st.SearchStrategy[str]:
    return st.one_of(
        st.sampled_from(WORDS), idents(), VERSIONS, specs(), phrases(), st.sampled_from(TRICKY),
        st.sampled_from(["https://foo.org/x.tar.gz", "LICENSE.txt", "Apache-2.0 AND MIT", "foo = foo.cli:main"]),
    )  # fmt: skip


@functools.lru_cache(maxsize=None)
def numbers() -> st.SearchStrategy[Any]:
    return st.one_of(
        st.integers(0, 300), st.integers(-(10**12), 10**12), st.floats(-999, 999).map(lambda f: round(f, 2) + 0.0)
    ).filter(lambda x: "e" not in str(x))


def jinja(schema: int, names: list[str]) -> st.SearchStrategy[str]:
    return _jinja(schema, tuple(names))


@functools.lru_cache(maxsize=None)
def _jinja(schema: int, names: tuple[str, ...]) -> st.SearchStrategy[str]:
    o = "{{" if schema == 0 else "${{"
    var = st.sampled_from([*names, "undefined_var", "PYTHON", "posix"])
    sp = st.sampled_from([" ", " ", ""])
    body = st.one_of(
        var,
        st.builds(lambda v, f: f"{v}{f}", var, st.sampled_from(["|lower", " | upper", " | lower", "[0]", "[99]"])),
        st.builds(lambda v, n: f"{v} + {n}", var, st.integers(0, 300)),
        st.builds(lambda f, a: f"{f}('{a}')", st.sampled_from(["compiler", "stdlib", "cdt"]), st.sampled_from(["c", "cxx"])),
        st.builds(lambda v: f'pin_subpackage("{v}", exact=True)', idents()),
        st.builds(lambda v: f"pin_compatible('{v}', max_pin='x.x')", idents()),
    )
    one = st.builds(lambda b, s: f"{o}{s}{b}{s}}}}}", body, sp)
    return st.one_of(
        one,
        one,
        st.builds(lambda a, j, b: f"{a}{j}{b}", st.sampled_from(["foo-", "https://x.org/", "lib "]), one, st.sampled_from(["", ".tar.gz", " >=1.2"])),
        st.builds(lambda j, b: f"{j}{b}", one, st.sampled_from([" >=1.2,<2", "-py", ".*", " b", ' -m "foo bar"', " it's"])),
        st.builds(lambda a, j, k: f"{a}{j}/{k}.zip", st.sampled_from(["https://x.org/", "", "a "]), one, one),
    )


@st.composite
def scalars(draw, schema: int, names: list[str], p_jinja: int = 20, nulls: bool = False) -> dict[str, Any]:
    n = draw(st.integers(0, 99))
    if n < p_jinja:
        s = draw(jinja(schema, names))
        if n == 7 and not ('"' in s and "'" in s):  # an expression and a `#` that starts no comment
            s += draw(st.sampled_from([" # b", " #1 x", " # a # b"]))
            return {"t": "s", "x": f"'{s}'" if '"' in s else f'"{s}"', "v": s}
        return {"t": "s", "x": s, "v": s}
    if n < p_jinja + 10:
        return scalar(draw(numbers()))
    if n < p_jinja + 16:
        return scalar(draw(st.booleans()))
    if nulls and n < p_jinja + 18:
        return scalar(None)
    return scalar(draw(storable_strings()))


@functools.lru_cache(maxsize=None)
def storable_strings() -> st.SearchStrategy[str]:
    return strings().filter(storable)


def storable(s: str) -> bool:
    """Set aside as known findings: strings of numbers without quotes are read as numbers (by convention)."""
    if JINJA.search(s) or "{%" in s or "{#" in s or "{{" in s or "\n" in s:
        return False
    try:
        v = yaml.safe_load(s)
    except Exception:
        return True
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return str(v) != s
    return True


SELECTORS = ["linux", "win", "osx", "unix", "not win", "py<38", "py>=36", "linux and x86_64", "win or osx", "arm64", "aarch64"]
_CTEXT = st.one_of(
    st.sampled_from(
        ["note", "see https://x.org/#1", "TODO: fix", "usage: |", "x: >", "it's", '"quoted', "a # b", "#", "- item", "k: v", "100%",
         "see #  2", "a # # b", "x  #", "b #  # c"]
    ),
    st.lists(st.one_of(st.sampled_from(WORDS), idents()), min_size=1, max_size=4).map(" ".join),
)


_CLINES = st.lists(_CTEXT.map(lambda t: f"# {t}"), min_size=1, max_size=2)


@functools.lru_cache(maxsize=None)
@st.composite
def eol_comment(draw, p: int = 25, selectors: bool = True) -> str:
    """Comment at the end of a line, most without any."""
    n = draw(st.integers(0, 99))
    if n >= p:
        return ""
    kind = draw(st.integers(0, 5)) if selectors else 5
    if kind <= 2:
        return f"# [{draw(st.sampled_from(SELECTORS))}]"
    if kind == 3:
        return f"# [{draw(st.sampled_from(SELECTORS))}] {draw(_CTEXT)}"
    return f"# {draw(_CTEXT)}"


@functools.lru_cache(maxsize=None)
@st.composite
def comment_lines(draw, p: int = 8) -> list[str]:
    if draw(st.integers(0, 99)) >= p:
        return []
    return draw(_CLINES)


@st.composite
def blocks(draw, schema: int, names: list[str], tb: bool = True) -> dict[str, Any]:
    n = draw(st.integers(1, 5))
    lines: list[str] = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        if k == 0 and i:
            lines.append("")
            continue
        txt = draw(st.one_of(phrases(), st.sampled_from(["if x:", "# comment", "echo 'hi'", "k: v", "- x", "a: |", '"q'])))
        if k == 1:
            txt = draw(jinja(schema, names))
        txt = txt.strip() or "x"
        lines.append((" " * draw(st.sampled_from([0, 0, 0, 1, 2, 4])) if lines and any(lines) else "") + txt)
    if not lines[-1]:
        lines[-1] = "end"
    return {
        "t": "b",
        "var": draw(st.sampled_from(["|", "|", "|-", "|+", ">", ">-", ">+"])),
        "ln": lines,
        "tb": draw(st.sampled_from([0, 0, 1, 2])) if tb else 0,
    }


class Cfg:
    """What a generated recipe may hold."""

    def __init__(self, **kw: Any) -> None:
        self.p_eol = kw.get("p_eol", 25)
        self.p_lines = kw.get("p_lines", 8)
        self.blocks = kw.get("blocks", True)
        self.p_jinja = kw.get("p_jinja", 20)
        self.selectors = kw.get("selectors", True)
        self.empty = kw.get("empty", True)
        self.min_top = kw.get("min_top", 0)
        self.empty_comments = kw.get("empty_comments", True)
        self.nulls = kw.get("nulls", False)
        self.depth = kw.get("depth", 3)
        self.width = kw.get("width", 4)
        self.scalars = kw.get("scalars", None)
        self.tb = kw.get("tb", True)
        self.maps_in_lists = kw.get("maps_in_lists", True)
        self.top_lists = kw.get("top_lists", True)
        self.keys = kw.get("keys", None)


@st.composite
def nodes(draw, cfg: Cfg, schema: int, names: list[str], depth: int) -> dict[str, Any]:
    kinds = ["s"] * 5
    if depth > 0:
        kinds += ["m"] * 3 + ["l"] * 3
        if cfg.maps_in_lists:
            kinds += ["L"]
    if cfg.empty:
        kinds += ["n"]
    if cfg.blocks:
        kinds += ["b"]
    k = draw(st.sampled_from(kinds))
    if k == "s":
        return draw(cfg.scalars(schema, names) if cfg.scalars else scalars(schema, names, cfg.p_jinja))
    if k == "n":
        return {"t": "n", "post": draw(comment_lines(cfg.p_lines)) if cfg.empty_comments else []}
    if k == "b":
        return draw(blocks(schema, names, cfg.tb))
    if k == "m":
        return draw(maps(cfg, schema, names, depth - 1))
    items = []
    for _ in range(draw(st.integers(1, cfg.width))):
        if k == "L" and draw(st.integers(0, 3)) and depth > 0:
            v = draw(maps(cfg, schema, names, depth - 1))
            if v["e"][0]["v"]["t"] == "n":
                v["e"][0]["v"]["post"] = []
            c = ""
        else:
            v = draw(cfg.scalars(schema, names) if cfg.scalars else scalars(schema, names, cfg.p_jinja, cfg.nulls))
            c = draw(eol_comment(cfg.p_eol, cfg.selectors))
        items.append({"pre": draw(comment_lines(cfg.p_lines)), "c": c, "v": v})
    return {"t": "l", "i": items, "post": draw(comment_lines(cfg.p_lines))}


@st.composite
def maps(draw, cfg: Cfg, schema: int, names: list[str], depth: int, min_size: int = 1) -> dict[str, Any]:
    ks = draw(st.lists(keys() if cfg.keys is None else cfg.keys, min_size=min_size, max_size=cfg.width, unique=True))
    entries = []
    for i, k in enumerate(ks):
        v = draw(nodes(cfg, schema, names, depth))
        entries.append(
            {"k": k, "c": draw(eol_comment(cfg.p_eol, cfg.selectors)), "pre": draw(comment_lines(cfg.p_lines)) if i else [], "v": v}
        )
    return {"t": "m", "e": entries, "post": draw(comment_lines(cfg.p_lines))}


VAR_NAMES = ["name", "version", "build", "sha256", "org", "major", "soname", "Name", "PY_VER", "v2", "_x", "offset"]


@functools.lru_cache(maxsize=None)
@st.composite
def var_values(draw) -> Any:
    k = draw(st.integers(0, 9))
    if k < 2:
        return draw(st.integers(0, 400))
    if k == 2:
        return draw(st.booleans())
    if k == 3:
        return round(draw(st.floats(0, 99)), 2)
    return draw(st.one_of(VERSIONS, st.sampled_from(WORDS + ["Foo-Bar", "A B", "1.10", "3.8", "x: y", "a#b", "it's"])))


@st.composite
def recipes(draw, cfg: Cfg | None = None, schema: int | None = None) -> dict[str, Any]:
    """An arbitrary recipe."""
    cfg = cfg or Cfg()
    if schema is None:
        schema = draw(st.integers(0, 1))
    names = draw(st.lists(st.sampled_from(VAR_NAMES), unique=True, max_size=4))
    variables = [[n, draw(var_values())] for n in names]
    top = draw(maps(cfg, schema, names, cfg.depth, min(cfg.width, draw(st.sampled_from([2, 2, 3, 1, cfg.min_top])))))
    top["e"] = [e for e in top["e"] if e["k"] not in ("schema_version", "context")]
    for e in top["e"]:
        e["pre"] = draw(comment_lines(cfg.p_lines))
    if schema == 1:
        head = [{"k": "schema_version", "c": "", "pre": [], "v": scalar(1)}]
        if variables:
            ctx = {
                "t": "m",
                "post": [],
                "e": [{"k": n, "c": "", "pre": [], "v": scalar(v)} for n, v in variables if not isinstance(v, str) or storable(v)],
            }
            if ctx["e"]:
                head.append({"k": "context", "c": "", "pre": [], "v": ctx})
        top["e"] = head + top["e"]
        variables = [[e["k"], e["v"]["v"]] for h in head if h["k"] == "context" for e in h["v"]["e"]]
    # A comment line under the last section has no line break after it.
    return {"schema": schema, "vars": variables, "top": top}


def features(model: dict[str, Any]) -> set[str]:
    """Names of what a recipe holds, for statistics."""
    out: set[str] = set()

    def go(v):
        out.add(v["t"])
        if v.get("post"):
            out.add("comment line")
        if v["t"] == "m":
            for e in v["e"]:
                if e["c"]:
                    out.add("selector" if "[" in e["c"] else "comment")
                if e["pre"]:
                    out.add("comment line")
                go(e["v"])
        elif v["t"] == "l":
            for it in v["i"]:
                if it["c"]:
                    out.add("selector" if "[" in it["c"] else "comment")
                if it["v"]["t"] == "m":
                    out.add("list of maps")
                go(it["v"])
        elif v["t"] == "s":
            if isinstance(v["v"], str):
                if "{{" in v["v"]:
                    out.add("jinja")
                elif v["x"] != v["v"]:
                    out.add("quoted")

    go(model["top"])
    if model["vars"]:
        out.add("vars")
    return out
