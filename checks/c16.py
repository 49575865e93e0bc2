"""C16: pre-processing rewrites the constructs it is meant for, where they are, and no other text."""

import re

import recipegen as rg
from harness import Check, Rec, Sub, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert


HASH_KEY = re.compile(r"^ *(- )?'?{{ (hash|hashtype|hash_type) }}'?:")


@st.composite
def words(draw, n=3):
    """Text without any meaning to Jinja, YAML or the pre-processor."""
    return " ".join(draw(st.lists(st.sampled_from(rg.WORDS + ["1.2.3", "v2", "a-b", "x_y", "A/B", "é"]), min_size=1, max_size=n)))


NAMES = st.sampled_from(["name", "version", "_v", "major2", "Name", "hash", "environ", "min_pin", "set"])


@st.composite
def call(draw):
    """A function call on a variable as written with a dot, and with a pipe."""
    f = draw(st.sampled_from(["lower", "upper", "replace", "split", "title", "rjust", "lower", "foo_1"]))
    if f in ("lower", "upper"):
        return f"{f}()", f
    if draw(st.integers(0, 4)) == 4:
        return f"{f}()", f"{f}()"
    q = draw(st.sampled_from("\"'"))
    args = draw(st.lists(st.sampled_from([".", "_", "-", "1.2", "a b", "", "v.", "max", ",", ":", "(", "x)", "()"]), min_size=1, max_size=2))
    body = draw(st.sampled_from([", ", ","])).join(f"{q}{a}{q}" for a in args)
    return f"{f}({body})", f"{f}({body})"


@st.composite
def statement(draw):
    """A line of Jinja: as it is, and as it shall be. None stands for a line that goes away."""
    k = draw(st.integers(0, 9))
    n = draw(st.sampled_from(["name", "version", "x", "hash_types", "hash_type2"]))
    sp = draw(st.sampled_from(["  ", " ", ""]))
    if k <= 3:
        old, new = draw(call())
        v = draw(st.one_of(NAMES, st.sampled_from(['"1.2.3"', "'Foo'", "name + version", "version[0]"])))
        pre = f"{{%{sp or ' '}set {n}{sp or ' '}= {v}"
        return f"{pre}.{old}{sp}%}}", f"{pre} | {new}{sp}%}}"
    if k == 4:
        h = draw(st.sampled_from(["hash_type", "hashtype", "hash"]))
        return f'{{% set {h} = "sha256" %}}', None
    line = draw(
        st.sampled_from(
            [
                f'{{% set {n} = "{draw(words(2))}" %}}',
                f'{{% set {n} = name | lower %}}',
                f'{{% set {n} = name|replace("a.b", "c") %}}',
                f'{{% set {n} = "1.2.3" %}}',
                f"{{% set {n} = [1, 2] %}}",
                f'{{% set {n} = load_setup_py_data("setup.cfg") %}}',
                f'{{% set {n} = compiler("c") %}}',
                '{% set hash_type = "md5" %}',
                '{% set hash = "0123abcd" %}',
                '{% set my_hash_type = "sha256x" %}',
                f"{{# {draw(words())} #}}",
            ]
        )
    )
    return line, line


@st.composite
def entry(draw):
    """A line of YAML without its indentation: as it is, and as a list of lines it shall be."""
    k = draw(st.integers(0, 15))
    key = draw(st.one_of(rg.idents(), st.sampled_from(["url", "sha256", "license_file", "description", "hash", "environ"])))
    lead = draw(st.sampled_from([f"{key}: ", f"{key}: ", "- ", f"- {key}: "]))
    tail = draw(st.sampled_from(["", "", "", "  # [linux]", "  # note", "  # [not win]  a note"]))
    w = draw(words())
    if k <= 3:
        old, new = draw(call())
        n = draw(st.one_of(NAMES, NAMES, st.sampled_from(["version[0]", "(name + version)", "'Foo'", "name[:2]", '"a.b"', "x.y"])))
        pre, post = draw(
            st.sampled_from(
                [("", ""), ("https://a.b.c/", ".tar.gz"), ("foo-", ""), ("{{ name }}-", ""), ('"', '"'), ("", "/{{ version }}.zip"), ("", ".{{ compiler('c') }}")]
            )
        )
        sp = draw(st.sampled_from([" ", " ", ""]))
        o, o2 = [f"{lead}{pre}{{{{{sp}{n}.{old}{sp}}}}}"], [f"{lead}{pre}{{{{{sp}{n} | {new}{sp}}}}}"]
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):  # more of them on the line
            m, between = draw(NAMES), draw(st.sampled_from(["/", "-", ".", " ", ""]))
            old, new = draw(call())
            o.append(f"{between}{{{{ {m}.{old} }}}}")
            o2.append(f"{between}{{{{ {m} | {new} }}}}")
        return "".join(o) + post + tail, ["".join(o2) + post + tail]
    if k <= 5:
        old = draw(
            st.sampled_from(
                [
                    ('{{ pin_compatible("foo", max_pin="x.x") }}', '{{ pin_compatible("foo", upper_bound="x.x") }}'),
                    ("{{ pin_subpackage('foo', min_pin='x', max_pin='x.x') }}", "{{ pin_subpackage('foo', lower_bound='x', upper_bound='x.x') }}"),
                    ("{{ pin_compatible('a', max_pin='x', min_pin='x.x.x') }}", "{{ pin_compatible('a', upper_bound='x', lower_bound='x.x.x') }}"),
                    ('{{ pin_subpackage(name, max_pin=None) }}', '{{ pin_subpackage(name, upper_bound=None) }}'),
                ]
            )
        )
        return lead + old[0] + tail, [lead + old[1] + tail]
    if k <= 7:
        q = draw(st.sampled_from("\"'"))
        out = draw(st.sampled_from(["", "", "'" if q == '"' else '"']))
        var = draw(st.sampled_from(["PREFIX", "SRC_DIR", "R_HOME", "x y"]))
        pre, post = draw(st.sampled_from([("", ""), ("", "/lib/R/share/licenses/GPL-3"), ("a ", " b"), ("{{ name }}/", "/{{ version }}")]))
        sp = draw(st.sampled_from([" ", "  ", "\t"]))
        old, new = f"environ[{q}{var}{q}]", f"env.get({q}{var}{q})"
        if draw(st.integers(0, 3)) == 3:
            second = draw(st.sampled_from(["PREFIX", "X"]))
            old += f" }}}} {{{{ environ[{q}{second}{q}]"
            new += f" }}}} {{{{ env.get({q}{second}{q})"
        return tuple(
            f(f"{lead}{out}{pre}{{{{{sp}{e} }}}}{post}{out}{tail}") for f, e in ((str, old), (lambda s: [s], new))
        )
    if k == 8:
        q = draw(st.sampled_from("\"'"))
        a, b = draw(words()), draw(words())
        return f"{key}: {q}{a}\\n{b}{q}", [f"{key}: |", f"  {a}", f"  {b}"]
    if k <= 10:
        h = draw(st.sampled_from(["hash_type", "hashtype", "hash"]))
        q = draw(st.sampled_from(["", "'"]))
        dash = draw(st.sampled_from(["", "- "]))
        return f"{dash}{q}{{{{ {h} }}}}{q}: {w}{tail}", [f"{dash}sha256: {w}{tail}"]
    line = draw(
        st.sampled_from(
            [
                f"{lead}{w}{tail}",
                f'{lead}"{w}"{tail}',
                f"{lead}{{{{ name }}}}-{{{{ version }}}}.tar.gz{tail}",
                f"{lead}{{{{ name | lower }}}}{tail}",
                f'{lead}{{{{ version | replace(".", "_") }}}}{tail}',
                f"{lead}https://a.b/{{{{ name[0] }}}}/{{{{ name }}}}.zip{tail}",
                f"{lead}{{{{ hash_type }}}}{tail}",
                f"{lead}{{{{ hash_types }}}}{tail}",
                f"{{{{ hash_types }}}}: {w}",
                f"{{{{ my_hash }}}}: {w}",
                f"{lead}{{{{ pin_compatible('a', max_pins, pin=1) }}}}{tail}",
                f"max_pin: {w}",
                f"environ: {w}",
                f"{lead}{{{{ os.environ['PREFIX'] }}}}{tail}",
                f'{lead}{{{{ os.environ["SRC_DIR"] }}}}/x{tail}',
                f"{lead}{{{{ environ.PREFIX }}}}{tail}",
                f"{lead}{{{{ environment['PREFIX'] }}}}{tail}",
                f"{lead}{{{{ environ[key] }}}}{tail}",
                f'{lead}"{w}\\t{w}"{tail}',
                f"{lead}{w}\\n{w}{tail}",
                f"{lead}{{{{ compiler('c') }}}}{tail}",
                f"{lead}{{{{ stdlib(\"c\") }}}}  # [linux]",
                f"# {w}",
                f"{lead}{{{{ foo(bar.baz) }}}}",
                f"{lead}f.lower() | upper(x)",
                f"{lead}{{{{ name }}}}.lower",
            ]
        )
    )
    return line, [line]


@st.composite
def cases(draw):
    head = [list(draw(statement())) for _ in range(draw(st.integers(0, 4)))]
    out = []
    for _ in range(draw(st.integers(1, 4))):
        key = draw(rg.idents())
        ind = draw(st.sampled_from(["  ", "  ", "    "]))
        out.append([key + ":", [key + ":"]])
        for _ in range(draw(st.integers(1, 5))):
            a, b = draw(entry())
            out.append([ind + a, [ind + x for x in b]])
            if draw(st.integers(0, 11)) == 11:
                out.append([f"{ind}# a comment", [f"{ind}# a comment"]])
    return {"head": head, "body": out, "end": draw(st.booleans())}


def run(case, rec: Rec) -> None:
    old = "".join(a + "\n" for a, _ in case["head"]) + "\n" + "\n".join(a for a, _ in case["body"])
    new = "".join(b + "\n" for _, b in case["head"] if b is not None) + "\n"
    new += "\n".join(x for _, b in case["body"] for x in b)
    if case["end"]:
        old, new = old + "\n", new + "\n"
    got = RecipeParserConvert.pre_process_recipe_text(old)
    expect_eq(got, new, "pre-processed text", old)
    if "env.get" not in new:  # these are function calls with a dot in their turn
        expect_eq(RecipeParserConvert.pre_process_recipe_text(got), new, "text pre-processed twice", old)
    changed = sum([a] != b for a, b in case["body"]) + sum(a != b for a, b in case["head"])
    rec.label(f"{min(changed, 4)} rewritten")
    rec.nontrivial(changed >= 2)
    # The part about hash types alone.
    want = "".join(a + "\n" for a, b in case["head"] if b is not None) + "\n"
    want += "\n".join(b[0] if HASH_KEY.match(a) else a for a, b in case["body"]) + "\n" * case["end"]
    expect_eq(RecipeParser.pre_process_remove_hash_type(old), want, "text without hash types as keys", old)


CHECK = Check(
    "C16",
    "A case is the text of a recipe of Jinja statements and lines, made of constructs that are to be rewritten (with the text they "
    "become) and look-alikes that are not. The whole text is compared, also after a second round. Non-trivial: at least two constructs rewritten.",
    [Sub("texts", cases, run, quick=6000, thorough=400000, shards=4, shards_thorough=8)],
)
