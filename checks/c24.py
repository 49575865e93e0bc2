"""C24: scanning a Python project gives what its code imports from elsewhere, and nothing else."""

import shutil
import sys
import tempfile
from pathlib import Path

from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.dependency import DependencySection, dependency_data_from_str, dependency_data_render_as_str
from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner
from conda_recipe_manager.types import MessageCategory

RENAMED = {"git": "gitpython", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv": "py-opencv", "cv2": "py-opencv", "OpenGL": "pyopengl"}
STDLIB = ["os", "sys", "json", "collections", "__future__", "tomllib", "_thread", "xml", "asyncio", "distutils"]
STDLIB = [m for m in STDLIB if m in sys.stdlib_module_names]
OTHER = ["numpy", "requests", "attr", "os2", "git_helper", "jsonschema", "pandas", "sklearnex", "_pytest", "é", "xmltodict", "conda_recipe_manager", "pytest", "Xlib", "MySQLdb", "__dunder__", "_", "a1", "Git"]
TOP = ["mypkg", "helpers", "ns", "setup", "yaml", "git", "numpy", "test_tools", "pillow"]


def code_of(statements):
    out: list[str] = []
    for s in statements:
        out += WRAPS[s["wrap"]](line_of(s), s)
    return "\n".join(out) + "\n"


def line_of(s):
    if s["t"] == "import":
        return "import " + ", ".join(m + (f" as {a}" if a else "") for m, a in s["mods"])
    if s["t"] == "from":
        names = ", ".join(s["names"])
        if s["paren"] and names != "*":
            names = f"(\n    {names},\n)" if s["wrap"] == "plain" else f"({names})"
        return f"from {'.' * s['level']}{s['mod']} import {names}"
    return NOISE[s["noise"]]


def indent(lines, n=1):
    return ["    " * n + x for x in lines]


WRAPS = {
    "plain": lambda x, s: [x],
    "semicolon": lambda x, s: [f"a = 1; {x}; b = 2"],
    "try": lambda x, s: ["try:", *indent([x]), "except ImportError:", *indent(["pass"])],
    "except": lambda x, s: ["try:", *indent(["pass"]), "except (ImportError, ValueError) as e:", *indent([x]), "finally:", *indent(["pass"])],
    "finally": lambda x, s: ["try:", *indent(["pass"]), "finally:", *indent([x])],
    "def": lambda x, s: ["@property", "def f(a, *b, c=1):", *indent(['"""import docstring_module"""', x, "return 1"])],
    "async": lambda x, s: ["async def f():", *indent(["async with a as b:", *indent([x])])],
    "class": lambda x, s: ["class A(object):", *indent(["def g(self):", *indent(["if self:", *indent([x])])])],
    "else": lambda x, s: ["if TYPE_CHECKING:", *indent(["pass"]), "elif 1:", *indent(["pass"]), "else:", *indent([x])],
    "loop": lambda x, s: ["for i in ():", *indent(["pass"]), "else:", *indent(["while 0:", *indent([x])])],
    "match": lambda x, s: ["match a:", *indent(["case [1, *_]:", *indent([x]), "case _:", *indent(["pass"])])],
}
NOISE = [
    "# import commented",
    'x = "import in_string"',
    '"""\nimport in_docstring\nfrom a_docstring import b\n"""',
    "importlib.import_module('dynamic')",
    "imports = [f for f in imports if f]",
    "y = 'from here import there'",
    "z = f\"{x!r} import {'also'}\"",
    "__import__('dunder')",
    "raise ValueError from err",
    "def g():\n    yield from gen",
]


def files_of(case, root: Path):
    """Writes the project. Gives the files that can't be scanned, and the dependencies found in the others."""
    bad, run, tests = [], set(), set()
    modules = set()
    for f in case["files"]:
        d = root.joinpath(*f["dir"])
        d.mkdir(parents=True, exist_ok=True)
        p = d / f["name"]
        if p.exists():
            continue
        text = code_of(f["code"])
        if f["enc"] == "latin-1":
            data = ("# -*- coding: latin-1 -*-\n# grüße\n" + text).encode("latin-1", errors="replace").replace(b"?", b"e")
        elif f["enc"] == "bom":
            data = b"\xef\xbb\xbf" + text.encode()
        elif f["enc"] == "crlf":
            data = text.replace("\n", "\r\n").encode()
        else:
            data = text.encode()
        if f["bad"] == "syntax":
            data += b"\ndef broken(:\n"
        elif f["bad"] == "bytes":
            data = b"x = '\xff\xfe'\n" + data
        elif f["bad"] == "null":
            data += b"\x00\n"
        p.write_bytes(data)
        if not p.name.endswith(".py"):
            continue
        if f["bad"]:
            bad.append(p)
    if case["dir_py"]:
        (root / "strange.py").mkdir()
        bad.append(root / "strange.py")
    # Modules of the project: files and packages at the top
    for p in root.iterdir():
        if p.is_file() and p.name.endswith(".py") and p.name != "__init__.py" and p.stem.isidentifier():
            modules.add(p.stem)
        elif p.is_dir() and (p / "__init__.py").exists():
            modules.add(p.name)
    seen = set()
    for f in case["files"]:
        p = root.joinpath(*f["dir"]) / f["name"]
        if p in seen:
            continue
        seen.add(p)
        if not p.name.endswith(".py") or f["bad"]:
            continue
        low = p.name.lower()
        found = tests if low.startswith("test_") or low.endswith("_test.py") else run
        for s in f["code"]:
            names = []
            if s["t"] == "import":
                names = [m.split(".")[0] for m, _ in s["mods"]]
            elif s["t"] == "from" and not s["level"]:
                names = [s["mod"].split(".")[0]]
            for n in names:
                if n not in sys.stdlib_module_names and n not in modules:
                    found.add(RENAMED.get(n, n))
    return bad, run, tests


def run(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        project = root / case["root"]
        project.mkdir()
        bad, runs, tests = files_of(case, project)
        (root / "outside.py").write_text("import outside_the_project\n")
        trace = [{str(p.relative_to(project)): p.read_bytes().decode(errors="replace") for p in sorted(project.rglob("*")) if p.is_file()}]
        before = list(trace)
        scanner = PythonDependencyScanner(project if case["path"] else str(project))
        got = scanner.scan()
        want = {(n, DependencySection.RUN) for n in runs}
        want |= {(n, DependencySection.TESTS) for n in tests if n not in runs}
        want |= {("python", DependencySection.HOST), ("python", DependencySection.RUN)}
        expect_eq(sorted((dependency_data_render_as_str(d.data), d.type.name) for d in got), sorted((n, t.name) for n, t in want), "dependencies", *trace)
        expect(got == {type(d)(dependency_data_from_str(dependency_data_render_as_str(d.data)), d.type) for d in got}, "data of the dependencies", *trace)
        table = scanner.get_message_table()
        msgs = table.get_messages(MessageCategory.EXCEPTION)
        expect_eq(len(msgs), len(bad), "number of messages", msgs, *trace)
        for p in bad:
            expect(sum(str(p) in m for m in msgs) == 1, f"no message on {p}", msgs, *trace)
        for c in (MessageCategory.ERROR, MessageCategory.WARNING):
            expect_eq(table.get_messages(c), [], f"messages of kind {c}", *trace)
        expect(scanner.scan() == got, "a second scan differs", *trace)
        after = [{str(p.relative_to(project)): p.read_bytes().decode(errors="replace") for p in sorted(project.rglob("*")) if p.is_file()}]
        expect_eq(after, before, "the project changed")
        rec.label(f"{min(len(want) - 2, 5)} dependencies")
        rec.nontrivial(len(runs) + len(tests) > 1)
    finally:
        shutil.rmtree(root)


@st.composite
def statements(draw):
    t = draw(st.sampled_from(["import"] * 4 + ["from"] * 5 + ["noise"] * 2))
    wrap = draw(st.sampled_from(["plain"] * 5 + sorted(WRAPS)))
    mods = st.sampled_from(STDLIB + OTHER * 3 + sorted(RENAMED) + TOP + ["os.path", "numpy.linalg", "google.cloud.storage", "mypkg.sub", "yaml.nodes", "PIL.Image", "xml.etree", "git.exc"])
    if t == "import":
        one = st.tuples(mods, st.sampled_from([None, None, "alias", "json"])).map(list)
        return {"t": t, "mods": draw(st.one_of(st.lists(one, min_size=1, max_size=3), st.lists(one, min_size=1, max_size=8))), "wrap": wrap}
    if t == "from":
        level = draw(st.sampled_from([0] * 5 + [1, 1, 2, 3]))
        mod = draw(mods)
        if level and draw(st.booleans()):
            mod = ""
        names = draw(st.sampled_from([["a"], ["a as b"], ["numpy"], ["a", "b as c"], ["*"]]))
        if names == ["*"] and wrap in ("def", "async", "class"):
            names = ["a"]
        if mod == "__future__":
            mod = "json"
        return {"t": t, "mod": mod, "level": level, "names": names, "paren": draw(st.booleans()), "wrap": wrap}
    noise = draw(st.integers(0, len(NOISE) - 1))
    return {"t": t, "noise": noise, "wrap": "plain"}


@st.composite
def cases(draw):
    files = []
    for _ in range(draw(st.integers(0, 6))):
        d = draw(st.sampled_from([[], [], ["mypkg"], ["mypkg", "sub"], ["tests"], ["yaml"], ["PIL"], ["ns", "deep", "er"], [".hidden"], ["with space"], ["é"]]))
        name = draw(st.sampled_from(["__init__.py", "mod.py", "helpers.py", "setup.py", "test_a.py", "b_test.py", "TEST_C.py", "D_Test.py", "testing.py", "contest.py", "conftest.py", "__main__.py", "tests.py", "test.py", "_test.py", "test_b.PY", "my_test.pyi", "README.md", "code.txt", "numpy.py", "git.py", "tables.py", "pillow.py", "test_.py", "a-b.py"]))
        files.append(
            {
                "dir": d,
                "name": name,
                "code": draw(st.lists(statements(), max_size=5)),
                "enc": draw(st.sampled_from([""] * 6 + ["latin-1", "bom", "crlf"])),
                "bad": draw(st.sampled_from([None] * 9 + ["syntax", "bytes", "null"])),
            }
        )
    for f in files:
        # `é` is no letter in every encoding, and declares nothing.
        if f["enc"] == "latin-1":
            for s in f["code"]:
                if s["t"] == "import":
                    s["mods"] = [[m.replace("é", "requests"), a] for m, a in s["mods"]]
                elif s["t"] == "from":
                    s["mod"] = s["mod"].replace("é", "requests")
            if f["bad"] == "bytes":
                f["bad"] = "syntax"
    return {"files": files, "root": draw(st.sampled_from(["src", "test_project", "my project"])), "path": draw(st.booleans()), "dir_py": draw(st.integers(0, 9)) == 9}


CHECK = Check(
    "C24",
    "A case is a directory of Python files: packages, modules, tests, hidden and misplaced files, in several encodings, some of them broken. Imports of "
    "all forms stand at all places of a program, next to text that looks like imports. The dependencies and messages are compared with "
    "the model of the statements. Non-trivial: more than one dependency.",
    [Sub("projects", cases, run, quick=3500, thorough=120000, shards=4, shards_thorough=8)],
)
