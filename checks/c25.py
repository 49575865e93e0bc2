"""C25: scanning a pyproject file gives the dependencies it declares, or says in a message why there are none."""

import json
import shutil
import tempfile
from pathlib import Path

from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.dependency import DependencySection, dependency_data_from_str, dependency_data_render_as_str
from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner
from conda_recipe_manager.types import MessageCategory

BROKEN = [b"[project\n", b"[project]\nname = foo\n", b"[project]\nname = 'a'\nname = 'b'\n", b"[project]\nname = '\xff'\n", b"\xef\xbb\xbf[project]\n", b"[project]\ndependencies = ['a'\n", b"\x00"]


def string(s, style):
    if style == 1 and "'" not in s:
        return f"'{s}'"
    if style == 2 and "'" not in s:
        return f"'''{s}'''"
    return json.dumps(s, ensure_ascii=style == 3)


def array(items, style):
    strings = [string(s, (style + i) % 4) for i, s in enumerate(items)]
    if style % 3 == 0 or not items:
        return "[" + ", ".join(strings) + "]"
    return "[\n" + "".join(f"  {s},  # a note\n" for s in strings) + "]"


def toml(case):
    out = []
    p = case["project"]
    body = []
    if p is not None:
        body.append("[project]")
        if not p["bare"]:
            body.append('name = "foo"')
        if p["deps"] is not None:
            body.append(f"dependencies = {array(p['deps'], case['style'])}")
        if not p["bare"]:
            body.append('dynamic = ["version"]')
        if p["extras"] is not None and not p["inline"]:
            body.append("[project.optional-dependencies]")
            body += [f"{json.dumps(k) if not k.isalnum() else k} = {array(v, case['style'] + i)}" for i, (k, v) in enumerate(p["extras"])]
        elif p["extras"] is not None:
            body.append("optional-dependencies = {" + ", ".join(f"{json.dumps(k)} = {array(v, 0)}" for k, v in p["extras"]) + "}")
        if not p["bare"]:
            body.append('[project.urls]\nhome = "https://a.b"')
    before = ["[build-system]", 'requires = ["setuptools>=61", "not-a-dependency"]'] if case["build"] else []
    after = ["[tool.foo]", 'dependencies = ["not-one-either"]', "[tool.foo.optional-dependencies]", 'x = ["nor-this"]', "[dependency-groups]", 'test = ["no-group"]'] if case["tool"] else []
    out = before + body + after if case["order"] else after + before + body
    return "\n".join(out) + "\n"


def run(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        data = BROKEN[case["broken"]] if case["broken"] is not None else toml(case).encode()
        if not case["gone"]:
            (root / case["name"]).write_bytes(data)
        decoy = root / ("other.toml" if case["name"] == "pyproject.toml" else "pyproject.toml")
        decoy.write_text('[project]\nname = "x"\ndependencies = ["decoy"]\n')
        args = [] if case["name"] == "pyproject.toml" and case["default"] else [case["name"]]
        scanner = PyProjectDependencyScanner(root if case["path"] else str(root), *args)
        table = scanner.get_message_table()
        expect_eq(table.get_messages(MessageCategory.EXCEPTION), [], "messages before the scan", case)
        got = scanner.scan()
        trace = [data.decode(errors="replace")]
        want, kind = set(), None
        if case["gone"] or case["broken"] is not None:
            kind = MessageCategory.EXCEPTION
        elif case["project"] is None:
            kind = MessageCategory.ERROR
        else:
            want |= {(s, DependencySection.RUN) for s in case["project"]["deps"] or []}
            want |= {(s, DependencySection.RUN_CONSTRAINTS) for _, v in case["project"]["extras"] or [] for s in v}
        expected = {(dependency_data_from_str(s), t) for s, t in want}
        expect({(d.data, d.type) for d in got} == expected, "dependencies", sorted(dependency_data_render_as_str(d.data) + " " + d.type.name for d in got), sorted(s + " " + t.name for s, t in want), *trace)
        expect_eq(len(got), len(expected), "number of dependencies", *trace)
        texts = {s for s, _ in want}
        for d in got:
            expect(dependency_data_render_as_str(d.data) in texts, f"text of {d}", *trace)
        for c in (MessageCategory.EXCEPTION, MessageCategory.ERROR, MessageCategory.WARNING):
            msgs = table.get_messages(c)
            expect_eq(len(msgs), int(c == kind), f"number of messages of kind {c}", msgs, *trace)
            expect(all(case["name"] in m for m in msgs), "the message does not name the file", msgs, *trace)
        expect(scanner.scan() == got, "a second scan differs", *trace)
        if kind is None:
            for c in (MessageCategory.EXCEPTION, MessageCategory.ERROR, MessageCategory.WARNING):
                expect_eq(table.get_messages(c), [], "messages after another scan", *trace)
        rec.label(str(kind) if kind else f"{min(len(want), 4)} dependencies")
        rec.nontrivial(kind is not None or len(want) > 1)
    finally:
        shutil.rmtree(root)


DEPS = ["click", "jinja2", "PyYAML", "click >= 1.2", "requests >= 2.8.1, == 2.8.*", "pytest ~= 8.1", "numpy<2", "foo==1.0", "a.b_c-d", "tomli; python_version < '3.11'", "requests[socks]>=2", "pkg @ https://a.b/c.zip", "grüße", "", "  spaced  ", "x!=1.5,>=1"]


@st.composite
def cases(draw):
    deps = st.lists(st.one_of(st.sampled_from(DEPS), st.sampled_from(DEPS[:12])), max_size=5)
    project = None
    if draw(st.integers(0, 7)) != 7:
        extras = draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["dev", "test", "conda_build", "a b", "x.y"]), deps).map(list), max_size=3, unique_by=lambda t: t[0])))
        project = {"deps": draw(st.one_of(deps, deps, st.none())), "extras": extras, "inline": draw(st.integers(0, 3)) == 3, "bare": draw(st.integers(0, 4)) == 3}
    return {
        "project": project,
        "style": draw(st.integers(0, 11)),
        "build": draw(st.booleans()),
        "tool": draw(st.booleans()),
        "order": draw(st.booleans()),
        "broken": draw(st.sampled_from([None] * 40 + list(range(len(BROKEN))))),
        "gone": draw(st.integers(0, 14)) == 14,
        "name": draw(st.sampled_from(["pyproject.toml", "pyproject.toml", "my project.toml"])),
        "default": draw(st.booleans()),
        "path": draw(st.booleans()),
    }


CHECK = Check(
    "C25",
    "A case is a pyproject file in any TOML notation with dependencies and extras (or none), next to sections that look alike, "
    "a file without a project, a broken one or none. Dependencies and messages are compared with the model. Non-trivial: several dependencies, or a message.",
    [Sub("files", cases, run, quick=6000, thorough=150000, shards=3, shards_thorough=8)],
)
