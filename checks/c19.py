"""C19: bump-recipe changes the version, the build number and the hashes, and nothing else, or leaves the file alone."""

import hashlib
import shutil
import tempfile
from pathlib import Path

import loopback
from click.testing import CliRunner
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.commands.bump_recipe import bump_recipe

IO_ERROR = 5
OK, USAGE, PARSE, ILLEGAL, PATCH, HTTP = 0, 2, 102, 106, 107, 108
HASH_NAMES = ["sha256", "hash", "hash_val", "hash_value"]
OLD_SHA = "0123456789abcdef" * 4
RETRIES = 5


class Line:
    """A line that the command changes, is added by it, or both."""

    def __init__(self, head: str, value: str):
        self.head, self.value = head, value

    def matches(self, text: str) -> bool:
        if not text.startswith(self.head + " "):
            return False
        got = text[len(self.head) + 1 :].split("  #")[0].strip()
        if len(got) > 1 and got[0] == got[-1] and got[0] in "'\"":
            got = got[1:-1]
        return got == self.value

    def __repr__(self) -> str:
        return f"{self.head} {self.value}  (changed)"


def version_of(case):
    """The version after the bump as URLs see it."""
    if case["target"] is not None:
        return case["target"]
    return dict(map(tuple, case["vars"])).get("version")


def url_path(src, version, name):
    tail = src["url"]
    if version is not None:
        tail = tail.replace("{{ version[0] }}", version[0]).replace("{{ version | upper }}", version.upper()).replace("{{ version }}", version)
    return tail.replace("{{ name }}", name or "")


def body(path):
    """What is to be downloaded: it differs for every path."""
    kind = next((k for k in reversed(loopback.KINDS) if path.endswith("." + k)), "tar.gz")
    return loopback.archive(kind, [["a/x.txt", path * 50], ["a/y.txt", "y"]])


def plan(case, base):
    """(text of the file, lines expected afterwards or None, exit code, expected requests)"""
    old: list[str] = []
    new: list = []
    code = OK
    requests: dict[str, int] = {}
    full = case["target"] is not None
    bump = case["build num"]

    def both(*lines):
        old.extend(lines)
        new.extend(lines)

    variables = dict(map(tuple, case["vars"]))
    src = case["source"]
    items = src["items"] if src else []
    supported = [s for s in items if s["kind"] in ("http", "git")]
    http = [s for s in items if s["kind"] == "http"]
    hash_vars = [v for v in variables if v in HASH_NAMES]
    by_var = None
    if len(hash_vars) == 1 and len(supported) == 1 and http and not src["list"] and http[0]["sha"] == hash_vars[0]:
        by_var = hash_vars[0]
    shas = {}
    failed = False
    for s in http:
        path = "/" + url_path(s, version_of(case), variables.get("name"))
        shas[id(s)] = hashlib.sha256(body(path)).hexdigest()
        n = len(s["fails"])
        requests[path] = min(n + 1, RETRIES)
        failed |= n >= RETRIES
    # Variables
    for k, v in case["vars"]:
        old.append(f'{{% set {k} = "{v}" %}}')
        if k == "hash_type":
            continue
        if full and k == "version":
            v = case["target"]
        if full and k == by_var:
            v = shas[id(http[0])]
        new.append(f'{{% set {k} = "{v}" %}}')
    sections = []
    for name in case["order"]:
        a, b = len(old), len(new)
        if a:
            old.append("")
        if b:
            new.append("")
        if name == "package":
            pkg = case["package"]
            if pkg is None:
                if full and "version" not in variables:
                    code = PATCH
            else:
                both("package:", f"  name: {pkg['name']}")
                if pkg["version"] is not None:
                    quote = '"' if pkg["quoted"] else ""
                    line = f"  version: {quote}{pkg['version']}{quote}"
                    old.append(line)
                    new.append(Line("  version:", case["target"]) if full and "version" not in variables else line)
                elif full and "version" not in variables:
                    new.append(Line("  version:", case["target"]))
        elif name == "source" and src:
            both("source:")
            for s in items:
                lines: list = []
                if s["kind"] == "http":
                    value = Line("sha256:", shas[id(s)])
                    url = f"url: {base}/{s['url']}" + (f"  # {s['comment']}" if s["comment"] else "")
                    lines.append((url, url))
                    if s["sha"] is None:
                        pass
                    elif s["sha"] in ("hash_type", "plain"):
                        key = "{{ hash_type }}" if s["sha"] == "hash_type" else "sha256"
                        lines.append((f"{key}: {OLD_SHA}", value if full else f"sha256: {OLD_SHA}"))
                    else:
                        line = f"sha256: {{{{ {s['sha']} }}}}"
                        lines.append((line, line if by_var or not full else value))
                    if s["extra"]:
                        lines.insert(len(lines) if s["extra"] == 1 else 0, ("folder: src", "folder: src"))
                    if s["sha"] is None and full:
                        lines.append((None, value))
                elif s["kind"] == "git":
                    lines += [(x, x) for x in ("git_url: https://github.com/foo/bar.git", "git_rev: v1.0")]
                else:
                    lines += [(x, x) for x in ("path: ../src", f"sha256: {OLD_SHA}")]
                for i, (x, y) in enumerate(lines):
                    indent = ("  - " if i == 0 else "    ") if src["list"] else "  "
                    if x is not None:
                        old.append(indent + x)
                    new.append(Line(indent + y.head, y.value) if isinstance(y, Line) else indent + y)
        elif name == "build" and case["build"]:
            build = case["build"]
            both("build:")
            if build["first"]:
                both("  noarch: python")
            if build["number"] is not None:
                line = f"  number: {build['number']}"
                old.append(line)
                if full:
                    new.append(Line("  number:", "0"))
                elif bump and not isinstance(build["number"], int):
                    code = ILLEGAL
                elif bump:
                    new.append(Line("  number:", str(build["number"] + 1)))
                else:
                    new.append(line)
            both("  # a comment", "  script: make install  # [unix]")
            if build["number"] is None:
                new.append(Line("  number:", "0"))
        elif name == "about":
            both("about:", f"  summary: version {OLD_SHA[:8]} 1.2.3  # note", "  home: https://a.b/{{ name }}")
        if len(old) == a + 1 and old[-1] == "":
            old.pop()
            del new[b:]
    if case["build"] is None:
        code = ILLEGAL
    if not full and not bump:
        code = USAGE
    elif code == OK and full and failed:
        code = HTTP
    if code != OK or not full:
        requests = requests if code == HTTP else {}
    return "\n".join(old) + "\n", new, code, requests


def run(case, rec: Rec) -> None:
    server = loopback.server()
    root = Path(tempfile.mkdtemp())
    try:
        text, lines, code, requests = plan(case, server.base)
        script: dict = {}
        variables = dict(map(tuple, case["vars"]))
        for s in case["source"]["items"] if case["source"] else []:
            if s["kind"] == "http":
                path = "/" + url_path(s, version_of(case), variables.get("name"))
                script[path] = [[f, body(path)] for f in s["fails"]] + [["ok", body(path)]]
        server.load(script)
        file = root / "meta.yaml"
        if case["broken"]:
            text = "package: [\n\n" + text
            code = PARSE if code != USAGE else code
        if case["bytes"]:
            text += "# gr\udcfc\udcdfe\n"
            code = IO_ERROR if code != USAGE else code
        file.write_bytes(text.encode(errors="surrogateescape"))
        (root / "other.yaml").write_text("package:\n  version: 1.2.3\n")
        args = [str(file), "-i", "0.001"]
        if case["target"] is not None:
            args += [["-t", "--target-version"][case["long"]], case["target"]]
        if case["build num"]:
            args.append(["-b", "--build-num"][case["long"]])
        if case["dry"]:
            args.append(["-d", "--dry-run"][case["long"]])
        res = CliRunner().invoke(bump_recipe, args)
        now = file.read_bytes().decode(errors="surrogateescape")
        trace = [args, text, now, res.output[:1000]]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        expect_eq(int(res.exit_code), code, "exit code", *trace)
        expect_eq(sorted(p.name for p in root.iterdir()), ["meta.yaml", "other.yaml"], "files", *trace)
        expect_eq((root / "other.yaml").read_text(), "package:\n  version: 1.2.3\n", "another file", *trace)
        got = now
        if code != OK:
            expect_eq(now, text, "a failure changed the file", *trace)
        elif case["dry"]:
            expect_eq(now, text, "a dry run changed the file", *trace)
            expect(res.stdout.endswith("\n\n"), "no recipe on standard output", *trace)
            got = res.stdout[:-1]
        if code == OK:
            got_lines = got.rstrip("\n").split("\n")
            expect_eq(len(got_lines), len(lines), "number of lines", lines, *trace)
            for g, w in zip(got_lines, lines):
                if isinstance(w, Line):
                    expect(w.matches(g), f"line {g!r} should be {w}", *trace)
                else:
                    expect_eq(g, w, "a line changed", *trace)
        if code == OK and not case["broken"]:
            seen = {p: server.requests.count(p) for p in set(server.requests)}
            expect_eq(dict(sorted(seen.items())), dict(sorted(requests.items())), "requests", *trace)
        elif code == HTTP:
            for p in server.requests:
                expect(p in requests, f"request of {p}", *trace)
                expect(server.requests.count(p) <= RETRIES, f"too many requests of {p}", *trace)
            expect(any(server.requests.count(p) == RETRIES for p in requests), "not tried often enough", server.requests, *trace)
        rec.label(f"exit code {code}" + (" with downloads" if requests and code == OK else ""))
        rec.nontrivial(code == OK and (bool(requests) or case["target"] is None) or code in (HTTP, PATCH))
    finally:
        shutil.rmtree(root)


VERSIONS = ["1.2.3", "0.9", "1", "2.0.0", "1.10", "3", "2024.01.02", "1.2.3rc1", "v2.0", "1!2.0", "1_2", "0.0", "1e5", "10.0.post1"]
FAILS = loopback.FAILURES


@st.composite
def cases(draw):
    flags = draw(st.sampled_from([(True, False)] * 6 + [(False, True)] * 4 + [(True, True)] * 2 + [(False, False)]))
    full = flags[0]
    v1 = draw(st.integers(0, 5)) == 5
    variables: list = []
    if not v1:
        if draw(st.sampled_from([True, True, False])):
            variables.append(["name", "foo"])
        if draw(st.sampled_from([True, True, False])):
            variables.append(["version", draw(st.sampled_from(["1.2.3", "0.9", "1"]))])
        if draw(st.sampled_from([False, False, True])):
            variables.append(["hash_type", "sha256"])
        for h in draw(st.lists(st.sampled_from(HASH_NAMES + ["checksum"]), max_size=2, unique=True)):
            variables.append([h, OLD_SHA])
        variables = draw(st.permutations(variables))
    names = [k for k, _ in variables]
    tails = ["a-1.2.3.tar.gz", "b/x.zip", "c/pkg.tar"]
    if "version" in names:
        tails += ["p-{{ version }}.tar.gz"] * 4 + ["{{ version }}/q.tar.bz2", "{{ version[0] }}/r_{{ version | upper }}.zip", "v{{ version }}/s-{{ version }}.tar.xz"]
        if "name" in names:
            tails += ["{{ name }}-{{ version }}.tar.gz"] * 2
    source = None
    if draw(st.integers(0, 9)) != 9:
        as_list = draw(st.integers(0, 2)) == 2
        items = []
        used: set = set()
        for _ in range(draw(st.integers(1, 3)) if as_list else 1):
            kind = draw(st.sampled_from(["http"] * 6 + ["git", "path"]))
            if v1 and kind == "git":
                kind = "http"
            item: dict = {"kind": kind}
            if kind == "http":
                url = draw(st.sampled_from([t for t in tails if t not in used] or tails))
                if url in used:
                    url = f"u{len(used)}/" + url
                used.add(url)
                sha = [None, "plain", "plain"] + [h for h in names if h in HASH_NAMES + ["checksum"]] * 3
                if not v1:
                    sha += ["hash_type"]
                k = draw(st.sampled_from([0] * 8 + [1, 1, 2, 4, 5]))
                item |= {
                    "url": url,
                    "sha": draw(st.sampled_from(sha)),
                    "comment": draw(st.sampled_from([None, None, "[win]", "a note"])) if not v1 else None,
                    "extra": draw(st.integers(0, 2)),
                    "fails": [draw(st.sampled_from(FAILS)) for _ in range(k)],
                }
            items.append(item)
        source = {"list": as_list, "items": items}
    build = None
    if draw(st.integers(0, 14)) != 14:
        number = st.sampled_from([0, 0, 1, 5, 99, 1000, None, None, "abc", "1.5", '"7"', "[1]"])
        build = {"number": draw(number), "first": draw(st.booleans())}
        if build["number"] == "[1]":
            build["number"] = "x7"
    package = None
    if draw(st.integers(0, 14)) != 14:
        vs = ["1.2.3", "1.2.3", None]
        if "version" in names:
            vs += ["{{ version }}"] * 6
        package = {"name": "{{ name }}" if "name" in names else "foo", "version": draw(st.sampled_from(vs)), "quoted": False}
    return {
        "schema": int(v1),
        "vars": [list(x) for x in variables],
        "package": package,
        "source": source,
        "build": build,
        "order": (["schema_version"] if v1 else []) + draw(st.permutations(["package", "source", "build", "about"])),
        "target": draw(st.sampled_from(VERSIONS)) if flags[0] else None,
        "build num": flags[1],
        "dry": draw(st.integers(0, 3)) == 3,
        "long": draw(st.booleans()),
        "broken": draw(st.integers(0, 29)) == 29,
        "bytes": draw(st.integers(0, 39)) == 33,
    }


def run_usage(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        file = root / "meta.yaml"
        text = "package:\n  name: foo\n  version: 1.0\n\nbuild:\n  number: 0\n"
        file.write_text(text)
        if case["dir"]:  # can't be read
            file = root
        res = CliRunner().invoke(bump_recipe, [str(file if case["there"] else root / "gone"), *case["args"]])
        if case["dir"] and case["there"] and not case["bad"]:
            expect_eq(int(res.exit_code), IO_ERROR, "exit code", case, res.output)
            expect_eq([p.name for p in root.iterdir()], ["meta.yaml"], "files", case, res.output)
        file = root / "meta.yaml"
        if case["dir"]:
            expect_eq(file.read_text(), text, "the file changed", case, res.output)
            return
        bad = not case["there"] or case["bad"]
        expect_eq(int(res.exit_code), USAGE if bad else OK, "exit code", case, res.output)
        if bad:
            expect_eq(file.read_text(), text, "the file changed", case, res.output)
        rec.nontrivial(bad)
    finally:
        shutil.rmtree(root)


@st.composite
def usages(draw):
    bad = draw(st.sampled_from([["-t", ""], ["-b", "-i", "0"], ["-t", "2.0", "-i", "-1"], ["-b", "-i", "x"], ["-d"], [], ["-b", "--nope"], ["-t"], None]))
    return {"there": draw(st.booleans()), "args": bad if bad is not None else draw(st.sampled_from([["-b"], ["-t", "2.0"], ["-b", "-i", "0.5"]])), "bad": bad is not None, "dir": draw(st.integers(0, 4)) == 3}


CHECK = Check(
    "C19",
    "A case is a recipe with version, hash and other variables (or none), sources of all kinds, a build number or none, options, and what the server on the "
    "loopback address does: serve an archive after up to five failures. Each line of the file afterwards, the exit code and the requests "
    "are compared with a model. Non-trivial: a bump that downloads, a build number bumped, or a failure after changes were made.",
    [
        Sub("bump", cases, run, quick=8000, thorough=150000, shards=6, shards_thorough=8, confirm=True),
        Sub("usage", usages, run_usage, quick=60, thorough=200),
    ],
)
