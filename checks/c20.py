"""C20: the HTTP fetcher gives exactly what the archive holds, or raises a FetchError, and never writes anywhere else."""

import gc
import hashlib
import io
import json
import os
import shutil
import tarfile
import tempfile
import warnings
import zipfile
from pathlib import Path

import loopback
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
from conda_recipe_manager.fetcher.http_artifact_fetcher import ArtifactArchiveType, HttpArtifactFetcher

warnings.filterwarnings("ignore", message="Duplicate name")
GETTERS = ("get_path_to_source_code", "get_archive_sha256", "get_archive_type")


def build(kind, members) -> bytes:
    """An archive with members [type, name, content or target]."""
    out = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for t, name, content in members:
                info = zipfile.ZipInfo(name + ("/" if t == "dir" else ""), (2020, 1, 1, 0, 0, 0))
                z.writestr(info, "" if t == "dir" else content.encode())
        return out.getvalue()
    with tarfile.open(fileobj=out, mode="w:" + kind[4:]) as tar:
        for t, name, content in members:
            info = tarfile.TarInfo(name)
            info.mode = 0o755 if t in ("dir", "exec") else 0o644
            info.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE}.get(t, tarfile.REGTYPE)
            if t in ("sym", "hard"):
                info.linkname = content
                # A hard link has the mode of its file.
                info.mode = 0o755 if ["exec", content] in [m[:2] for m in members] else 0o644
                tar.addfile(info)
            elif t == "dir":
                tar.addfile(info)
            else:
                data = content.encode()
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data))
    return out.getvalue()


def corrupt(data: bytes, where: int, how: str) -> bytes:
    """Damages the archive somewhere in the middle."""
    at = where * len(data) // 1000
    if how == "cut":
        return data[: max(1, at)]
    if how == "flip":
        return data[:at] + bytes([data[at] ^ 0x55]) + data[at + 1 :] if at < len(data) else data
    return data[:at] + b"\x00\xff" * 40 + data[at + 80 :]


def tree(root: Path):
    """name → content, None for a directory, or the target of a symbolic link"""
    out = {}
    for d, dirs, files in os.walk(root):
        for name in dirs + files:
            p = Path(d) / name
            rel = str(p.relative_to(root))
            if p.is_symlink():
                out[rel] = ["link", os.readlink(p)]
            elif p.is_dir():
                out[rel] = None
            else:
                out[rel] = p.read_bytes().decode()
    return dict(sorted(out.items()))


def model(members):
    out = {}
    for t, name, content in members:
        parts = name.split("/")
        for i in range(1, len(parts)):
            out.setdefault("/".join(parts[:i]), None)
        if t == "dir":
            out[name] = None
        elif t == "sym":
            out[name] = ["link", content]
        elif t == "hard":
            out[name] = out[content]
        else:
            out[name] = content
    return dict(sorted(out.items()))


def need_fetch(f, *trace):
    for g in GETTERS:
        try:
            v = getattr(f, g)()
        except FetchRequiredError:
            continue
        raise Violation(f"{g}() gives {v} before a successful fetch\n    {trace}")


def run(case, rec: Rec) -> None:
    server = loopback.server()
    data = build(case["kind"], case["members"])
    path = "/" + case["path"]
    script = {path: [[r, data] for r in case["fails"]] + [["ok", data]]}
    url = server.base + path
    if case["redirect"]:
        script["/moved/" + case["path"]] = [["redirect", (server.base + path).encode()]]
        url = server.base + "/moved/" + case["path"]
    server.load(script)
    f = HttpArtifactFetcher(case["name"], url)
    other = HttpArtifactFetcher(case["name"], url)
    expect_eq(str(f), case["name"], "name", case)
    need_fetch(f, case)
    for r in case["fails"]:
        try:
            f.fetch()
        except FetchError:
            need_fetch(f, case)
            continue
        except Exception as e:  # pylint: disable=broad-exception-caught
            raise Violation(f"fetch() raises {e!r} instead of FetchError after response {r}\n    {case}") from e
        raise Violation(f"fetch() succeeds after response {r}\n    {case}")
    try:
        f.fetch()
    except Exception as e:  # pylint: disable=broad-exception-caught
        raise Violation(f"fetch() of a good archive raises {e!r}\n    {case}") from e
    expect_eq(f.get_archive_sha256(), hashlib.sha256(data).hexdigest(), "hash", case)
    want = ArtifactArchiveType.ZIP if case["kind"] == "zip" else ArtifactArchiveType.TARBALL
    expect(f.get_archive_type() is want, f"type {f.get_archive_type()}", case)
    src = f.get_path_to_source_code()
    expect_eq(tree(src), model(case["members"]), "extracted files", case)
    if case["kind"] != "zip":
        for t, name, _ in case["members"]:
            if t in ("exec", "file"):
                expect_eq(bool((src / name).stat().st_mode & 0o100), t == "exec", f"executable bit of {name}", case)
    need_fetch(other, case)
    if case["again"]:
        other.fetch()
        expect(other.get_path_to_source_code() != src, "two fetchers share their files", case)
        del other
        gc.collect()
        expect_eq(tree(src), model(case["members"]), "extracted files after another fetcher is gone", case)
    del f
    gc.collect()
    expect(not src.exists(), "the files outlive the fetcher", case)
    rec.label(case["kind"])
    rec.label(f"after {min(len(case['fails']), 3)} failures")
    rec.nontrivial(len(case["members"]) > 2 or bool(case["fails"]))


def run_damaged(case, rec: Rec) -> None:
    """A damaged archive is a FetchError, or it can still be read (and then gives its own hash)."""
    server = loopback.server()
    data = corrupt(build(case["kind"], case["members"]), case["where"], case["how"])
    if case["junk"]:
        data = bytes(case["junk"]) if case["junk"][0] % 2 else data + bytes(case["junk"])
    server.load({"/x.tgz": [["ok", data]]})
    f = HttpArtifactFetcher("foo", server.base + "/x.tgz")
    try:
        f.fetch()
        good = True
    except FetchError:
        good = False
        need_fetch(f, case)
    except Exception as e:  # pylint: disable=broad-exception-caught
        raise Violation(f"fetch() raises {e!r} instead of FetchError\n    {case}\n    {data[:300]!r}") from e
    if good:
        expect_eq(f.get_archive_sha256(), hashlib.sha256(data).hexdigest(), "hash", case)
    rec.label(case["kind"] + (" read" if good else " refused"))
    rec.nontrivial(not good)


def run_sequence(case, rec: Rec) -> None:
    """Every fetch of the same fetcher gives what is served at that time: nothing of what former ones got remains."""
    server = loopback.server()
    answers = []
    for step in case["steps"]:
        if step["how"] in loopback.FAILURES:
            answers.append([step["how"], b"x"])
            continue
        data = build(step["kind"], step["members"] + ([["file", "../out", "x"]] if step["how"] == "outside" else []))
        answers.append(["ok", data[: len(data) * 2 // 3] if step["how"] == "cut" else data])
    server.load({"/x.tgz": answers})
    f = HttpArtifactFetcher("foo", server.base + "/x.tgz")
    was_good = refused = 0
    for i, (step, (_, data)) in enumerate(zip(case["steps"], answers)):
        try:
            f.fetch()
            good = True
        except FetchError:
            good = False
        except Exception as e:  # pylint: disable=broad-exception-caught
            raise Violation(f"fetch() {i} raises {e!r} instead of FetchError\n    {case}") from e
        if step["how"] == "good" or step["how"] in loopback.FAILURES:
            expect_eq(good, step["how"] == "good", f"success of fetch() {i}", case)
        if not good:
            need_fetch(f, case, i)
            refused += 1
            continue
        expect_eq(f.get_archive_sha256(), hashlib.sha256(data).hexdigest(), f"hash after fetch() {i}", case)
        want = ArtifactArchiveType.ZIP if step["kind"] == "zip" else ArtifactArchiveType.TARBALL
        expect(f.get_archive_type() is want, f"type {f.get_archive_type()} after fetch() {i}", case)
        if step["how"] == "good":
            expect_eq(tree(f.get_path_to_source_code()), model(step["members"]), f"extracted files after fetch() {i}", case)
            was_good += 1
    rec.label(f"{was_good} good, {refused} refused")
    rec.nontrivial(was_good > 0 and len(case["steps"]) > 1)


HOSTILE = [
    ["file", "../{x}", "escaped"],
    ["file", "../../{x}", "escaped"],
    ["file", "a/../../{x}", "escaped"],
    ["file", "a/b/../../../../{x}", "escaped"],
    ["file", "{root}/{x}", "escaped"],
    ["file", "/{root}/{x}", "escaped"],
    ["sym", "a/up", "../.."],
    ["sym", "up", "{root}"],
    ["sym", "up", ".."],
    ["file", "up/{x}", "escaped"],
    ["file", "a/up/{x}", "escaped"],
    ["hard", "h", "../../victim"],
    ["hard", "h", "{root}/victim"],
    ["file", "h", "overwritten"],
    ["sym", "h", "{root}/victim"],
    ["dir", "../{x}", ""],
    ["dir", "{root}/{x}", ""],
    ["sym", "{root}/{x}", "/nowhere"],
    ["file", "fine.txt", "fine"],
    ["dir", "a", ""],
]


def outside(root: Path, skip: Path):
    """Everything below the root that is not below `skip`."""
    out = {}
    for d, dirs, files in os.walk(root):
        if Path(d) == skip:
            dirs[:] = []
            continue
        for n in dirs + files:
            p = Path(d) / n
            out[str(p.relative_to(root))] = "link" if p.is_symlink() else "dir" if p.is_dir() else p.read_text()
    return out


def hostile_child(case, root: Path, url: str) -> dict:
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
    os.umask(0o022)
    os.chdir(root)
    tempfile.tempdir = str(root / "d1" / "d2" / "d3")
    f = HttpArtifactFetcher("foo", url)
    temp = next(Path(tempfile.tempdir).iterdir())
    before = outside(root, temp)
    outcome = "ok"
    try:
        f.fetch()
    except FetchError:
        outcome = "refused"
    except Exception as e:  # pylint: disable=broad-exception-caught
        outcome = repr(e)
    after = outside(root, temp)
    return {"outcome": outcome, "before": before, "after": after}


def run_hostile(case, rec: Rec) -> None:
    """
    Runs as an unprivileged user who owns nothing but a scratch directory, in a process of its own: the code under test
    is what keeps the files where they belong.
    """
    server = loopback.server()
    root = Path(tempfile.mkdtemp(prefix="verif_c20_", dir="/tmp"))
    try:
        for d in (root, root / "d1", root / "d1" / "d2", root / "d1" / "d2" / "d3"):
            d.mkdir(exist_ok=True)
            os.chown(d, 65534, 65534)
        for d in (root, root / "d1", root / "d1" / "d2", root / "d1" / "d2" / "d3"):
            (d / "victim").write_text("untouched")
            os.chown(d / "victim", 65534, 65534)
        (root / "d1" / "d2" / "d3" / "victim").unlink()
        members = [[t, n.format(root=root, x="escapee"), c.format(root=root, x="escapee")] for t, n, c in case["members"]]
        if case["kind"] == "zip":
            members = [m for m in members if m[0] in ("file", "dir")]
        data = build(case["kind"], members)
        server.load({"/x.bin": [["ok", data]]})
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.write(w, json.dumps(hostile_child(case, root, server.base + "/x.bin")).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        got = b""
        while chunk := os.read(r, 65536):
            got += chunk
        os.close(r)
        os.waitpid(pid, 0)
        out = json.loads(got)
        expect(out["outcome"] in ("ok", "refused"), f"fetch() raises {out['outcome']}", case)
        expect_eq(dict(sorted(out["after"].items())), dict(sorted(out["before"].items())), "files outside of the fetcher's directory", members, out["outcome"])
        rec.label(case["kind"] + " " + out["outcome"])
        rec.nontrivial(any("escapee" in n or "victim" in c or t == "sym" for t, n, c in members))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_unreachable(case, rec: Rec) -> None:
    """Hosts and schemes that can't be reached."""
    url = case["url"].replace("BASE", loopback.server().base)
    loopback.server().load({})
    f = HttpArtifactFetcher("foo", url)
    try:
        f.fetch()
    except FetchError:
        need_fetch(f, case)
        rec.nontrivial()
        return
    except Exception as e:  # pylint: disable=broad-exception-caught
        raise Violation(f"fetch() raises {e!r}\n    {case}") from e
    raise Violation(f"fetch() succeeds\n    {case}")


CONTENT = st.one_of(st.sampled_from(["", "x\n", "print('ü')\n"]), st.text("abc\n\t é✓", max_size=30), st.integers(1, 9).map(lambda n: "0123456789abcdef\n" * n * 700))
DIRS = ["", "pkg-1.0/", "pkg-1.0/", "pkg-1.0/src/", "pkg-1.0/a b/", "pkg-1.0/ü/", "x/y/z/"]
NAMES = ["setup.py", "README", "a.b.c", ".hidden", "ünïcode.txt", "with space", "x" * 120, "-dash", "a\\b", "c:d"]


@st.composite
def members_of(draw, kind, n=7):
    out: list = []
    seen: set = set()
    for _ in range(draw(st.integers(1, n))):
        d = draw(st.sampled_from(DIRS))
        t = draw(st.sampled_from(["file"] * 6 + ["exec", "dir", "sym", "hard"]))
        name = d + draw(st.sampled_from(NAMES if kind != "zip" else [n for n in NAMES if n not in ("a\\b", "c:d")]))
        files = [m[1] for m in out if m[0] in ("file", "exec")]
        if kind == "zip" and t not in ("file", "dir"):
            t = "file"
        if name in seen or any(s.startswith(name + "/") or name.startswith(s + "/") for s in seen):
            continue
        seen.add(name)
        if t == "sym":
            depth = name.count("/")
            out.append([t, name, draw(st.sampled_from(["README", "setup.py"] + (["../setup.py"] if depth else [])))])
        elif t == "hard" and files:
            out.append([t, name, draw(st.sampled_from(files))])
        elif t == "dir":
            out.append([t, name, ""])
        else:
            out.append(["exec" if t == "exec" else "file", name, draw(CONTENT)])
    return out


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["tar:", "tar:gz", "tar:gz", "tar:bz2", "tar:xz", "zip", "zip"]))
    path = draw(st.sampled_from(["a.tar.gz", "b.zip", "c.tgz", "v1.2.3", "x/y/pkg-1.0.tar.bz2", "d.bin?raw=1", "a%20b.zip", "tar.gz", "extracted_a", "x.tar"]))
    fails = [f for f in loopback.FAILURES if f != "truncated"]
    if kind == "tar:":
        fails = [f for f in fails if f != "short"] + ["short"]
    return {
        "kind": kind,
        "members": draw(members_of(kind)),
        "path": path,
        "name": draw(st.sampled_from(["foo", "foo_1", "my pkg", "ü"])),
        "fails": draw(st.lists(st.sampled_from(fails), max_size=3)) if draw(st.booleans()) else [],
        "redirect": draw(st.integers(0, 3)) == 3,
        "again": draw(st.integers(0, 3)) == 3,
    }


@st.composite
def damages(draw):
    kind = draw(st.sampled_from(["tar:", "tar:gz", "tar:bz2", "tar:xz", "zip"]))
    return {
        "kind": kind,
        "members": draw(members_of(kind, 4)),
        "where": draw(st.integers(0, 999)),
        "how": draw(st.sampled_from(["cut", "flip", "blot"])),
        "junk": draw(st.lists(st.integers(0, 255), min_size=1, max_size=40)) if draw(st.integers(0, 7)) == 7 else None,
    }


@st.composite
def sequences(draw):
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["tar:", "tar:gz", "tar:xz", "zip"]))
        how = draw(st.sampled_from(["good", "good", "good", "outside" if kind != "zip" else "cut", "cut", "404", "reset", "garbage"]))
        steps.append({"kind": kind, "how": how, "members": draw(members_of(kind, 4))})
    return {"steps": steps}


@st.composite
def hostiles(draw):
    return {
        "kind": draw(st.sampled_from(["tar:", "tar:gz", "zip"])),
        "members": draw(st.lists(st.sampled_from(HOSTILE), min_size=1, max_size=5)),
    }


def unreachables():
    return st.sampled_from(
        [
            "http://127.0.0.1:9/x.tar.gz",
            "ftp://127.0.0.1/x.tar.gz",
            "no url",
            "http://",
            "BASE/missing.tar.gz",
            "file:///etc/hostname",
            "http://127.0.0.1:99999/x.zip",
            "http://exa mple/x.zip",
            "['http://a/b.zip', 'http://c/d.zip']",
        ]
    ).map(lambda u: {"url": u})


CHECK = Check(
    "C20",
    "A case is an archive (tar plain or compressed, zip) of generated files, directories and links, the responses before it is served, or damage done to "
    "it, or members that point outside. The fetcher's tree, hash, type and exceptions are compared with the model of the archive. "
    "Hostile archives are fetched by an unprivileged process with a scratch directory of its own. Non-trivial: several members or failures, damage "
    "that is refused, a member that points outside.",
    [
        Sub("good", cases, run, quick=2400, thorough=60000, shards=4, shards_thorough=8, confirm=True),
        Sub("damaged", damages, run_damaged, quick=4000, thorough=120000, shards=3, shards_thorough=8, confirm=True),
        Sub("hostile", hostiles, run_hostile, quick=800, thorough=30000, shards=2, shards_thorough=8, confirm=True),
        Sub("sequence", sequences, run_sequence, quick=600, thorough=20000, shards=2, shards_thorough=8, confirm=True),
        Sub("unreachable", unreachables, run_unreachable, quick=40, thorough=100, confirm=True),
    ],
)
