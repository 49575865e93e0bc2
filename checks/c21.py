"""C21: the sources of a recipe become fetchers of the right kind for the right place, and git sources are checked out at their target."""

import gc
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

import loopback
from harness import Check, Rec, Sub, Violation, expect, expect_eq
from hypothesis import strategies as st

os.environ["GIT_CONFIG_GLOBAL"] = "/dev/null"
os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
os.environ["GIT_TERMINAL_PROMPT"] = "0"

from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe  # noqa: E402
from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError, FetchUnsupportedError  # noqa: E402
from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher  # noqa: E402
from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher  # noqa: E402
from conda_recipe_manager.parser.recipe_reader import RecipeReader  # noqa: E402


def git(*args, cwd=None, data=None):
    return subprocess.run(["git", *args], cwd=cwd, input=data, capture_output=True, check=True)


def make_repo(where: Path, repo) -> list[str]:
    """Builds the repository and gives the hashes of its commits."""
    git("init", "-q", "-b", repo["head"], str(where))
    out = []
    for i, c in enumerate(repo["commits"]):
        out.append(f"commit refs/heads/tmp{i}\nmark :{i + 1}\ncommitter A <a@b.c> {1600000000 + i} +0000\ndata 2\nm{i % 10}\n")
        if c["parent"] is not None:
            out.append(f"from :{c['parent'] + 1}\n")
        out.append("deleteall\n")
        for name, content in c["files"].items():
            out.append(f"M 100644 inline {name}\ndata {len(content.encode())}\n{content}\n")
        out.append("\n")
    for name, i in repo["branches"].items():
        out.append(f"reset refs/heads/{name}\nfrom :{i + 1}\n\n")
    for name, (i, annotated) in repo["tags"].items():
        if annotated:
            out.append(f"tag {name}\nfrom :{i + 1}\ntagger A <a@b.c> 1600000000 +0000\ndata 1\nt\n")
        else:
            out.append(f"reset refs/tags/{name}\nfrom :{i + 1}\n\n")
    marks = where / ".git" / "marks"
    git("fast-import", "--quiet", f"--export-marks={marks}", cwd=where, data="".join(out).encode())
    for i in range(len(repo["commits"])):
        (where / ".git" / "refs" / "heads" / f"tmp{i}").unlink(missing_ok=True)
    git("reset", "-q", "--hard", "refs/heads/" + repo["head"], cwd=where)
    shas = dict(line.split() for line in marks.read_text().splitlines())
    return [shas[f":{i + 1}"] for i in range(len(repo["commits"]))]


def tree(root: Path):
    return {
        str(p.relative_to(root)): p.read_text()
        for p in sorted(root.rglob("*"))
        if p.is_file() and ".git" not in p.relative_to(root).parts
    }


def goal(repo, shas, target):
    """(arguments, index of the commit or None) of {"tag": name, "rev": index, "branch": name}, where a name may be of nothing."""
    args = {}
    for kind in ("branch", "tag", "rev"):
        v = target.get(kind)
        if v is None:
            continue
        if kind == "rev" and isinstance(v, list):
            args[kind] = shas[v[0]][: v[1]]
        else:
            args[kind] = v
    for kind in ("tag", "rev", "branch"):
        if kind not in args:
            continue
        v = target[kind]
        if kind == "tag":
            return args, repo["tags"][v][0] if v in repo["tags"] else None
        if kind == "rev":
            return args, v[0] if isinstance(v, list) else None
        return args, repo["branches"].get(v)
    return args, repo["branches"][repo["head"]]


def check_fetch(f, repo, commit, trace, files=None):
    try:
        v = f.get_path_to_source_code()
    except FetchRequiredError:
        pass
    else:
        raise Violation(f"a path before the fetch: {v}\n    {trace}")
    try:
        f.fetch()
    except FetchError:
        expect(commit is None, "fetch() is refused", trace)
        try:
            f.get_path_to_source_code()
        except FetchRequiredError:
            return None
        raise Violation(f"a path after a failed fetch\n    {trace}")
    except Exception as e:  # pylint: disable=broad-exception-caught
        raise Violation(f"fetch() raises {e!r}\n    {trace}") from e
    expect(commit is not None, "fetch() of a target that does not exist succeeds", trace)
    path = f.get_path_to_source_code()
    expect_eq(tree(path), files or dict(sorted(repo["commits"][commit]["files"].items())), "files checked out", trace)
    return path


def run_git(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    try:
        where = root / case["dir"]
        repo = case["repo"]
        shas = make_repo(where, repo)
        args, commit = goal(repo, shas, case["target"])
        files = None
        if case["dirty"]:
            for name in repo["commits"][repo["branches"][repo["head"]]]["files"]:
                (where / name).write_text("local change\n")
            if not args and case["local"]:  # as it stands
                files = tree(where)
        url = str(where) if case["local"] else f"file://{where}"
        if case["url"] == "gone":
            url += "-gone"
            commit = None
        elif case["url"] == "no repo":
            shutil.rmtree(where / ".git")
            commit = None
        before = {str(p.relative_to(where)): p.read_bytes() for p in where.rglob("*") if p.is_file() and p.name != "index"}
        f = GitArtifactFetcher("foo", url, **args)
        expect_eq(str(f), "foo", "name", case)
        path = check_fetch(f, repo, commit, [case, args], files)
        after = {str(p.relative_to(where)): p.read_bytes() for p in where.rglob("*") if p.is_file() and p.name != "index"}
        expect(after == before, "the repository fetched was changed", case)
        if path is not None:
            expect(root not in path.parents, "the source code is in the repository fetched", case, path)
            del f
            gc.collect()
            expect(not path.exists(), "the files outlive the fetcher", case)
        rec.label(("local" if case["local"] else "remote") + (" refused" if commit is None else ""))
        rec.nontrivial(bool(args))
    finally:
        shutil.rmtree(root)


def run_recipe(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    server = loopback.server()
    try:
        repo = case["repo"]
        shas = make_repo(root / "repo", repo)
        v1 = case["schema"] == 1
        lines = []
        if v1:
            lines += ["schema_version: 1", "", "context:", "  name: foo", f"  version: {case['version']}", ""]
        else:
            lines += ['{% set name = "foo" %}', f'{{% set version = "{case["version"]}" %}}', ""]
        d = "$" if v1 else ""
        if case["name"] is not None:
            lines += ["package:", "  name: " + case["name"].replace("{{", d + "{{"), "  version: 1.0", ""]
        items = case["sources"]
        script: dict = {}
        plan = {}
        bad = None
        as_list = case["list"] or len(items) > 1
        if items:
            lines.append("source:")
        name = {None: "Unknown Recipe"}.get(case["name"], "foo" if case["name"] and "{{" in case["name"] else case["name"])
        for i, s in enumerate(items):
            key = f"/source/{i}" if as_list else "/source"
            label = f"{name}_{i}" if len(items) > 1 else name
            body = []
            if s["kind"] == "http":
                path = s["url"].replace("{{ version }}", case["version"])
                data = loopback.archive("tar.gz", [["f.txt", path]])
                script["/" + path] = [["ok", data]]
                body += [f"url: {server.base}/{s['url'].replace('{{', d + '{{')}", "sha256: abc"]
                if s["both"]:
                    # An URL goes before git.
                    body.append(("git" if v1 else "git_url") + f": {root}/repo")
                plan[key] = [label, "http", path]
            elif s["kind"] == "git":
                args, commit = goal(repo, shas, s["target"])
                body.append(("git" if v1 else "git_url") + f": {root}/repo")
                for k, v in args.items():
                    body.append((k if v1 else f"git_{k}") + f": {v}")
                plan[key] = [label, "git", commit]
            elif s["kind"] in ("text", "nothing"):  # no object
                bad = bad or key
                t = " foo" if s["kind"] == "text" else ""
                if as_list:
                    lines.append("  -" + t)
                else:
                    lines[-1] += t
                continue
            else:
                body += {"path": ["path: ../src"], "svn": ["svn_url: https://a.b/c"], "other schema": ["git: x" if not v1 else "git_url: x", "tag: y"]}[s["kind"]]
                bad = bad or key
            if s["extra"]:
                body.insert(0 if s["extra"] == 1 else len(body), "folder: src")
            for j, b in enumerate(body):
                lines.append((("  - " if j == 0 else "    ") if as_list else "  ") + b)
        if items:
            lines.append("")
        lines += ["about:", "  summary: x"]
        text = "\n".join(lines) + "\n"
        server.load(script)
        reader = RecipeReader(text)
        rendered = reader.render()
        for ignore in (True, False):
            try:
                table = from_recipe(reader, ignore) if ignore or case["explicit"] else from_recipe(reader)
            except FetchUnsupportedError:
                expect(not ignore and bad is not None, "the sources are refused", text, ignore)
                continue
            expect(ignore or bad is None, "an unsupported source is accepted", text, bad)
            expect_eq(sorted(table), sorted(plan), "paths of sources", text)
            expect_eq(server.requests, [], "from_recipe() already fetched", text)
            if not ignore:
                continue
            for key, (label, kind, what) in plan.items():
                f = table[key]
                expect(type(f) is (HttpArtifactFetcher if kind == "http" else GitArtifactFetcher), f"kind of {key}", text, type(f))
                expect_eq(str(f), label, f"name of {key}", text)
                if kind == "git":
                    check_fetch(f, repo, what, [text, key])
                else:
                    f.fetch()
                    expect_eq(server.requests, ["/" + what], f"request of {key}", text)
                    expect_eq((f.get_path_to_source_code() / "f.txt").read_text(), what, f"download of {key}", text)
                    server.requests.clear()
        expect_eq(reader.render(), rendered, "the recipe changed", text)
        rec.label(f"{len(plan)} of {len(items)} sources")
        rec.nontrivial(bool(plan))
    finally:
        shutil.rmtree(root)


BRANCHES = ["main", "dev", "feature/x", "release-1.0", "1.x"]
TAGS = ["v1.0", "1.2.3", "rel/2", "v1.0rc1", "20240101"]
FILES = ["a.txt", "src/b.py", "src/deep/c", "R E A D", "d.cfg"]


@st.composite
def repos(draw):
    commits = []
    for i in range(draw(st.integers(1, 4))):
        files = {n: draw(st.sampled_from([f"content {i}\n", "same\n", ""])) for n in draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=4, unique=True))}
        files["n.txt"] = f"commit {i}\n"
        commits.append({"parent": draw(st.integers(0, i - 1)) if i else None, "files": files})
    idx = st.integers(0, len(commits) - 1)
    names = draw(st.lists(st.sampled_from(BRANCHES), min_size=1, max_size=3, unique=True))
    branches = {n: draw(idx) for n in names}
    tags = {n: [draw(idx), draw(st.booleans())] for n in draw(st.lists(st.sampled_from(TAGS * 2 + names), max_size=2, unique=True))}
    # Every commit can be reached (a revision that can't would not be cloned).
    branches["all"] = len(commits) - 1
    for i, c in enumerate(commits):
        if not any(reaches(commits, j, i) for j in [*branches.values(), *[t[0] for t in tags.values()]]):
            branches[f"keep{i}"] = i
    return {"head": names[0], "commits": commits, "branches": branches, "tags": tags}


def reaches(commits, start, goal_):
    while start is not None:
        if start == goal_:
            return True
        start = commits[start]["parent"]
    return False


@st.composite
def targets(draw, repo):
    out: dict = {}
    kinds = draw(st.sampled_from([[], ["branch"], ["tag"], ["rev"], ["tag", "rev"], ["tag", "branch"], ["rev", "branch"], ["tag", "rev", "branch"]]))
    for k in kinds:
        if k == "branch":
            out[k] = draw(st.sampled_from(sorted(repo["branches"]) * 2 + ["nope"]))
        elif k == "tag":
            out[k] = draw(st.sampled_from(sorted(repo["tags"]) * 4 + ["no-tag"]))
        else:
            out[k] = draw(st.one_of(st.tuples(st.integers(0, len(repo["commits"]) - 1), st.sampled_from([40, 40, 12])).map(list), st.just("deadbeef" * 5))) if draw(
                st.integers(0, 6)
            ) == 6 else [draw(st.integers(0, len(repo["commits"]) - 1)), 40]
    return out


@st.composite
def gits(draw):
    repo = draw(repos())
    return {
        "repo": repo,
        "target": draw(targets(repo)),
        "local": draw(st.booleans()),
        "dir": draw(st.sampled_from(["repo", "my repo", "x.git"])),
        "dirty": draw(st.booleans()),
        "url": draw(st.sampled_from([None] * 10 + ["gone", "no repo"])),
    }


@st.composite
def recipes(draw):
    repo = draw(repos())
    sources = []
    used: set = set()
    for i in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 0]))):
        kind = draw(st.sampled_from(["http", "http", "git", "git", "path", "svn", "other schema", "text", "nothing"]))
        s: dict = {"kind": kind, "extra": draw(st.integers(0, 2))}
        if kind == "http":
            s["url"] = draw(st.sampled_from([f"{i}/a.tar.gz", f"{i}/x-{{{{ version }}}}.tar.gz", f"{i}/{{{{ version }}}}/b.tgz"]))
            s["both"] = draw(st.integers(0, 4)) == 4
        elif kind == "git":
            t = draw(targets(repo))
            # A recipe gives text: what YAML reads as another type is not the business of this check.
            s["target"] = {k: v for k, v in t.items() if not (isinstance(v, str) and v.replace(".", "", 1).isdigit())}
            if "rev" in s["target"] and isinstance(s["target"]["rev"], list):
                s["target"]["rev"][1] = 40
        sources.append(s)
    return {
        "repo": repo,
        "schema": draw(st.integers(0, 1)),
        "version": draw(st.sampled_from(["1.2.3", "2.0.0", "v1"])),
        "name": draw(st.sampled_from(["foo", "bar", "{{ name }}", "{{ name }}", None])),
        "sources": sources,
        "list": draw(st.booleans()),
        "explicit": draw(st.booleans()),
    }


CHECK = Check(
    "C21",
    "A case is a git repository with branches and tags, a target and the way to name the repository, or a recipe of either format with sources of all kinds. "
    "The files checked out or downloaded from the loopback address are compared with the model of the commit or the URL. "
    "Non-trivial: a target is given; a recipe with a supported source.",
    [
        Sub("git", gits, run_git, quick=900, thorough=30000, shards=4, shards_thorough=8, confirm=True),
        Sub("recipe", recipes, run_recipe, quick=900, thorough=30000, shards=4, shards_thorough=8, confirm=True),
    ],
)
