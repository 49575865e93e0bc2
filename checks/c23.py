"""C23: the graph of a directory of recipes has the packages and dependencies of its recipes, and counts what failed."""

import json
import multiprocessing
import re
import shutil
import tempfile
from pathlib import Path

import c12
import matplotlib

matplotlib.use("agg")
import matplotlib.pyplot as plt  # noqa: E402
import networkx as nx  # noqa: E402
import networkx.drawing.nx_agraph as nx_agraph  # noqa: E402

# Layouts are made by another program, and nobody is there to look at them.
nx_agraph.graphviz_layout = lambda g, *a, **k: {n: (0, 0) for n in g}
DRAWN: list = []
nx.draw = lambda g, *a, **k: DRAWN.append(g)
for _name in ("show", "figure", "axis", "title"):
    setattr(plt, _name, lambda *a, **k: None)

import recipegen as rg  # noqa: E402
from click.testing import CliRunner  # noqa: E402
from harness import Check, Rec, Sub, expect, expect_eq  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from conda_recipe_manager.commands.graph import graph as command  # noqa: E402
from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk  # noqa: E402
from conda_recipe_manager.grapher.types import GraphDirection, GraphType, PackageStatsEncoder  # noqa: E402
from conda_recipe_manager.parser.dependency import DependencySection as S  # noqa: E402
from conda_recipe_manager.parser.dependency import dependency_data_from_str  # noqa: E402
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps  # noqa: E402

BROKEN = ["package: [\n", b"package:\n  name: \xff\xfe\n", "package:\n\tname: x: y\n"]
# Recipes that can be read, but whose dependencies can't, and the names of their packages.
LOST = [
    ("package:\n  name:\n    - a\n", ["Unknown"]),
    ("package: foo\n", ["Unknown"]),
    ("package:\n  name: lost\noutputs:\n  - name: q\n  - name:\n      x: y\n", ["Unknown"]),
    ('{% set x = "[a" %}\npackage:\n  name: lost1\nrequirements:\n  host:\n    - {{ x }}\n    - foo\n', ["lost1"]),
    ('{% set x = "@a" %}\npackage:\n  name: lost2\nrequirements:\n  run:\n    - {{ x }}\noutputs:\n  - name: lost3\n', ["lost2", "lost3"]),
]
KINDS = {GraphType.BUILD: (S.BUILD, S.HOST), GraphType.TEST: (S.RUN, S.TESTS)}


def build(case, root: Path):
    """Writes the files. Gives what is expected: failed paths, hashes without dependencies, and all candidates per package."""
    failed, lost, packages, hashes = set(), {}, {}, set()
    for i, f in enumerate(case["files"]):
        d = root / f"{f['dir'][0]}{i}" / "/".join(f["dir"][1:])
        d.mkdir(parents=True)
        file = d / f["name"]
        if f["broken"] is not None and f["broken"] >= len(BROKEN):
            text, names = LOST[f["broken"] - len(BROKEN)]
            file.write_text(text)
            if f["name"] in ("meta.yaml", "recipe.yaml"):
                sha = RecipeReaderDeps(text).calc_sha256()
                hashes.add(sha)
                lost[sha] = names
            continue
        if f["broken"] is not None:
            data = BROKEN[f["broken"]]
            file.write_bytes(data if isinstance(data, bytes) else data.encode())
            if f["name"] in ("meta.yaml", "recipe.yaml"):
                failed.add(file.as_posix())
            continue
        text = rg.render(c12.model_of(f["recipe"]))
        file.write_text(text)
        if f["name"] not in ("meta.yaml", "recipe.yaml"):
            continue
        sha = RecipeReaderDeps(text).calc_sha256()
        if sha in hashes:
            continue
        hashes.add(sha)
        want = c12.want_of(f["recipe"])
        if isinstance(want, type):
            lost[sha] = ["Unknown"]
            continue
        for name, (_, deps) in want.items():
            packages.setdefault(name, []).append([(kind, dependency_data_from_str(text).name) for _, kind, text, _ in deps])
    chain = case["chain"]
    for i, section in enumerate(chain):
        # A long chain: each one needs the next, and the last one something that has no recipe.
        d = root / "chain" / str(i)
        d.mkdir(parents=True)
        name, dep = f"q{i}", f"q{i + 1}"
        file = d / ("meta.yaml" if i % 3 else "recipe.yaml")
        text = f"package:\n  name: {name}\nrequirements:\n  {section}:\n    - {dep}\n"
        if not i % 3:
            text = "schema_version: 1\n" + text
        file.write_text(text)
        hashes.add(RecipeReaderDeps(text).calc_sha256())
        packages.setdefault(name, []).append([(S.HOST if section == "host" else S.RUN, dep)])
    return failed, lost, packages, hashes


def drawn(rg_, *args):
    DRAWN.clear()
    rg_.plot(*args)
    expect_eq(len(DRAWN), 1, "number of graphs drawn", args)
    return DRAWN[0]


def reachable(edges, start):
    dist = {start: 0}
    todo = [start]
    while todo:
        a = todo.pop(0)
        for b in sorted(edges.get(a, ())):
            if b not in dist:
                dist[b] = dist[a] + 1
                todo.append(b)
    return dist


def check_stats(stats, failed, lost, packages, hashes, trace):
    expect_eq(
        json.loads(json.dumps(stats, cls=PackageStatsEncoder)),
        {
            "package_name_duplicates": sorted(n for n, c in packages.items() if len(c) > 1),
            "recipes_failed_to_parse": sorted(failed),
            "recipes_failed_to_parse_dependencies": json.loads(json.dumps(stats, cls=PackageStatsEncoder))["recipes_failed_to_parse_dependencies"],
            "total_parsed_recipes": len(hashes),
            "total_recipes": len(hashes) + len(failed),
            "total_packages": len(packages),
        },
        "statistics",
        *trace,
    )
    expect_eq(dict(sorted(stats.recipes_failed_to_parse_dependencies.items())), dict(sorted(lost.items())), "recipes without dependencies", *trace)


def run(case, rec: Rec) -> None:
    root = Path(tempfile.mkdtemp())
    multiprocessing.cpu_count = lambda: 2
    try:
        failed, lost, packages, hashes = build(case, root)
        g = RecipeGraphFromDisk(root if case["path"] else str(root), *([case["cpus"]] if case["cpus"] is not None else []))
        trace = [{str(p): p.read_bytes().decode(errors="replace") for p in root.rglob("*.yaml")}]
        check_stats(g.get_package_stats(), failed, lost, packages, hashes, trace)
        expect_eq(bool(g), bool(hashes), "is there anything?", *trace)
        needed = sorted({d for c in packages.values() for x in c for _, d in x})
        for n in [*packages, *needed, "no-such-package", "pkg9"]:
            expect_eq(g.contains_package_name(n), n in packages, f"is {n} known?", *trace)
        for kind, sections in KINDS.items():
            whole = drawn(g, kind)
            edges: dict = {}
            for a, b in whole.edges:
                edges.setdefault(a, set()).add(b)
            expect(set(edges) <= set(packages), f"{kind}: dependencies of unknown packages", edges, *trace)
            for n, candidates in packages.items():
                # Which of several packages of the same name is taken depends on the order of the file system.
                options = [{d for s, d in c if s in sections} for c in candidates]
                expect(edges.get(n, set()) in options, f"{kind}: dependencies of {n} are {edges.get(n)}, not one of {options}", *trace)
            back: dict = {}
            for a, bs in edges.items():
                for b in bs:
                    back.setdefault(b, set()).add(a)
            for n in [*list(packages)[:4], *[n for n in ("q0", f"q{len(case['chain']) - 1}") if n in packages]]:
                for direction, e in ((GraphDirection.DEPENDS_ON, edges), (GraphDirection.NEEDED_BY, back)):
                    sub = drawn(g, kind, direction, n)
                    dist = reachable(e, n)
                    expect_eq(sorted(sub.nodes), sorted(dist), f"{kind}: {direction} of {n}", edges, *trace)
                    for a, b in sub.edges:
                        expect(b in e.get(a, ()) and dist[b] == dist[a] + 1, f"{kind}: {direction} of {n} has {a} -> {b}", edges, *trace)
                    expect_eq(len(sub.edges), len(dist) - 1, f"{kind}: {direction} of {n} is no tree", edges, *trace)
            rec.label(f"{kind}: {min(len(edges), 4)} packages with dependencies")
        rec.nontrivial(len(packages) > 2 and len(hashes) > 1)
    finally:
        shutil.rmtree(root)


def run_shell(case, rec: Rec) -> None:
    """The interactive command."""
    root = Path(tempfile.mkdtemp())
    multiprocessing.cpu_count = lambda: 2
    try:
        failed, lost, packages, hashes = build(case, root)
        DRAWN.clear()
        lines, plots, answers, asked = [], 0, [], []
        names = list(packages)
        for cmd, k, i, j in case["commands"]:
            others = sorted({d for c in packages.values() for x in c for _, d in x} - set(names))
            name = names[i % len(names)] if names and i < 6 else others[j % len(others)] if others and i == 6 else "nope"
            if name != name.lower() or len(name.split()) != 1:
                continue
            if cmd == "plot":
                words = ["plot", ["build", "test", "all"][k], ["depends", "needed-by", "sideways"][j], name]
                lines.append(" ".join(words))
                ok = k < 2 and j < 2 and name in packages
                plots += ok
                if ok:
                    asked.append((GraphType(words[1]), [GraphDirection.DEPENDS_ON, GraphDirection.NEEDED_BY][j], name))
                if not ok:
                    answers.append("Unrecognized graph type: all" if k == 2 else "Unrecognized graph direction." if j == 2 else f"Package not found: {name}")
            elif cmd == "plot all":
                lines.append(f"PLOT {['build', 'test', 'everything'][k]} all")
                plots += k < 2
                if k < 2:
                    asked.append((GraphType(["build", "test"][k]),))
                answers.append("This might take a while..." if k < 2 else "Unrecognized graph type: everything")
            elif cmd == "stats":
                lines.append(["stats", "statistics", "Stats"][k])
                answers.append('"total_packages": ' + str(len(packages)))
            elif cmd == "help":
                lines.append(["help", "h", "HELP"][k])
                answers.append("Prints this help message.")
            else:
                lines.append(["", "plot", "plot build"][k])
                answers.append("Invalid command.")
        res = CliRunner().invoke(command, [str(root)], input="\n".join([*lines, case["quit"], "stats"]) + "\n")
        trace = [lines, res.output[:3000], {str(p): p.read_bytes().decode(errors="replace") for p in root.rglob("*.yaml")}]
        expect(res.exception is None or isinstance(res.exception, SystemExit), f"the command failed: {res.exception!r}", *trace)
        if not hashes:
            expect_eq(int(res.exit_code), 2, "exit code without recipes", *trace)
            rec.label("nothing there")
            return
        expect_eq(int(res.exit_code), 0, "exit code", *trace)
        total = len(hashes) + len(failed)
        got = re.findall(r"Failed to parse (?:the dependencies from )?(\d+) out of (\d+) recipe files \(([\d.]+)% success\)", res.stdout)
        want = [(str(a), str(b), f"{(1 - a / b) * 100:.2f}") for a, b in ((len(failed), total), (len(lost), len(hashes)))]
        expect_eq(got, want, "numbers", *trace)
        expect_eq(len(DRAWN), plots, "number of plots", *trace)
        same = RecipeGraphFromDisk(root, 1)
        for args, shown in zip(asked, list(DRAWN)):
            if not any(len(c) > 1 for c in packages.values()):
                ref = drawn(same, *args)
                expect_eq((sorted(shown.nodes), sorted(shown.edges)), (sorted(ref.nodes), sorted(ref.edges)), f"plot of {args}", *trace)
        at = res.stdout.index("== Main menu ==")
        for a in answers:
            nxt = res.stdout.find(a, at)
            expect(nxt >= 0, f"no answer {a!r} (or not in this order)", *trace)
            at = nxt + len(a)
        expect("Closing interactive menu..." in res.stdout[at:] and res.stdout.rstrip().endswith("Closing interactive menu..."), "not closed at once", *trace)
        rec.nontrivial(plots > 0 and len(answers) > 0)
    finally:
        shutil.rmtree(root)


@st.composite
def directories(draw):
    files = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 5]))):
        broken = draw(st.sampled_from([None] * 12 + [0, 1, 2] + list(range(3, 8))))
        recipe = None
        if broken is None:
            schema = draw(st.integers(0, 1))
            recipe = draw(c12.recipes(schema, junk=draw(st.integers(0, 3)) == 3))
            if draw(st.integers(0, 7)) == 5:
                recipe["pkgs"][0]["name"] = None
            k = draw(st.integers(0, 4))
            # Recipes that know each other
            base = f"p{k}"
            if recipe["pkgs"][0]["name"] is not None and draw(st.booleans()):
                recipe["pkgs"][0]["name"] = [base]
            for p in recipe["pkgs"]:
                for r in p["reqs"] or []:
                    for d in r[1] or []:
                        if d["w"] not in (None, "if") and draw(st.integers(0, 2)) == 2:
                            d["w"] = [draw(st.sampled_from(["p0", "p1", "p2", "p3 >=1.2", "pkg0", "pkg1", "p4"]))]
        files.append(
            {
                "dir": draw(st.sampled_from([["a", "recipe"], ["b"], ["c d", "recipe"], ["e", "f", "g"], [".hid", "recipe"], [".h"], ["k", ".ci"], ["x", ".y", "z.w"]])),
                "name": draw(st.sampled_from(["meta.yaml"] * 4 + ["recipe.yaml"] * 3 + ["other.yaml", "meta.yml"])),
                "broken": broken,
                "recipe": recipe,
            }
        )
    return files


def chains():
    """The sections of a chain of recipes that may be longer than the layers of any plot are expected to be."""
    return st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(["host", "host", "run"]), min_size=4, max_size=12), st.integers(5, 12).map(lambda n: ["host"] * n))


def disks():
    return st.fixed_dictionaries({"files": directories(), "chain": chains(), "path": st.booleans(), "cpus": st.sampled_from([1, 1, 2, None, 0, -1])})


def shells():
    cmd = st.tuples(st.sampled_from(["plot"] * 4 + ["plot all", "stats", "help", "bad"]), st.integers(0, 2), st.integers(0, 7), st.integers(0, 2)).map(list)
    return st.fixed_dictionaries({"files": directories(), "chain": chains(), "commands": st.lists(cmd, min_size=2, max_size=8), "quit": st.sampled_from(["exit", "q", "quit", "esc", "EXIT", " q "])})


CHECK = Check(
    "C23",
    "A case is a directory of up to five recipes of both formats that depend on each other, with duplicate packages, recipes without names, "
    "broken files and files of other names; or a session of the interactive command. Statistics, known packages and the graphs handed to the "
    "drawing library are compared with the models of the recipes. Non-trivial: three packages from two recipes; a session with a plot and another answer.",
    [
        Sub("disk", disks, run, quick=900, thorough=20000, shards=5, shards_thorough=8, confirm=True),
        Sub("shell", shells, run_shell, quick=500, thorough=10000, shards=3, shards_thorough=8, confirm=True),
    ],
)
