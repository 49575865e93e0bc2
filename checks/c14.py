"""C14: converting a recipe to the new format keeps what it says."""

import copy
import re

import recipegen as rg
from harness import Check, Rec, Sub, expect, expect_eq
from hypothesis import strategies as st

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.types import MessageCategory

# ------------------------------------------------------------------------------------------------- reference conversion

ORDERS = {
    "top": "schema_version context package recipe source files build requirements outputs test tests about extra".split(),
    "source": "url sha256 md5 path use_gitignore git branch tag rev depth lfs target_directory file_name patches".split(),
    "build": (
        "number string skip noarch script merge_build_and_host_envs always_include_files always_copy_files variant python "
        "prefix_detection dynamic_linking"
    ).split(),
}
DEPRECATED_BUILD = (
    "pre-link noarch_python features msvc_compiler requires_features provides_features preferred_env "
    "preferred_env_executable_paths disable_pip pin_depends overlinking_ignore_patterns rpaths_patcher post-link pre-unlink"
).split()
DEPRECATED_ABOUT = "prelink_message license_family identifiers tags keywords doc_source_url".split()
MOVES = [
    ("merge_build_host", "merge_build_and_host_envs"),
    ("no_link", "always_copy_files"),
    ("entry_points", "python/entry_points"),
    ("ignore_prefix_files", "prefix_detection/ignore"),
    ("detect_binary_files_with_prefix", "prefix_detection/ignore_binary_files"),
    ("rpaths", "dynamic_linking/rpaths"),
    ("binary_relocation", "dynamic_linking/binary_relocation"),
    ("missing_dso_whitelist", "dynamic_linking/missing_dso_allowlist"),
    ("runpath_whitelist", "dynamic_linking/rpath_allowlist"),
]
SOURCE_MOVES = [
    ("fn", "file_name"), ("folder", "target_directory"), ("git_url", "git"), ("git_tag", "tag"), ("git_rev", "rev"), ("git_depth", "depth"),
]  # fmt: skip
PIP_CHECK = {"pip check", "python -m pip check", "python3 -m pip check"}
FUNCTIONS = re.compile(r"\|\s*(lower|upper|replace\()|\w\[\d+\]|[\w.\"']\s*\+\s*[\w.\"']")


def selector_of(comment):
    m = re.match(r"# (\[[^\]]*\])", comment)
    return m and m.group(1)


def condition(sel):
    """The condition of the new format for a selector, as a list of tokens."""
    out = []
    for tok in re.findall(r"py\s*(?:<=|>=|==|!=|<|>)\s*\d+|\S+", sel[1:-1]):
        if m := re.fullmatch(r"py\s*(<=|>=|==|!=|<|>)\s*(\d)(\d+)", tok):
            out.append(f'match(python, "{m[1]}{m[2]}.{m[3]}")')
        elif m := re.fullmatch(r"py(\d)(\d+)", tok):
            out.append(f'match(python, "=={m[1]}.{m[2]}")')
        elif tok in ("py2k", "py3k"):
            out.append('match(python, ">=2,<3")' if tok == "py2k" else 'match(python, ">=3,<4")')
        else:
            out.append(tok)
    return " ".join(out)


def jinja(v):
    return re.sub(r"(?<!\$)\{\{", "${{", v) if isinstance(v, str) else v


class Messages:
    def __init__(self):
        self.warnings = []
        self.errors = []


def convert_node(node, comment, path, in_list, msg):
    """Value of a node with selectors and Jinja in the new format."""
    t = node["t"]
    if t == "m":
        return {e["k"]: convert_node(e["v"], e["c"], f"{path}/{e['k']}", False, msg) for e in node["e"]}
    if t == "l":
        return [convert_node(it["v"], it["c"], f"{path}/{n}", True, msg) for n, it in enumerate(node["i"])]
    v = jinja(rg.data(node))
    sel = selector_of(comment)
    if not sel:
        return v
    if isinstance(v, bool):
        word = "true" if v else "false"
        if path.endswith("/build/skip") and v:
            return condition(sel)
        return f"${{{{ {word} if {condition(sel)} }}}}"
    if in_list:
        return {"if": condition(sel), "then": v}
    msg.warnings.append(f"A non-list item had a selector at: {path}")
    return v


def move(obj, old, new):
    """Moves a key of a map, creating maps on the way."""
    if old not in obj:
        return
    v = obj.pop(old)
    *first, last = new.split("/")
    for k in first:
        if not isinstance(obj.get(k), dict):
            obj[k] = {}
        obj = obj[k]
    obj[last] = v


def convert_package(base, pkg, root, msg):
    """Conversion of the sections at the top of the file or of one output."""
    build = pkg.get("build")
    if isinstance(build, dict):
        for wrong in ("skipt", "skips", "Skip"):
            move(build, wrong, "skip")
    move(pkg, "extras", "extra")
    src = pkg.get("source")
    for s in src if isinstance(src, list) else [src]:
        if isinstance(s, dict):
            if "svn_url" in s:
                msg.warnings.append("SVN packages are no longer supported in the V1 format")
            if "hg_url" in s:
                msg.warnings.append("HG (Mercurial) packages are no longer supported in the V1 format")
            for old, new in SOURCE_MOVES:
                move(s, old, new)
    if isinstance(build, dict):
        for k in ("run_exports", "ignore_run_exports"):
            if k in build:
                if not isinstance(pkg.get("requirements"), dict):
                    pkg["requirements"] = {}
                pkg["requirements"][k] = build.pop(k)
        for old, new in MOVES:
            move(build, old, new)
        env = build.get("script_env")
        if env:
            new, secrets = {}, []
            for item in env:
                tokens = [i.strip() for i in (item["then"] if isinstance(item, dict) else item).split("=")]
                if isinstance(item, dict):
                    if len(tokens) == 1:
                        secrets.append(item)
                    else:
                        msg.errors.append(
                            f"Converting `{item}` found in {base}/build/script_env is not supported."
                            " Manually replace the selector with a `cmp()` function."
                        )
                elif len(tokens) == 1:
                    secrets.append(tokens[0])
                elif len(tokens) == 2:
                    new[tokens[0]] = tokens[1]
                else:
                    msg.errors.append(f"Could not parse `{item}` found in {base}/build/script_env")
            script = {}
            if new:
                script["env"] = new
            if secrets:
                script["secrets"] = secrets
            if build.get("script"):
                script["content"] = build["script"]
            build["script"] = script
            del build["script_env"]
        for k in DEPRECATED_BUILD:
            if k in build:
                del build[k]
                msg.warnings.append(f"Field at `{base}/build/{k}` is no longer supported.")
    if isinstance(pkg.get("requirements"), dict):
        move(pkg["requirements"], "run_constrained", "run_constraints")
    for k in ("about", "test"):
        if k in pkg and pkg[k] is None:
            pkg[k] = {}
    about = pkg.get("about")
    if isinstance(about, dict):
        for old, new in (("home", "homepage"), ("dev_url", "repository"), ("doc_url", "documentation")):
            move(about, old, new)
        lic = about.get("license")
        if lic is None:
            msg.warnings.append(f"No `license` provided in `{base}/about`")
        elif LICENSES[lic] is None:
            msg.warnings.append(f"Could not patch unrecognized license: `{lic}`")
        elif LICENSES[lic] != lic:
            msg.warnings.append(f"Changed {base}/about/license from `{lic}` to `{LICENSES[lic]}`")
            about["license"] = LICENSES[lic]
        if isinstance(about.get("summary"), list):
            about["summary"] = "\n".join(about["summary"])
        for k in DEPRECATED_ABOUT:
            if k in about:
                del about[k]
                msg.warnings.append(f"Field at `{base}/about/{k}` is no longer supported.")
    test = pkg.get("test")
    if isinstance(test, dict):
        if "files" in test:
            test["files"] = {"recipe": test["files"]}
        if "source_files" in test:
            test.setdefault("files", {})["source"] = test.pop("source_files")
        if "requires" in test:
            test["requirements"] = {"run": test.pop("requires")}
        host = (pkg.get("requirements") or {}).get("host") or []
        python = {}
        if "imports" in test:
            python["imports"] = test.pop("imports")
        if "python" in host:
            commands = test.get("commands") or []
            hit = next((n for n, c in enumerate(commands) if isinstance(c, str) and c in PIP_CHECK), None)
            python["pip_check"] = hit is not None
            if hit is not None and len(commands) == 1:
                del test["commands"]
                test.pop("requirements", None)
            elif hit is not None:
                del commands[hit]
        move(test, "commands", "script")
        move(test, "downstreams", "downstream")
        tests = []
        if python:
            tests.append({"python": python})
        if "downstream" in test:
            tests.append({"downstream": test.pop("downstream")})
        if test:
            tests.append(test)
        pkg["tests"] = tests
        del pkg["test"]
    if not root:
        for k in ("name", "version"):
            move(pkg, k, f"package/{k}")
    return pkg


def convert(model):
    """The whole recipe in the new format, and the messages."""
    msg = Messages()
    top = convert_node(model["top"], "", "", False, msg)
    context = {}
    for n, v in model["vars"]:
        if isinstance(v, (list, dict)) or v is None:
            msg.warnings.append(f"The variable `{n}` is an unsupported type.")
            continue
        if isinstance(v, str) and FUNCTIONS.search(v):
            v = "${{" + v + "}}"
        context[n] = v
    complex_ = [n for n, v in context.items() if isinstance(v, str) and ".join(" in v]
    if complex_:
        msg.warnings.append(f"The following key(s) contain unsupported syntax: {', '.join(complex_)}")
    convert_package("", top, True, msg)
    if "outputs" in top:
        for n, o in enumerate(top["outputs"]):
            convert_package(f"/outputs/{n}", o, False, msg)
        move(top, "package", "recipe")
    return {"schema_version": 1, **({"context": context} if context else {}), **top}, msg


# --------------------------------------------------------------------------------------------------------------- checks


def ordered(obj, order, what, trace):
    """Known keys are in canonical order."""
    if isinstance(obj, dict):
        known = [order.index(k) for k in obj if k in order]
        expect(known == sorted(known), f"{what} is not in canonical order: {list(obj)}", *trace)


def unordered(obj):
    """Order of keys does not matter, nor whether a section without values is a map, a list or null."""
    if obj == [] or obj == {}:
        return None
    if isinstance(obj, dict):
        return {k: unordered(obj[k]) for k in sorted(obj)}
    if isinstance(obj, list):
        return [unordered(v) for v in obj]
    return obj.rstrip("\n") if isinstance(obj, str) else obj


def normal_if(obj):
    """`not py27` may be converted in two ways of one meaning."""
    if isinstance(obj, dict):
        return {k: normal_if(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [normal_if(v) for v in obj]
    if isinstance(obj, str):
        obj = re.sub(r'match\(python, "!=(\d\.\d+)"\)', r'not match(python, "==\1")', obj)
    return obj


def run(case, rec: Rec) -> None:
    model = case["m"]
    text = rg.render(model)
    p = RecipeParserConvert(text)
    before = p.render()
    want, msg = convert(model)
    notes = {f"# {c.rpartition(' ')[2]}": path for path, _, c, _v in rg.walk(model) if "note" in c}
    trace = [text]
    for turn in range(1 + case["twice"]):
        out, table, _ = p.render_to_v1_recipe_format()
        where = [*trace, f"conversion {turn + 1}:", out]
        expect_eq(p.render(), before, "the recipe itself was changed", *where)
        expect_eq(p.is_modified(), False, "modified flag", *where)
        again = RecipeReader(out)
        got = again.render_to_object()
        expect_eq(unordered(normal_if(got)), unordered(normal_if(want)), "converted recipe", *where)
        expect_eq(again.get_schema_version(), SchemaVersion.V1, "schema version", *where)
        expect_eq(again.render(), out, "the converted text is not stable", *where)
        expect_eq(sorted(table.get_messages(MessageCategory.ERROR)), sorted(msg.errors), "errors", *where)
        warnings = [m for m in table.get_messages(MessageCategory.WARNING) if not m.startswith("Could not relocate comment")]
        expect_eq(sorted(warnings), sorted(msg.warnings), "warnings", *where)
        lost = [m.removeprefix("Could not relocate comment: ") for m in table.get_messages(MessageCategory.WARNING) if m.startswith("Could not rel")]
        expect_eq(sorted(set(lost)), sorted(lost), "comments lost twice", *where)
        for note, path in notes.items():
            kept = f"{note}\n" in out + "\n"
            rec.label("comment kept" if kept else "comment lost")
            expect((note in lost) <= (not kept), f"{note} is not lost", *where)
            # The comment on the line of a value that was rewritten in its place goes with the old text
            expect(kept or note in lost or again.contains_value(path), f"{note} was lost without a message", *where)
        expect(set(lost) <= set(notes), f"comments {lost} are not of this recipe", *where)
        expect(list(got)[0] == "schema_version", f"the file starts with {list(got)[0]}", *where)
        ordered(got, ORDERS["top"], "the file", where)
        for pkg in [got, *(got.get("outputs") or [])]:
            ordered(pkg, ORDERS["top"], "a package", where)
            ordered(pkg.get("build"), ORDERS["build"], "a build section", where)
            src = pkg.get("source")
            for s in src if isinstance(src, list) else [src]:
                ordered(s, ORDERS["source"], "a source", where)
    feats = rg.features(model)
    for f in feats | {"outputs"} & set(want) | {k for k in ("errors", "warnings") if getattr(msg, k)}:
        rec.label(f)
    rec.nontrivial(len(want) >= 4 and bool(feats & {"selector", "jinja", "vars"}))


# ----------------------------------------------------------------------------------------------------------- generators

LICENSES = {
    "MIT": "MIT", "Apache-2.0": "Apache-2.0", "BSD-3-Clause": "BSD-3-Clause", "Apache-2.0 AND MIT": None, "My own": None,
    "GPL-3.0-or-later": "GPL-3.0-or-later", "ISC": "ISC", "mit": "MIT", "APACHE-2.0": "Apache-2.0", "mit license": "MIT",
}  # fmt: skip
SELECTORS = [
    "win", "linux", "not win", "unix", "osx and arm64", "linux or osx", "py<36", "py>=310", "py==27", "py != 35", "py<=39 and win", "py>38",
    "py36", "not py27", "py2k", "py3k", "py>=36 and py<310", "py27 or py36", "win or py<38 and py!=35", "win and py3k", "linux and not py2k", "aarch64", "py < 30",
]  # fmt: skip


@st.composite
def text_scalars(draw, names):
    k = draw(st.integers(0, 5))
    if k == 0:
        s = draw(rg.jinja(0, names))
        return {"t": "s", "x": s, "v": s}
    return rg.scalar(draw(_TEXT))


_TEXT = st.one_of(rg.specs(), rg.phrases(), st.sampled_from(rg.TRICKY), rg.idents()).filter(rg.storable)


def word():
    return st.one_of(rg.idents(), rg.specs(), st.sampled_from(rg.WORDS)).map(rg.scalar)


@st.composite
def eol(draw, p=20):
    if draw(st.integers(0, 99)) < 100 - p:
        return ""
    sel = f"# [{draw(st.sampled_from(SELECTORS))}]"
    return draw(st.sampled_from([sel, sel, sel, sel + " note", sel + " note", "# note"]))


@st.composite
def lists(draw, elem, p=20, min_size=1, max_size=4):
    items = draw(st.lists(elem, min_size=min_size, max_size=max_size))
    return {"t": "l", "post": [], "i": [{"pre": [], "c": draw(eol(p)), "v": v} for v in items]}


@st.composite
def section(draw, pool, names, min_size=1, max_size=6):
    ks = draw(st.lists(st.sampled_from(sorted(pool)), unique=True, min_size=min_size, max_size=max_size))
    if "skip" in ks:
        ks = [k for k in ks if k not in ("skipt", "skips", "Skip")]
    else:
        first = next((k for k in ks if k in ("skipt", "skips", "Skip")), None)
        ks = [k for k in ks if k not in ("skipt", "skips", "Skip") or k == first]
    out = []
    for k in ks:
        v = draw(pool[k](names)) if draw(st.integers(0, 24)) != 13 else {"t": "n", "post": []}
        c = ""
        if v["t"] == "s" and (isinstance(v["v"], bool) or draw(st.integers(0, 9)) == 9):
            c = draw(eol(50))
        out.append({"k": k, "c": c, "pre": [], "v": v})
    return {"t": "m", "e": out, "post": []}


def bools(_):
    return st.booleans().map(rg.scalar)


def strs(names):
    return text_scalars(names)


def str_lists(names):
    return lists(text_scalars(names))


def words(_):
    return lists(word())


def str_or_list(names):
    return st.one_of(text_scalars(names), lists(text_scalars(names)))


def blocks(names):
    """Strings of several lines. Both kinds of quotes in a line with a Jinja statement have no notation."""
    return rg.blocks(0, names, False).map(
        lambda b: {**b, "ln": [x.replace('"', "") or "x" for x in b["ln"]]} if b["var"][0] == ">" and "{{" in "".join(b["ln"]) else b
    )


def script(names):
    return st.one_of(text_scalars(names), lists(text_scalars(names)), blocks(names))


def number(names):
    return st.one_of(st.integers(0, 2000).map(rg.scalar), st.just({"t": "s", "x": "{{ build }}", "v": "{{ build }}"}))


def env(_):
    return lists(st.sampled_from(["A", "TOKEN", "A=x1", "PATH=/usr/bin", "B = x", "C==y", "D=a=b", "E="]).map(rg.scalar), 15)


def summary(names):
    """Plain texts of several lines are read as lists, which is where they are put together again."""
    lines = lists(st.lists(rg.idents(), min_size=2, max_size=4).map(" ".join).map(rg.scalar), 0)
    return st.one_of(text_scalars(names), text_scalars(names), lines)


def exports(names):
    return st.one_of(lists(text_scalars(names)), section({"strong": words, "weak": str_lists}, names, 1, 2))


SOURCE = {
    "url": str_or_list, "sha256": lambda _: st.from_regex(r"[a-f][a-f0-9]{15}", fullmatch=True).map(rg.scalar), "md5": strs, "fn": strs,
    "folder": strs, "git_url": strs, "git_tag": strs, "git_rev": strs, "git_depth": number, "patches": str_lists, "path": strs, "svn_url": strs,
    "hg_url": strs,
}  # fmt: skip
BUILD = {
    "number": number, "string": strs, "skip": bools, "noarch": lambda _: st.sampled_from(["python", "generic"]).map(rg.scalar), "script": script,
    "merge_build_host": bools, "no_link": str_lists, "always_include_files": str_lists, "entry_points": str_lists,
    "ignore_prefix_files": lambda n: st.one_of(bools(n), str_lists(n)), "detect_binary_files_with_prefix": bools, "rpaths": str_lists,
    "binary_relocation": bools, "missing_dso_whitelist": str_lists, "runpath_whitelist": str_lists, "script_env": env, "run_exports": exports,
    "ignore_run_exports": words, "skipt": bools, "skips": bools, "Skip": bools, "zzz": str_or_list,
}  # fmt: skip
REQS = {"build": str_lists, "host": str_lists, "run": str_lists, "run_constrained": str_lists}
TEST = {"imports": str_lists, "commands": str_lists, "requires": words, "files": words, "source_files": words, "downstreams": words}
ABOUT = {
    "home": strs, "dev_url": strs, "doc_url": strs, "summary": summary, "license": lambda _: st.sampled_from(sorted(LICENSES)).map(rg.scalar), "license_file": str_or_list,
    "license_family": strs, "description": script, "tags": words, "identifiers": words, "keywords": words,
    "doc_source_url": strs, "prelink_message": strs,
}  # fmt: skip
EXTRA = {"recipe-maintainers": words, "x": str_or_list, "skip": bools, "y": lambda n: section({"a": strs, "b": words}, n)}


@st.composite
def some(draw, pool, deprecated, names):
    s = draw(section(pool, names))
    if deprecated and draw(st.integers(0, 4)) == 4:
        k = draw(st.sampled_from(deprecated))
        if all(e["k"] != k for e in s["e"]):
            s["e"].append({"k": k, "c": "", "pre": [], "v": draw(str_or_list(names))})
    return s


@st.composite
def python_bits(draw, secs):
    """Recipes of Python packages, with `pip check`."""
    reqs = secs.setdefault("requirements", {"t": "m", "post": [], "e": []})
    if reqs["t"] == "m":
        reqs["e"] = [e for e in reqs["e"] if e["k"] != "host"]
        host = [draw(st.sampled_from(["python", "python >=3.8", "python", "pip"])), "pip"]
        reqs["e"].append({"k": "host", "c": "", "pre": [], "v": {"t": "l", "post": [], "i": [{"pre": [], "c": draw(eol(15)), "v": rg.scalar(h)} for h in host]}})
    test = secs.setdefault("test", {"t": "m", "post": [], "e": []})
    test["e"] = [e for e in test["e"] if e["k"] != "commands"]
    cmd = st.sampled_from(sorted(PIP_CHECK) + ["foo --help", "pip check || true", "pip check ."]).map(rg.scalar)
    test["e"].insert(draw(st.integers(0, len(test["e"]))), {"k": "commands", "c": "", "pre": [], "v": draw(lists(cmd, 15, 1, draw(st.sampled_from([1, 3, 3, 8]))))})


@st.composite
def packages(draw, names, root):
    secs = {}
    for name, pool, dep in (
        ("source", SOURCE, None), ("build", BUILD, DEPRECATED_BUILD), ("requirements", REQS, None), ("test", TEST, None),
        ("about", ABOUT, DEPRECATED_ABOUT), ("extra", EXTRA, None),
    ):  # fmt: skip
        if draw(st.integers(0, 9)) < (6 if root else 3) and (root or name != "extra" or draw(st.integers(0, 3)) == 2):
            secs[name] = draw(some(pool, dep, names))
            if name == "source" and draw(st.integers(0, 2)) == 2 and root:
                maps = [secs[name]] + [draw(some(pool, dep, names)) for _ in range(draw(st.sampled_from([0, 1, 2, 4])))]
                for m in maps:
                    m["e"][0]["c"] = ""
                secs[name] = {"t": "l", "post": [], "i": [{"pre": [], "c": "", "v": m} for m in maps]}
            elif draw(st.integers(0, 24)) == 13:
                secs[name] = {"t": "n", "post": []}
    if draw(st.integers(0, 3)) == 3:
        for k in ("requirements", "test"):
            if k in secs and secs[k]["t"] == "n":
                del secs[k]
        draw(python_bits(secs))
    if "extra" in secs and draw(st.integers(0, 4)) == 4:
        secs["extras"] = secs.pop("extra")
    return secs


def number_notes(node, count):
    """No two comments are the same."""
    for x in node.get("e", []) + node.get("i", []):
        if x["c"].endswith("note"):
            x["c"] += str(next(count))
        number_notes(x["v"], count)


VALUES = st.one_of(
    rg.var_values(),
    st.just(""),
    st.sampled_from(["name|lower", "name[0]", 'version + ".1"', "foo | upper", "1.2.3", "x", "python.exe", "'.'.join(version.split('.')[:2])", "x.join(y)"]),
)


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(rg.VAR_NAMES), unique=True, max_size=4))
    variables = [[n, draw(VALUES.filter(lambda v: not isinstance(v, str) or ('"' not in v or True) and rg.storable(v)))] for n in names]
    variables = [[n, v] for n, v in variables if not (isinstance(v, str) and '"' in v)]
    top = [["package", {"t": "m", "post": [], "e": [{"k": "name", "c": "", "pre": [], "v": rg.scalar("foo")}, {"k": "version", "c": "", "pre": [], "v": draw(text_scalars(names))}]}]]
    top += list(draw(packages(names, True)).items())
    if draw(st.integers(0, 2)) == 2:
        outs = []
        for n in range(draw(st.integers(1, 3))):
            o = [["name", rg.scalar(f"out{n}")]]
            if draw(st.booleans()):
                o.append(["version", rg.scalar("1.2.3")])
            o += list(draw(packages(names, False)).items())
            if draw(st.booleans()):
                o.append(["script", draw(word())])
            o = [x for x in o if x[1]["t"] != "l"]
            if draw(st.integers(0, 3)) == 2:
                o.append(["files", draw(words(None))])
            o = draw(st.permutations(o))
            i = next(n for n, x in enumerate(o) if x[1]["t"] == "s")
            o[0], o[i] = o[i], o[0]
            outs.append({"pre": [], "c": "", "v": {"t": "m", "post": [], "e": [{"k": k, "c": "", "pre": [], "v": v} for k, v in o]}})
        top.append(["outputs", {"t": "l", "i": outs, "post": []}])
    top = [top[0]] + draw(st.permutations(top[1:]))
    model = {"schema": 0, "vars": variables, "top": {"t": "m", "post": [], "e": [{"k": k, "c": "", "pre": [], "v": v} for k, v in top]}}
    number_notes(model["top"], iter(range(1, 10**6)))
    return {"m": model, "twice": draw(st.sampled_from([0, 0, 1]))}


CHECK = Check(
    "C14",
    "A case is an old-format recipe made of the sections, fields and variables that the conversion knows (and some it does not), with "
    "selectors, Jinja, outputs, deprecated and misspelled fields. The converted text, re-read, is compared with a reference conversion of "
    "the model, as are the messages, key orders and a second conversion. Non-trivial: a recipe with selectors, Jinja or variables.",
    [Sub("convert", cases, run, quick=2400, thorough=40000, shards=8, shards_thorough=8)],
)
