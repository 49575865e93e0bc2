#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutate.py FILE FUNCTION[,FUNCTION...] CHECK[,CHECK...] [MAX] [SEED]

Makes small changes to the named functions of FILE (a path under /repo) in scratch copies, runs the checks against each and
prints the changes that no check notices. Survivors are for a human to judge: many change nothing that can be observed.
"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

file, funcs, checks = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")
limit = int(sys.argv[4]) if len(sys.argv) > 4 else 20
rnd = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
src = Path("/repo", file).read_text()
tree = ast.parse(src)
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(fn):
    for node in ast.walk(fn):
        if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
            yield node, "cmp"
        elif isinstance(node, ast.BoolOp):
            yield node, "boolop"
            for i in range(len(node.values)):
                yield node, f"drop{i}"
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, str)) and not isinstance(node.value, bool):
            yield node, "const"
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            yield node, "flip"
        elif isinstance(node, ast.If):
            yield node, "iftrue"
            yield node, "iffalse"
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield node, "delete"
        elif isinstance(node, (ast.Continue, ast.Break)):
            yield node, "delete"
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            yield node, "arith"
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield node, "unnot"


def mutate(kind, node):
    if kind == "cmp":
        node.ops[0] = SWAP[type(node.ops[0])]()
    elif kind == "boolop":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind.startswith("drop"):
        node.values.pop(int(kind[4:]))
    elif kind == "const":
        node.value = node.value + 1 if isinstance(node.value, int) else (node.value + "x" if node.value else "x")
    elif kind == "flip":
        node.value = not node.value
    elif kind in ("iftrue", "iffalse"):
        node.test = ast.Constant(kind == "iftrue")
    elif kind == "arith":
        node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()


class Deleter(ast.NodeTransformer):
    def __init__(self, target):
        self.target = target

    def visit(self, node):
        if node is self.target:
            return node.operand if isinstance(node, ast.UnaryOp) else ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)


fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and (n.name in funcs or funcs == ["all"])]
todo = []
for fn in fns:
    doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) else None
    for node, kind in sites(fn):
        if node is doc or isinstance(node, ast.FunctionDef):
            continue
        todo.append((node, kind))
rnd.shuffle(todo)
todo = todo[:limit]


def variant(node, kind):
    """Source with one change."""
    memo = {}
    t = copy.deepcopy(tree, memo)
    n = memo[id(node)]
    if kind in ("delete", "unnot"):
        t = Deleter(n).visit(t)
    else:
        mutate(kind, n)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def one(job):
    i, (node, kind) = job
    where = f"{file}:{node.lineno} {kind}: {ast.get_source_segment(src, node).splitlines()[0][:110]}"
    d = tempfile.mkdtemp(prefix="mutant_")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "tests", "__pycache__", "*.egg-info"))
        Path(d, "repo", file).write_text(variant(node, kind))
        for c in checks:
            env = {**os.environ, "VERIF_REPO": d + "/repo", "VERIF_SHRINK": "0", "VERIF_EVIDENCE_DIR": d + "/ev", "VERIF_NCPU": "2", "VERIF_FIRST": "1"}
            r = subprocess.run(["/verif/run_check.py", c], env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return f"caught   {c} {where}"
            if r.returncode != 0:
                return f"BROKEN   {c} rc={r.returncode} {where} {r.stderr[-300:]}"
        return f"SURVIVED {where}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    out = []
    for line in ex.map(one, enumerate(todo)):
        out.append(line)
        if not line.startswith("caught"):
            print(line, flush=True)
print(f"{sum(l.startswith('caught') for l in out)} of {len(out)} caught")
