"""Small changes of the code that survive the tests, to find out what the checks miss.

  mutate.py list FILES...          number of mutants
  mutate.py tests OUT FILES...     the mutants for which the tests pass (json lines)
  mutate.py checks OUT IN CHECKS   runs checks for these mutants until one of them reports

Works in copies of /repo in /tmp/mut."""
import ast
import copy
import json
import multiprocessing as mp
import os
from pathlib import Path
import shutil
import subprocess
import sys

REPO = Path(os.environ.get("MUTATE_REPO", "/repo"))
WORK = Path(os.environ.get("MUTATE_WORK", "/tmp/mut"))
VERIF = Path(__file__).resolve().parent.parent
PYTHON = "/opt/venv/bin/python"


def slots(tree):
    """All places (parent, field, index, node) of the tree"""
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            if isinstance(value, ast.AST):
                yield parent, field, None, value
            elif isinstance(value, list):
                for i, item in enumerate(value):
                    if isinstance(item, ast.AST):
                        yield parent, field, i, item


SWAP = {
    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
    ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
}


def variants(node, field):
    """Other nodes for the node"""
    if isinstance(node, (ast.If, ast.While, ast.IfExp)) :
        for value in (True, False):
            if isinstance(node, ast.While) and value:
                continue
            new = copy.copy(node)
            new.test = ast.Constant(value)
            yield f"test {value}", new
        if isinstance(node, ast.If):
            new = copy.copy(node)
            new.test = ast.UnaryOp(ast.Not(), node.test)
            yield "test negated", new
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)):
        yield "deleted", ast.Pass()
    if isinstance(node, ast.Expr) and not isinstance(node.value, (ast.Constant, ast.Yield)):
        yield "deleted", ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield "return None", ast.Return(None)
    if isinstance(node, ast.Return) and node.value is None:
        yield "deleted", ast.Pass()
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        swap = SWAP.get(type(node.ops[0]))
        if swap:
            new = copy.copy(node)
            new.ops = [swap()]
            yield "swapped", new
    if isinstance(node, ast.BoolOp):
        new = copy.copy(node)
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "and/or", new
        for i in range(len(node.values)):
            new = copy.copy(node)
            new.values = node.values[:i] + node.values[i + 1:]
            yield f"operand {i} dropped", new if len(new.values) > 1 else new.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not dropped", node.operand
    if isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            yield "negated", ast.Constant(not node.value)
        elif type(node.value) is int:
            yield "plus one", ast.Constant(node.value + 1)
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        new = copy.copy(node)
        new.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield "plus/minus", new
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitOr, ast.BitAnd)):
        yield "left", node.left
        yield "right", node.right
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            new = copy.copy(node)
            new.keywords = node.keywords[:i] + node.keywords[i + 1:]
            yield f"keyword {i} dropped", new
        if len(node.args) > 1:
            new = copy.copy(node)
            new.args = node.args[:-1]
            yield "last argument dropped", new
            new = copy.copy(node)
            new.args = [node.args[1], node.args[0], *node.args[2:]]
            yield "arguments swapped", new
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            yield "call dropped", node.func.value
        if isinstance(node.func, ast.Name) and len(node.args) == 1 and not node.keywords:
            if node.func.id in ("reversed", "list", "tuple", "set", "reactive", "to_raw", "sorted"):
                yield f"{node.func.id} dropped", node.args[0]
    if isinstance(node, (ast.For, ast.comprehension)):
        for name, part in (("first", ast.Slice(None, ast.Constant(1))),
                           ("others", ast.Slice(ast.Constant(1), None))):
            new = copy.copy(node)
            new.iter = ast.Subscript(
                ast.Call(ast.Name("list", ast.Load()), [node.iter], []), part, ast.Load()
            )
            yield f"only {name}", new
    if isinstance(node, ast.comprehension) and node.ifs:
        new = copy.copy(node)
        new.ifs = []
        yield "ifs dropped", new
    if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) > 1 and field != "targets":
        if not isinstance(getattr(node, "ctx", None), ast.Store):
            for i in range(len(node.elts)):
                new = copy.copy(node)
                new.elts = node.elts[:i] + node.elts[i + 1:]
                yield f"element {i} dropped", new
    if isinstance(node, ast.ExceptHandler):
        new = copy.copy(node)
        new.body = [ast.Raise()]
        yield "raises", new


def mutants(name):
    source = (REPO / name).read_text()
    tree = ast.parse(source)
    skip = set()
    for node in ast.walk(tree):
        # Annotations, decorators and logging
        for field in ("annotation", "returns", "decorator_list"):
            value = getattr(node, field, None)
            for item in value if isinstance(value, list) else [value]:
                if item is not None:
                    skip.update(map(id, ast.walk(item)))
        if isinstance(node, ast.Expr) and "logger" in ast.unparse(node):
            skip.update(map(id, ast.walk(node)))
    seen = {ast.unparse(tree)}
    for parent, field, index, node in list(slots(tree)):
        if id(node) in skip:
            continue
        for what, new in variants(node, field):
            if index is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[index] = new
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(text)
            except Exception:
                text = None
            if index is None:
                setattr(parent, field, node)
            else:
                getattr(parent, field)[index] = node
            if text is None or text in seen:
                continue
            seen.add(text)
            line = getattr(node, "lineno", None) or getattr(parent, "lineno", 0)
            code = ast.unparse(node).split("\n")[0][:90]
            yield {"file": name, "line": line, "what": what, "code": code, "text": text}


def folder():
    path = WORK / f"w{mp.current_process()._identity[0]}"
    if not path.exists():
        shutil.copytree(REPO, path, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    return path


def env(path):
    return {
        **os.environ, "PYTHONPATH": f"{VERIF}:{path}", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0", "QT_QPA_PLATFORM": "offscreen", "QT_LOGGING_RULES": "*=false",
        "VMC_EVIDENCE": str(path / "ev"), "VMC_REPLAYS": str(path / "rep"), "VMC_PROCS": "1",
        "PYTHONPYCACHEPREFIX": str(path / "pyc"), "VMC_TMP": str(path / "pyc"),
    }


def apply(mutant):
    path = folder()
    (path / mutant["file"]).write_text(mutant["text"])
    shutil.rmtree(path / "pyc", ignore_errors=True)
    (path / "pyc").mkdir()
    return path


def revert(path, mutant):
    shutil.copy(REPO / mutant["file"], path / mutant["file"])


def test(mutant):
    path = apply(mutant)
    try:
        process = subprocess.run(
            [PYTHON, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=30", "tests"],
            cwd=path, env=env(path), capture_output=True, timeout=200,
        )
        ok = process.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    revert(path, mutant)
    return mutant, ok


def check(args):
    mutant, checks = args
    path = apply(mutant)
    result = None
    notes = []
    for name in checks:
        if isinstance(name, str):
            name = [name]
        try:
            process = subprocess.run(
                [PYTHON, "-X", "faulthandler", "-W", "ignore", "-m", "mc", name[0], "quick"],
                cwd=VERIF, env=env(path), capture_output=True, timeout=1800,
            )
        except subprocess.TimeoutExpired:
            notes.append(f"{name[0]} timeout")
            continue
        if process.returncode == 1:
            result = name[0]
            break
        if process.returncode:
            notes.append(f"{name[0]} exit {process.returncode}")
    revert(path, mutant)
    return mutant, result, notes


def main(what, *args):
    if what != "list":
        shutil.rmtree(WORK, ignore_errors=True)
        WORK.mkdir()
    if what == "list":
        for name in args:
            print(name, len(list(mutants(name))))
    elif what == "tests":
        out, *names = args
        todo = [m for name in names for m in mutants(name)]
        with mp.Pool(8) as pool, open(out, "a") as fh:
            for n, (mutant, ok) in enumerate(pool.imap_unordered(test, todo)):
                if ok:
                    fh.write(json.dumps(mutant) + "\n")
                    fh.flush()
            print(n + 1, "mutants")
    elif what == "checks":
        out, inp, checks = args
        todo = [json.loads(line) for line in open(inp)]
        done = set()
        if os.path.exists(out):
            for line in open(out):
                d = json.loads(line)
                done.add((d["file"], d["text"]))
        todo = [(m, checks.split(",")) for m in todo if (m["file"], m["text"]) not in done]
        with mp.Pool(8) as pool, open(out, "a") as fh:
            for mutant, result, notes in pool.imap_unordered(check, todo):
                fh.write(json.dumps({**mutant, "found": result, "notes": notes}) + "\n")
                fh.flush()
                if not result:
                    print(f"{mutant['file']}:{mutant['line']} {mutant['what']}: {mutant['code']}",
                          notes, flush=True)
    shutil.rmtree(WORK)


if __name__ == "__main__":
    main(*sys.argv[1:])
