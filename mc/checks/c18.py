"""Import of cgx files as modules"""
import gc
import importlib
import itertools
import os
from pathlib import Path
import shutil
import sys
import tempfile

import collagraph as cg
import collagraph.cgx.importer  # noqa: F401

from mc.engine import Result, Violation, watchdog

ID = "C18"
LEVEL = "model_checking"
RULE = """All combinations of files (cgx, py, packages) in the directories of sys.path and
of packages, imported with all kinds of import statements, and all sequences (of bounded
length) of operations import, reload, edit, break, remove of modules. What is imported is
compared with a model of Python's import system. A state is a directory with the modules
that are imported; transitions are imports, reloads and edits."""

CGX = """<template>
  <item :v="where" :w="VALUE" :f="__file__" :n="__name__" />
</template>

<script>
import collagraph as cg
{imports}
where = {where!r}
NAME = __name__
FILE = __file__
PACKAGE = __package__
VALUE = 1

def get():
    return VALUE

class Top(cg.Component):
    kind = where

{tail}
</script>
"""
PY = """
where = {where!r}
NAME = __name__
"""


class Sandbox:
    def __init__(self):
        self.root = Path(
            tempfile.mkdtemp(prefix="import.", dir=os.environ.get("VMC_TMP"))
        )
        self.trace = []
        self.path = sys.path.copy()
        self.modules = sys.modules.copy()
        self.finders = sys.meta_path.copy()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.clean()
        sys.path[:] = self.path
        sys.meta_path[:] = self.finders
        shutil.rmtree(self.root)

    def clean(self):
        for name in list(sys.modules):
            if name not in self.modules:
                del sys.modules[name]
        importlib.invalidate_caches()
        sys.path_importer_cache.clear()

    def reset(self):
        self.clean()
        for item in self.root.iterdir():
            shutil.rmtree(item) if item.is_dir() else item.unlink()
        self.trace = []

    def write(self, name, text):
        path = self.root / name
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text)
        self.trace.append(f"{name}: {len(text)}")
        return path

    def cgx(self, name, imports="", tail="", where=None):
        return self.write(
            name, CGX.format(where=where or name, imports=imports, tail=tail)
        )

    def py(self, name):
        return self.write(name, PY.format(where=name))

    def fail(self, msg):
        msg = msg.replace(str(self.root), "ROOT")
        e = Violation(f"{msg}\n  " + "\n  ".join(map(str, self.trace)))
        e.signature = msg
        e.trace = list(map(str, self.trace))
        raise e

    def check(self, module, name, where, path, package):
        """All of the properties of a module that is imported from a cgx file"""
        if module.where != where:
            self.fail(f"imported {module.where} instead of {where}")
        if not where.endswith(".cgx"):
            return
        spec = module.__spec__
        facts = {
            "__name__": (module.__name__, name),
            "NAME": (module.NAME, name),
            "__file__": (str(module.__file__), str(path)),
            "FILE": (str(module.FILE), str(path)),
            "__package__": (module.__package__, package),
            "PACKAGE": (module.PACKAGE, package),
            "spec.name": (spec.name, name),
            "spec.origin": (str(spec.origin), str(path)),
            "spec.parent": (spec.parent, package),
            "sys.modules": (sys.modules.get(name), module),
            "class": (issubclass(module.Top, cg.Component), True),
            "class module": (module.Top.__module__, name),
            "class name": (module.Top.__qualname__, "Top"),
            "globals": (module.get.__globals__ is module.__dict__, True),
            "code": (module.get.__code__.co_filename, str(path)),
        }
        for key, (actual, expected) in facts.items():
            if actual != expected:
                self.fail(f"{name}: {key} is {actual!r} instead of {expected!r}")
        for value in (2, 3):
            module.VALUE = value
            props = module.Top({}).render().props
            if module.get() != value or props["w"] != value:
                self.fail("change of the module is not noticed by its functions")
            if (props["v"], props["n"], props["f"]) != (where, name, str(path)):
                self.fail(f"template refers to other values: {props}")
        if package:
            parent = sys.modules[package]
            if getattr(parent, name.rpartition(".")[2]) is not module:
                self.fail("module is not an attribute of its package")


def imports(name, attr="where"):
    """Different ways to import a module"""
    package, _, last = name.rpartition(".")
    yield "import_module", lambda: importlib.import_module(name)
    yield "__import__", lambda: (__import__(name), sys.modules[name])[1]

    def statement(code):
        def run():
            scope = {}
            exec(code, scope)
            return scope["m"]

        return run

    yield "import as", statement(f"import {name} as m")
    yield "from", statement(f"from {name} import {attr} as _; import sys; m = sys.modules['{name}']")
    if package:
        yield "from package", statement(f"from {package} import {last} as m")
        yield "relative", lambda: importlib.import_module(f".{last}", package)


FILES = ["m.cgx", "m.py", "m/__init__.py", "m/__init__.cgx", "other.cgx"]


def candidates(files, directory):
    """What Python's finder finds first in a directory"""
    if "m/__init__.py" in files:
        return "m/__init__.py"
    if "m.py" in files:
        return "m.py"


def subsets(items):
    for r in range(len(items) + 1):
        yield from itertools.combinations(items, r)


def check_layouts(box, package, res, tier):
    """package: None, or the kind of package that contains the module"""
    choices = list(subsets(FILES[:3] + FILES[4:])) if tier != "quick" else list(subsets(FILES[:3]))
    orders = (("one", "two"), ("two", "one"))
    for order, one, two in itertools.product(orders, choices, choices):
        prefix = "" if package is None else "pkg/"
        name = "m" if package is None else "pkg.m"
        found = None
        for finder in ("py", "cgx"):
            for directory in order:
                files = one if directory == "one" else two
                if package == "regular" and directory != order[0]:
                    continue
                hit = candidates(files, directory)
                if finder == "cgx":
                    hit = "m.cgx" if "m.cgx" in files else None
                if hit and not found:
                    found = f"{directory}/{prefix}{hit}"
        for how in range(6):
            watchdog()
            box.reset()
            for directory, files in (("one", one), ("two", two)):
                (box.root / directory / prefix).mkdir(parents=True)
                if package == "regular":
                    box.write(f"{directory}/pkg/__init__.py", "")
                for file in files:
                    file = f"{directory}/{prefix}{file}"
                    (box.cgx if file.endswith(".cgx") else box.py)(file)
            sys.path[:] = [*(str(box.root / d) for d in order), *box.path]
            ways = list(imports(name))
            if how >= len(ways):
                continue
            way, run = ways[how]
            box.trace.append(way)
            try:
                if way == "relative":
                    importlib.import_module(name.rpartition(".")[0])
                module = run()
            except ImportError as e:
                if found:
                    box.fail(f"{type(e).__name__}: {e}")
                if way != "from package" and not isinstance(e, ModuleNotFoundError):
                    box.fail(f"{type(e).__name__}: {e}")
            else:
                if not found:
                    box.fail(f"imported {module}")
                box.check(module, name, found, box.root / found, name.rpartition(".")[0])
                if any(run() is not module for _, run in ways):
                    box.fail("imported more than once")
            res.states += 1
            res.transitions += 1
            res.validated += 1


RELATIVE = [
    ("from . import sibling", "sibling", "pkg/sibling.cgx"),
    ("from .sibling import Top as Other", "Other", "pkg/sibling.cgx"),
    ("from .sub import deep", "deep", "pkg/sub/deep.cgx"),
    ("from .sub.deep import Top as Other", "Other", "pkg/sub/deep.cgx"),
    ("from .pymod import where as other", "other", "pkg/pymod.py"),
    ("from . import pymod", "pymod", "pkg/pymod.py"),
    ("from .sub import pymod", "pymod", "pkg/sub/pymod.py"),
    ("import pkg.sibling as s", "s", "pkg/sibling.cgx"),
    ("from pkg import sibling", "sibling", "pkg/sibling.cgx"),
    ("import top", "top", "top.cgx"),
    ("from top import Top as Other", "Other", "top.cgx"),
    ("import pkg.sub.deep as d", "d", "pkg/sub/deep.cgx"),
]
UP = [
    ("from .. import sibling", "sibling", "pkg/sibling.cgx"),
    ("from ..sibling import Top as Other", "Other", "pkg/sibling.cgx"),
    ("from ..pymod import where as other", "other", "pkg/pymod.py"),
    ("from .pymod import where as other", "other", "pkg/sub/pymod.py"),
    ("from . import pymod", "pymod", "pkg/sub/pymod.py"),
]


def check_relative(box, res):
    """Imports by cgx files from all kinds of packages"""
    for regular, depth, place in itertools.product(
        (True, False), (0, 1), ("head", "method", "tail")
    ):
        for statement, name, where in UP if depth else RELATIVE:
            for second in [("", None, None)] + (UP if depth else RELATIVE):
                watchdog()
                box.reset()
                for folder in ("pkg", "pkg/sub"):
                    (box.root / folder).mkdir(parents=True)
                    if regular:
                        box.write(f"{folder}/__init__.py", "")
                for file in ("pkg/sibling.cgx", "pkg/sub/deep.cgx", "top.cgx"):
                    box.cgx(file)
                for file in ("pkg/pymod.py", "pkg/sub/pymod.py"):
                    box.py(file)
                sys.path[:] = [str(box.root), *box.path]
                file = "pkg/sub/user.cgx" if depth else "pkg/user.cgx"
                code = f"{statement}\n{second[0]}"
                if place == "method":
                    code = "def load():\n    global {}\n    {}\n    {}".format(
                        ", ".join({n for n in (name, second[1]) if n}),
                        statement, second[0],
                    )
                box.cgx(
                    file,
                    imports=code if place != "tail" else "",
                    tail=code if place == "tail" else "",
                )
                box.trace.append((place, code))
                full = file[:-4].replace("/", ".")
                try:
                    module = importlib.import_module(full)
                    if place == "method":
                        module.load()
                except Exception as e:
                    box.fail(f"{type(e).__name__}: {e}")
                for n, w in ((name, where), second[1:]):
                    if n is None or (n == second[1] and w != second[2]):
                        continue
                    value = getattr(module, n)
                    value = getattr(value, "where", getattr(value, "kind", value))
                    if value != w:
                        box.fail(f"{n} is {value} instead of {w}")
                box.check(module, full, file, box.root / file, full.rpartition(".")[0])
                res.states += 1
                res.transitions += 1
                res.validated += 1


def check_cycles(box, res):
    """Modules that import each other, in all orders"""
    kinds = ["cgx", "py"]
    for a, b, c in itertools.product(kinds, repeat=3):
        for first in "abc":
            for place in itertools.product(("head", "tail"), repeat=3):
                watchdog()
                box.reset()
                (box.root / "d").mkdir()
                for name, kind, other, at in zip("abc", (a, b, c), "bca", place):
                    code = f"import {other}_mod"
                    if kind == "cgx":
                        box.cgx(
                            f"d/{name}_mod.cgx",
                            imports=code if at == "head" else "",
                            tail=code if at == "tail" else "",
                        )
                    else:
                        text = PY.format(where=f"d/{name}_mod.py")
                        box.write(
                            f"d/{name}_mod.py",
                            code + text if at == "head" else text + code,
                        )
                sys.path[:] = [str(box.root / "d"), *box.path]
                box.trace.append((a, b, c, first, place))
                try:
                    module = importlib.import_module(f"{first}_mod")
                except Exception as e:
                    box.fail(f"{type(e).__name__}: {e}")
                for name, kind, other in zip("abc", (a, b, c), "bca"):
                    m = sys.modules[f"{name}_mod"]
                    if getattr(m, f"{other}_mod") is not sys.modules[f"{other}_mod"]:
                        box.fail("different modules")
                    path = f"d/{name}_mod.{kind}"
                    box.check(m, f"{name}_mod", path, box.root / path, "")
                res.states += 1
                res.transitions += 1
                res.validated += 1


OPS = ["import", "reload", "edit", "raise", "syntax", "class", "template", "remove", "forget"]
BAD = {
    "raise": ("raise LookupError('bad')", LookupError),
    "syntax": ("1 +* 2", SyntaxError),
    "class": ("class Last: pass", ValueError),
}


def check_histories(box, name, prefix, depth, res):
    """All sequences of operations"""
    file = name.replace(".", "/") + ".cgx"
    for rest in itertools.product(OPS, repeat=depth - len(prefix)):
        ops = [*prefix, *rest]
        watchdog()
        box.reset()
        (box.root / file).parent.mkdir(parents=True, exist_ok=True)
        sys.path[:] = [str(box.root), *box.path]
        version = 0
        path = box.cgx(file, where="v0.cgx")
        content = ("v0.cgx", None)
        loaded = None  # version that is loaded
        module = None
        extra = set()
        for op in ops:
            box.trace.append(op)
            error = None
            if op == "edit":
                version += 1
                content = (f"v{version}.cgx", None)
                box.cgx(file, where=content[0], imports=f"extra{version} = 1")
            elif op in BAD:
                version += 1
                code, exc = BAD[op]
                content = (f"v{version}.cgx", exc)
                box.cgx(file, where=content[0], tail=code)
            elif op == "template":
                version += 1
                content = (f"v{version}.cgx", ValueError)
                box.cgx(file, where=content[0])
                path.write_text(
                    path.read_text().replace("<template>", "<template><second />")
                )
            elif op == "remove":
                path.unlink(missing_ok=True)
                content = (None, ImportError)
            elif op == "forget":
                if module is not None:
                    sys.modules.pop(name)
                module = loaded = None
            else:
                importlib.invalidate_caches()
                try:
                    if op == "import":
                        result = importlib.import_module(name)
                    elif module is None:
                        continue
                    else:
                        result = importlib.reload(module)
                except Exception as e:
                    error = e
                if op == "import" and module is not None:
                    if error or result is not module:
                        box.fail(f"module is imported again: {error!r}")
                    continue
                where, exc = content
                if exc is not None:
                    if op == "reload" and exc is ImportError and isinstance(error, OSError):
                        pass  # The file can't be read, the spec stays the same
                    elif not isinstance(error, exc):
                        box.fail(f"{error!r} instead of {exc.__name__}")
                    if module is None and name in sys.modules:
                        box.fail("module stays imported after an error")
                    if module is not None and sys.modules.get(name) is not module:
                        box.fail("module is gone after an error")
                    if module is not None and exc in (SyntaxError, ImportError) and (
                        module.where != loaded
                    ):
                        box.fail("module is changed, although it can't be parsed")
                    if module is not None:
                        loaded = module.where
                    continue
                if error is not None:
                    box.fail(f"{type(error).__name__}: {error}")
                if op == "reload" and result is not module:
                    box.fail("another module")
                module = result
                loaded = where
                box.check(module, name, where, path, name.rpartition(".")[0])
            res.transitions += 1
        res.states += 1
        res.validated += 1


def check_finder(box, res):
    """The finder is installed once, after those of Python"""
    from collagraph.cgx.importer import CgxImporter

    finders = [f for f in sys.meta_path if f is CgxImporter]
    if len(finders) != 1 or sys.meta_path[-1] is not CgxImporter:
        box.fail(f"finders: {sys.meta_path}")
    for path in ([], [""], ["/nonexistent"], ["one"], ("one", "")):
        if CgxImporter.find_spec("nothing", path) is not None:
            box.fail("spec for a module that does not exist")
        res.states += 1
        res.transitions += 1
        res.validated += 1


ENTRIES = [
    "mod.cgx", "Mod.cgx", "MOD.CGX", "mod.CGX", "mod.cgx.txt", "mod.cgx/", "mod_.cgx",
    "_mod.cgx", "mód.cgx", "x.mod.cgx", "cgx.cgx", ".cgx", "mod/x.cgx", "mod.cgx/x.cgx",
]
NAMES = ["mod", "Mod", "MOD", "mod_", "_mod", "mód", "cgx", "x", "mod.x", "Mod.x", "x.mod", "mod.mod"]


def check_names(box, res, entries):
    """Files and folders of which the names look like each other"""
    for one, two in itertools.product(entries, [None, *ENTRIES]):
        watchdog()
        for name in NAMES:
            box.reset()
            found = {}
            for folder, entry in (("one", one), ("two", two)):
                (box.root / folder).mkdir()
                if entry is None:
                    continue
                if entry.endswith("/"):
                    (box.root / folder / entry).mkdir(parents=True)
                else:
                    box.cgx(f"{folder}/{entry}")
                if entry.endswith(".cgx"):
                    *package, file = entry.split("/")
                    full = ".".join([*package, file.removesuffix(".cgx")])
                    if full.count(".") == len(package):
                        found.setdefault(full, f"{folder}/{entry}")
            # Folders are modules (of Python) as well, so those go first
            where = found.get(name)
            if name == "mod" and "mod/x.cgx" in (one, two):
                where = None
            sys.path[:] = [str(box.root / "one"), str(box.root / "two"), *box.path]
            box.trace.append((one, two, name))
            try:
                module = importlib.import_module(name)
            except ModuleNotFoundError:
                if where:
                    box.fail(f"{name} is not found")
            except Exception as e:
                box.fail(f"{type(e).__name__}: {e}")
            else:
                if hasattr(module, "where"):
                    if not where:
                        box.fail(f"{module.where} is imported as {name}")
                    package = name.rpartition(".")[0]
                    box.check(module, name, where, box.root / where, package)
                elif where or name != "mod":
                    # (folders are packages)
                    box.fail(f"imported {module}")
            res.states += 1
            res.transitions += 1
            res.validated += 1


def check_paths(box, res):
    """The paths are written in all kinds of ways, like those of Python modules"""
    ways = {
        "absolute": lambda root: str(root), "slash": lambda root: f"{root}/",
        "dots": lambda root: f"{root}/sub/..", "empty": lambda root: "",
        "dot": lambda root: ".", "sub": lambda root: "sub/..", "parent": lambda root: "sub",
    }
    cwd = os.getcwd()
    try:
        for (way, path), package, after in itertools.product(
            ways.items(), (None, "regular", "namespace", "empty", "both"), ("stay", "leave"),
        ):
            watchdog()
            box.reset()
            folder = "sub/" if way == "parent" else ""
            inner = folder if package in (None, "empty") else f"{folder}pkg/"
            (box.root / "sub").mkdir()
            box.cgx(f"{inner}m_one.cgx")
            box.py(f"{inner}m_two.py")
            if package in ("regular", "empty", "both"):
                text = {
                    "regular": "", "empty": "__path__ = []",
                    "both": "__path__ = ['nothing', *__path__, 'sub']",
                }[package]
                box.write(f"{folder}pkg/__init__.py", text)
            os.chdir(box.root)
            sys.path[:] = [path(box.root), *box.path]
            box.trace.append((way, package, after))
            prefix = "pkg." if package else ""
            names = [f"{prefix}m_one", f"{prefix}m_two"]
            if package == "empty":
                for name in names:
                    for top in (False, True):
                        if top:
                            importlib.import_module(name.partition(".")[2])
                        try:
                            module = importlib.import_module(name)
                        except ModuleNotFoundError:
                            continue
                        box.fail(f"imported {module}")
            else:
                one, two = map(importlib.import_module, names)
                wanted = os.path.normpath(str(two.__file__).replace("m_two.py", "m_one.cgx"))
                if os.path.normpath(str(one.__file__)) != wanted:
                    box.fail(f"file is {one.__file__}, for Python {two.__file__}")
                if str(one.__file__) != str(one.__spec__.origin):
                    box.fail(f"origin is {one.__spec__.origin}")
                if after == "leave":
                    os.chdir("/")
                if importlib.reload(one) is not one:
                    box.fail("reload of another module")
            os.chdir(cwd)
            res.states += 1
            res.transitions += 1
            res.validated += 1
    finally:
        os.chdir(cwd)


def tasks(tier):
    depth = 4 if tier == "quick" else 5
    result = [["layouts", None], ["layouts", "regular"], ["layouts", "namespace"],
              ["relative"], ["cycles"], ["finder"], ["paths"]]
    result.extend(["names", [entry]] for entry in ENTRIES)
    for t in result:
        t.append(tier)
    for name in ("mod", "pkg.mod"):
        for first in itertools.product(OPS, repeat=2):
            result.append(["histories", name, list(first), depth])
    return result


def run_task(task):
    what, *args = task
    res = Result()
    gc.disable()
    sys.dont_write_bytecode = True
    with Sandbox() as box:
        if what == "layouts":
            check_layouts(box, args[0], res, args[1])
        elif what == "relative":
            check_relative(box, res)
        elif what == "cycles":
            check_cycles(box, res)
        elif what == "names":
            check_names(box, res, args[0])
        elif what == "paths":
            check_paths(box, res)
        elif what == "finder":
            check_finder(box, res)
        else:
            check_histories(box, *args, res)
        res.sample(list(map(str, box.trace)))
    gc.collect()
    return res
