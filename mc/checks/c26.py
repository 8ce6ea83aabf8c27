"""Applications that are packaged with PyInstaller contain what their cgx files need"""
import fnmatch
import importlib
import importlib.util
import itertools
from pathlib import Path
import sys
import tempfile
import types

import collagraph

from mc.engine import Result, Violation, watchdog

ID = "C26"
LEVEL = "model_checking"
ISOLATE = True
RULE = """All combinations of kinds of import statements, places of the statement within the
script and of the cgx file within the application, for applications with a package and for
scripts. Each cgx file is really imported and used: all of the modules that are loaded by that
should be among the imports that the hook for PyInstaller adds (to a stand-in for its graph of
modules); the cgx files of packages should be among the data files."""

# Each app has these modules as well, which contain `value`
HELPERS = ["ext_a", "ext_b/sub", "ext_b/other/deep", "ext_c"]
PACKAGE_HELPERS = ["sib", "near/mod", "near/inner/mod"]

ABSOLUTE = {
    "import ext_a": "ext_a.value",
    "import ext_b.sub": "ext_b.sub.value",
    "import ext_b.other.deep": "ext_b.other.deep.value",
    "import ext_b.sub as é": "é.value",
    "import ext_a, ext_b.sub, ext_c as c": "(ext_a, ext_b.sub, c)",
    "from ext_a import value": "value",
    "from ext_b import sub": "sub.value",
    "from ext_b import sub as s, other": "(s.value, other)",
    "from ext_b.other.deep import value as v": "v",
    "from ext_b.other import (\n    deep,\n)": "deep.value",
    "from ext_b.sub import *": "value",
}
RELATIVE = {
    "from . import sib": "sib.value",
    "from .sib import value": "value",
    "from .near import mod": "mod.value",
    "from .near.mod import value as v": "v",
    "from .near.inner import mod as m": "m.value",
    "from . import near": "near",
    "from .sib import value as v\nfrom . import sib as s, near": "(v, s, near)",
}
UP = {
    "from .. import sib": "sib.value",
    "from ..sib import value": "value",
    "from ..near.inner.mod import value": "value",
    "from ..near.inner import mod": "mod",
}
FULL = {
    "import PACKAGE.sib": "PACKAGE.sib.value",
    "from PACKAGE import sib": "sib.value",
    "from PACKAGE.near.inner.mod import value": "value",
}

PLACES = {
    "top": "{stmt}\ndef use(): return {use}",
    "function": "def use():\n    {stmt}\n    return {use}",
    "try": "try:\n    {stmt}\nexcept ImportError:\n    pass\ndef use(): return {use}",
    "if": "if True:\n    if True:\n        {stmt}\ndef use(): return {use}",
    "method": "class Using:\n    def use(self):\n        {stmt}\n        return {use}\n"
              "use = Using().use",
    "nested": "def outer():\n    def use():\n        for _ in (1,):\n"
              "            with open('/dev/null'):\n                {stmt}\n"
              "        return {use}\n    return use\nuse = outer()",
    "after": "AFTER {stmt}\ndef use(): return {use}",
}

CGX = """
<template>
  <widget text="é" />
</template>
<script>
import collagraph as cg
{before}
class Item(cg.Component):
    pass
{after}
</script>
"""


def script(stmt, place, use):
    template = PLACES[place]
    indent = ""
    for line in template.split("\n"):
        if line.strip() == "{stmt}":
            indent = line[: -len("{stmt}")]
    stmt = stmt.replace("\n", "\n" + indent)
    return template.replace("{stmt}", stmt).replace("{use}", use)


def cgx(stmt, place, use):
    code = script(stmt, place, use)
    if code.startswith("AFTER "):
        return CGX.format(before="", after=code[6:])
    return CGX.format(before=code, after="")


class App:
    """An application: a package or a script in a folder"""

    count = 0

    def __init__(self, kind):
        App.count += 1
        self.kind = kind
        self.tmp = tempfile.TemporaryDirectory(prefix="c26")
        self.path = Path(self.tmp.name)
        self.package = "" if kind == "script" else f"app{App.count}"
        self.folder = self.path / self.package
        self.cgx = {}
        for name in HELPERS:
            self.module(self.path, name)
        for name in PACKAGE_HELPERS:
            self.module(self.folder, name)
        if kind == "script":
            self.user, code = "main", self.folder / "main.py"
        elif kind == "package":
            self.user, code = self.package, self.folder / "__init__.py"
        elif kind == "module":
            self.user, code = f"{self.package}.main", self.folder / "main.py"
        else:
            self.package += ".inner"
            self.folder = self.folder / "inner"
            for name in PACKAGE_HELPERS:
                self.module(self.folder, name)
            self.user, code = self.package, self.folder / "__init__.py"
        code.write_text("import collagraph\n")
        self.code = compile(code.read_text(), str(code), "exec")
        self.before = set(sys.modules)
        sys.path.insert(0, str(self.path))

    def module(self, root, name):
        *folders, file = name.split("/")
        path = root
        path.mkdir(exist_ok=True)
        for folder in [None, *folders]:
            path = path / folder if folder else path
            path.mkdir(exist_ok=True)
            if path != self.path:
                (path / "__init__.py").touch()
        (path / f"{file}.py").write_text("value = 1\n")

    def add(self, where, text):
        """Adds a cgx file; where is a list of folders within the package"""
        path = self.folder
        for name in where:
            path = path / name
            path.mkdir(exist_ok=True)
            (path / "__init__.py").touch()
            for helper in PACKAGE_HELPERS:
                self.module(path, helper)
        name = f"item{len(self.cgx)}"
        (path / f"{name}.cgx").write_text(text, encoding="utf-8")
        self.cgx[".".join(filter(None, [self.package, *where, name]))] = path / f"{name}.cgx"

    def close(self):
        sys.path.remove(str(self.path))
        for name in set(sys.modules) - self.before:
            del sys.modules[name]
        importlib.invalidate_caches()
        self.tmp.cleanup()

    def loaded(self):
        """The names of modules that are loaded by using the cgx files"""
        importlib.invalidate_caches()
        for name in self.cgx:
            importlib.import_module(name).use()
        result = set()
        for name in set(sys.modules) - self.before:
            file = getattr(sys.modules[name], "__file__", None) or ""
            if file.startswith(str(self.path)) and file.endswith(".py"):
                result.add(name)
        return result


class HookApi:
    """Stand-in for the API that PyInstaller offers to hooks"""

    def __init__(self, users):
        self.users = users
        self.imports = set()
        self.datas = []
        self.analysis = types.SimpleNamespace(graph=self)

    def get_code_using(self, name):
        return dict(self.users) if name == "collagraph" else {}

    def add_imports(self, *names):
        for name in names:
            # An import of a module is an import of its packages as well
            parts = name.split(".")
            self.imports |= {".".join(parts[: n + 1]) for n in range(len(parts))}

    def add_datas(self, datas):
        self.datas += datas


def collect_data_files(package, include_py_files=False, subdir=None, excludes=None, includes=None):
    """Stand-in for the function of PyInstaller: pairs of files and destination folders"""
    spec = importlib.util.find_spec(package)
    if spec is None or not spec.submodule_search_locations:
        return []
    (root,) = spec.submodule_search_locations
    root = Path(root) / (subdir or "")
    result = []
    patterns = includes or ["**/*"]
    for path in sorted(root.rglob("*")):
        if path.is_file() and (include_py_files or path.suffix != ".py"):
            rel = path.relative_to(root)
            if any(path in root.glob(p) for p in patterns):
                if not any(fnmatch.fnmatch(str(rel), p) for p in excludes or ()):
                    base = Path(*package.split("."))
                    result.append((str(path), str(base / rel.parent)))
    return result


def load_hook():
    for name in ("PyInstaller", "PyInstaller.utils", "PyInstaller.utils.hooks"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["PyInstaller.utils.hooks"].collect_data_files = collect_data_files
    name = "collagraph.__pyinstaller"
    (folder,) = importlib.import_module(name).get_hook_dirs()
    path = Path(folder) / "hook-collagraph.py"
    assert Path(collagraph.__file__).parent in path.parents
    spec = importlib.util.spec_from_file_location("hook_collagraph", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def fail(msg, trace):
    e = Violation(msg)
    e.signature = msg.split("\n")[0]
    e.trace = trace
    raise e


def explore(res, hook, kind, files):
    """files: list of (folders, statement, place, use)"""
    watchdog()
    app = App(kind)
    try:
        for where, stmt, place, use in files:
            app.add(where, cgx(*(
                x.replace("PACKAGE", app.package) for x in (stmt, place, use)
            )))
        api = HookApi({app.user: app.code})
        hook(api)
        trace = [f"{kind}: {f}" for f in files]
        needed = app.loaded()
        if missing := sorted(needed - api.imports - {app.user}):
            # Packages contain their own parents
            missing = [m for m in missing if not f"{app.package}.".startswith(m + ".")]
            # Packages of cgx files itself are found on disk
            missing = [m for m in missing if not any(c.startswith(m + ".") for c in app.cgx)]
            if missing:
                fail(f"{kind}: {files}: {missing} are not imported", trace)
        if kind in ("package", "inner"):
            for name, path in app.cgx.items():
                dest = name.rpartition(".")[0].replace(".", "/")
                if (str(path), dest) not in [(str(a), str(b)) for a, b in api.datas]:
                    fail(f"{kind}: {files}: {name} is not part of the data", trace)
            res.transitions += len(app.cgx)
        if any(not str(a).endswith(".cgx") for a, _ in api.datas):
            fail(f"{kind}: {files}: unexpected data: {api.datas}", trace)
        res.states += 1
        res.transitions += len(needed)
        res.validated += 1
    finally:
        app.close()


WHERE = [[], ["ui"], ["ui", "more"]]


def statements(kind, where):
    result = dict(ABSOLUTE)
    if kind != "script" or where:
        result.update(RELATIVE)
    if kind != "script":
        result.update(FULL)
    if len(where) > (kind == "script"):
        result.update(UP)
    return result


KINDS = ["script", "package", "module", "inner"]


def run_task(task):
    res = Result()
    kind, where, what = task
    hook = load_hook().hook
    single = [
        (where, stmt, place, use)
        for stmt, use in statements(kind, where).items()
        for place in PLACES
        if not (stmt.endswith("*") and place in ("function", "method", "nested"))
    ]
    if what == "single":
        for file in single:
            explore(res, hook, kind, [file])
    else:
        # Pairs of files
        other = [(w, stmt, "top", use) for w in WHERE for stmt, use in statements(kind, w).items()]
        step = {"few": 7, "pairs": 1}[what]
        mine = [f for f in single if f[2] in ("top", "function")]
        for one, two in list(itertools.product(mine, other))[::step]:
            explore(res, hook, kind, [one, two])
    res.sample(f"{kind} {where}: {single[-1]}")
    return res


def tasks(tier):
    quick = tier == "quick"
    result = []
    for kind in KINDS:
        for where in WHERE:
            result.append([kind, where, "single"])
            result.append([kind, where, "few" if quick else "pairs"])
    return result
