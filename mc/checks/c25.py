"""The command line shows the given component with the given state in the given renderer"""
import asyncio
import contextlib
import io
import itertools
import json
import os
from pathlib import Path
import subprocess
import sys
import tempfile
import time
import types

import collagraph as cg
from collagraph.__main__ import run
from observ.proxy import Proxy

from mc.engine import Result, Violation, watchdog

ID = "C25"
LEVEL = "model_checking"
ISOLATE = True
RULE = """All command lines made of the renderers, a set of components and ways to give a set
of states (not at all, json text, a json file), for the DictRenderer with all sequences (of a
bounded length) of changes of the props in the debugger; all command lines with faults; all
combinations of missing dependencies."""

LABEL = {"pyside": "label", "dict": "p", "pygfx": "group"}
TEXT = {"pyside": "text", "dict": "text", "pygfx": "name"}
BOX = {"pyside": "widget", "dict": "div", "pygfx": "group"}

CHILD = """
<template>
  <{label} :{text}="value" />
</template>
<script>
import collagraph as cg
class Child(cg.Component):
    pass
</script>
"""
COMPONENTS = {
    "plain": """
<template>
  <{box} object_name="root">
    <{label} {text}="fixed é" />
  </{box}>
</template>
<script>
import collagraph as cg
class Plain(cg.Component):
    pass
</script>
""",
    "values": """
<template>
  <{box} object_name="root">
    <{label} :{text}="self.props.get('label', '-')" />
    <{label} v-for="item in self.props.get('items', ())" :{text}="item" />
    <{label} v-if="self.props.get('more')" {text}="möre" />
  </{box}>
</template>
<script>
import collagraph as cg
class Values(cg.Component):
    pass
</script>
""",
    "child": """
<template>
  <{box} object_name="root">
    <Child :value="self.props.get('label', '-')" />
    <Child v-for="item in self.props.get('items', ())" :value="item" />
  </{box}>
</template>
<script>
import collagraph as cg
from c25_child import Child
class Values(cg.Component):
    pass
</script>
""",
    "own": """
<template>
  <{box} object_name="root">
    <{label} :{text}="first" />
    <{label} :{text}="self.props.get('label', '-')" />
  </{box}>
</template>
<script>
import collagraph as cg
class Other(cg.Component):
    pass

class Own(cg.Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["first"] = self.props.get("label", "-")

name = "not a component"
</script>
""",
}
STATES = {
    "none": None,
    "empty": {},
    "label": {"label": "one"},
    "items": {"items": ["a", "b"], "label": "{"},
    "more": {"more": True, "label": "é✓ \n\"'"},
    "long": {"label": "x" * 300, "items": []},
    "longer": {"label": "/".join(["y" * 200] * 40), "more": 1},
    "nested": {"more": [{"a": None}], "items": ["p/q", "..", ""]},
}


def expected(component, props, initial):
    """The texts"""
    label = props.get("label", "-")
    items = list(props.get("items", ()))
    return {
        "plain": lambda: ["fixed é"],
        "values": lambda: [label, *items, *(["möre"] if props.get("more") else [])],
        "child": lambda: [label, *items],
        "own": lambda: [initial.get("label", "-"), label],
    }[component]()


OPS = {
    "label": lambda p: p.__setitem__("label", "new"),
    "other label": lambda p: p.__setitem__("label", ""),
    "no label": lambda p: p.pop("label") if "label" in p else None,
    "items": lambda p: p.__setitem__("items", ["c"]),
    "append": lambda p: p["items"].append("d") if "items" in p else None,
    "insert": lambda p: p["items"].insert(0, "e") if "items" in p else None,
    "more": lambda p: p.__setitem__("more", not p.get("more")),
}


class Folder:
    def __init__(self, renderer="dict"):
        self.tmp = tempfile.TemporaryDirectory(prefix="c25")
        self.path = Path(self.tmp.name)
        names = {"label": LABEL[renderer], "text": TEXT[renderer], "box": BOX[renderer]}
        for name, text in {**COMPONENTS, "c25_child": CHILD}.items():
            self.write(f"{name}.cgx", text.format(**names))
        sys.path.insert(0, self.tmp.name)

    def write(self, name, text):
        (self.path / name).parent.mkdir(exist_ok=True)
        (self.path / name).write_text(text, encoding="utf-8")
        return str(self.path / name)

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.path)
        return self

    def __exit__(self, *args):
        os.chdir(self.cwd)
        sys.path.remove(self.tmp.name)
        sys.modules.pop("c25_child", None)
        self.tmp.cleanup()

    def arguments(self, renderer, component, way, state, order=0):
        """Returns the command line"""
        result = [["--renderer", renderer] if way != "joined" else [f"--renderer={renderer}"]]
        if state is not None:
            if way == "text":
                result.append(["--state", json.dumps(state)])
            elif way == "utf-8":
                result.append(["--state", json.dumps(state, ensure_ascii=False, indent=2)])
            elif way == "joined":
                result.append(["--state=" + json.dumps(state)])
            else:
                text = json.dumps(state, ensure_ascii=False)
                if way == "file":
                    result.append(["--state", self.write("state.json", text)])
                else:
                    # Relative to the current folder
                    self.write(way, text)
                    result.append(["--state", way])
        file = f"{component}.cgx"
        if way not in FILES:
            file = str(self.path / file)
        result.insert(order, [file])
        return sum(result, [])


FILES = [
    "state.json", "{name}.json", "[1].json", "état", "1", "null", '"a".txt', "{}",
    "sub/a b.json", "values.json", "./true",
]
WAYS = ["text", "utf-8", "joined", "file", *FILES]


def command(args):
    """Executes the command line"""
    before = sys.argv
    sys.argv = ["collagraph", *args]
    try:
        run()
    finally:
        sys.argv = before


def debugger(callback):
    """Calls callback with the container and the props, instead of starting the debugger"""
    calls = []

    def hook(*args, **kwargs):
        frame = sys._getframe(1)
        values = list(frame.f_locals.values())
        calls.append(frame)
        containers = [v for v in values if type(v) is dict and "root" in v]
        props = [v for v in values if isinstance(v, Proxy)]
        if not containers or not props:
            raise Violation("no container and props in the debugger")
        callback(containers[0], props[0])

    sys.breakpointhook = hook
    return calls


def fail(msg, trace=()):
    e = Violation(msg)
    e.signature = msg.split("\n")[0]
    e.trace = list(map(str, trace))
    raise e


def dict_texts(container):
    def walk(el):
        if el["type"] == "p":
            yield el.get("attrs", {}).get("text")
        for child in el.get("children", ()):
            yield from walk(child)

    (root,) = container.get("children", ())
    if root["type"] != "div" or root["attrs"] != {"object_name": "root"}:
        fail(f"unexpected root: {root}")
    return list(walk(root))


def run_dict(res, component, name, depth):
    state = STATES[name]
    initial = state or {}
    with Folder() as folder:
        histories = list(itertools.product(OPS, repeat=depth))
        for n, history in enumerate(histories):
            watchdog()
            way = WAYS[n % len(WAYS)]
            args = folder.arguments("dict", component, way, state, order=n % 3)
            model = json.loads(json.dumps(initial))

            def interact(container, props):
                def compare(what):
                    texts = dict_texts(container)
                    wanted = expected(component, model, initial)
                    if texts != wanted:
                        fail(f"{component}: {what}: shows {texts} instead of {wanted}", args)

                compare("the initial state")
                for n, op in enumerate(history):
                    OPS[op](props)
                    OPS[op](model)
                    compare(f"after {history[:n + 1]}")
                    res.transitions += 1

            calls = debugger(interact)
            command(args)
            if len(calls) != 1:
                fail(f"{component}: {len(calls)} debuggers", args)
            res.states += 1
            res.validated += 1
    res.sample(f"{args}: {history}")


# -- Faults

GOOD = ("dict", "values", "text")
BAD_STATES = [
    "{", "", "{'a': 1}", '{"a": 1}}', "label", "state", "[1,", "é", "x" * 300, "{" * 5000,
    "a/b" * 100, '{"a": "' + "\n" * 300, ".", "\x01",
]
BAD_FILES = [
    "nothing.cgx", "values", "folder.cgx", "folder", "values.py", "values.CGX", "cgx", ".cgx",
    "values.cgx.txt", "", "nothing/values.cgx", "x" * 300 + ".cgx",
]
BAD_RENDERERS = ["dom", "nothing", "DictRenderer", "", "Dict"]


def faults():
    """Command lines with something wrong, and what is wrong"""
    for renderer in BAD_RENDERERS:
        yield (renderer, "values.cgx", None), "renderer"
    for name in BAD_FILES:
        yield ("dict", name, None), "component"
    for state in BAD_STATES:
        yield ("dict", "values.cgx", state), "state"
    for state in ("broken.json", "latin.json", "empty.json"):
        yield ("dict", "values.cgx", ("file", state)), "state"
    for name, state in itertools.product(BAD_FILES[:4], BAD_STATES[:3]):
        yield ("dict", name, state), "component"
    yield ("dict", None, None), "component"


def run_faults(res):
    with Folder() as folder:
        text = (folder.path / "values.cgx").read_text()
        (folder.path / "folder.cgx").mkdir()
        (folder.path / "folder").mkdir()
        for name in ("values.py", "values.CGX", "values", "cgx", ".cgx", "values.cgx.txt"):
            folder.write(name, text)
        folder.write("broken.json", "{")
        folder.write("empty.json", "")
        (folder.path / "latin.json").write_bytes('{"label": "é"}'.encode("latin-1"))
        cwd = os.getcwd()
        os.chdir(folder.path)
        try:
            for (renderer, name, state), what in faults():
                for full in (False, True):
                    if not name and full:
                        continue
                    watchdog()
                    args = ["--renderer", renderer]
                    if state is not None:
                        if type(state) is tuple:
                            state = str(folder.path / state[1]) if full else state[1]
                        args += ["--state", state]
                    if name is not None:
                        args.append(str(folder.path / name) if full else name)
                    calls = debugger(lambda *a: None)
                    err = io.StringIO()
                    try:
                        with contextlib.redirect_stderr(err):
                            command(args)
                    except SystemExit as e:
                        code = e.code
                    except Exception as e:
                        fail(f"{type(e).__name__} instead of a message: {e}"[:300], args)
                    else:
                        fail(f"no complaint about the {what}", args)
                    if code != 2:
                        fail(f"exits with {code}", args)
                    if "usage:" not in err.getvalue():
                        fail("usage is not shown", args)
                    if calls:
                        fail("something is rendered", args)
                    res.states += 1
                    res.transitions += 1
                    res.validated += 1
        finally:
            os.chdir(cwd)
    res.sample(str(args)[:300])


# -- PySide


def run_pyside(res, component, name, way):
    from PySide6 import QtWidgets as W

    from mc.qt import process_events

    state = STATES[name]
    calls = []

    def exec(*args):
        # Rendering can take a number of slices of time
        deadline = time.monotonic() + 20
        windows = []
        while not windows and time.monotonic() < deadline:
            process_events()
            windows = [w for w in W.QApplication.topLevelWidgets() if w.isVisible()]
        texts = []
        if [w.objectName() for w in windows] != ["root"]:
            fail(f"windows: {windows}")
        layout = windows[0].layout()
        for i in range(layout.count()):
            texts.append(layout.itemAt(i).widget().text())
        wanted = expected(component, state or {}, state or {})
        if texts != wanted:
            fail(f"{component}: shows {texts} instead of {wanted}")
        calls.append(texts)
        return 0

    W.QApplication.exec = staticmethod(exec)
    with Folder("pyside") as folder:
        args = folder.arguments("pyside", component, way, state)
        if way == "file":
            # It is the default
            args = [a for a in args if a not in ("--renderer", "pyside")]
        command(args)
    if len(calls) != 1:
        fail(f"the application runs {len(calls)} times", args)
    res.states += 1
    res.transitions += 1
    res.validated += 1
    res.sample(str(args))


# -- pygfx


def run_pygfx(res, component, name, way):
    import pygfx as gfx

    state = STATES[name]
    canvases, drawn, ran = [], [], []

    class WgpuCanvas:
        def __init__(self, *args, **kwargs):
            canvases.append(self)
            self.requests = []

        def request_draw(self, function=None):
            if function is not None:
                self.function = function
            self.requests.append(True)

        def draw(self):
            while self.requests:
                self.requests.clear()
                self.function()

        def add_event_handler(self, *args):
            pass

        def get_logical_size(self):
            return 600, 400

    class WgpuRenderer(gfx.renderers.Renderer):
        def __init__(self, target, *args, **kwargs):
            self.target = target
            self.handlers = []

        def add_event_handler(self, *args):
            self.handlers.append(args)

        @property
        def logical_size(self):
            return 600, 400

        def render(self, scene, camera):
            assert isinstance(camera, gfx.Camera)
            near_plane = camera.local.position[2] > 0
            drawn.append((scene, camera, near_plane))

    def loop():
        event_loop = asyncio.get_event_loop_policy().get_event_loop()
        for _ in range(5):
            event_loop.run_until_complete(asyncio.sleep(0.01))
            for canvas in canvases:
                canvas.draw()
        ran.append(True)

    auto = types.ModuleType("wgpu.gui.auto")
    auto.WgpuCanvas, auto.run = WgpuCanvas, loop
    sys.modules["wgpu.gui.auto"] = auto
    gfx.renderers.WgpuRenderer = gfx.WgpuRenderer = WgpuRenderer
    with Folder("pygfx") as folder:
        args = folder.arguments("pygfx", component, way, state)
        command(args)
    if not ran or not drawn or len(canvases) != 1:
        fail("nothing is drawn", args)
    scene, camera, near = drawn[-1]
    if not near:
        fail("the camera is not in front of the scene", args)
    (root,) = scene.children
    texts = [child.name for child in root.children]
    wanted = expected(component, state or {}, state or {})
    if texts != wanted:
        fail(f"{component}: shows {texts} instead of {wanted}", args)
    res.states += 1
    res.transitions += 1
    res.validated += 1
    res.sample(str(args)[:300])


# -- Missing dependencies, and other locales

SCRIPT = """
import json, sys
for name in {missing!r}:
    sys.modules[name] = None
def hook(*args):
    frame = sys._getframe(1)
    (container,) = [
        v for v in frame.f_locals.values() if type(v) is dict and "root" in v
    ]
    print("shown", ascii(container.get("children")))
sys.breakpointhook = hook
from collagraph.__main__ import run
sys.argv = ["collagraph", *json.loads({args!r})]
run()
"""


def python(missing, args, env=None):
    script = SCRIPT.format(missing=missing, args=json.dumps(args))
    folders = [str(Path(a).parent) for a in args if a.endswith(".cgx")]
    path = [str(Path(cg.__file__).parent.parent), *folders]
    process = subprocess.run(
        [sys.executable, "-c", script], capture_output=True, timeout=120, text=True,
        encoding="utf-8",
        env={**os.environ, "PYTHONPATH": os.pathsep.join(path), **(env or {})},
    )
    return process.returncode, process.stdout, process.stderr


NEEDS = {"dict": None, "pyside": "PySide6", "pygfx": "pygfx"}


def run_missing(res, missing):
    with Folder() as folder:
        args = folder.arguments("dict", "values", "text", STATES["label"])
        code, out, err = python(missing, args)
        if code or not out.startswith("shown") or "'one'" not in out:
            fail(f"without {missing}: {code} {out} {err[-500:]}")
        for renderer, module in NEEDS.items():
            if module not in missing:
                continue
            args = folder.arguments(renderer, "values", "text", STATES["label"])
            code, out, err = python(missing, args)
            if code != 2 or "usage" not in err or out:
                fail(f"without {missing}: {renderer}: {code} {out} {err[-500:]}")
            res.transitions += 1
        code, out, err = python(missing, ["--help"])
        for renderer, module in NEEDS.items():
            if code or (f"{renderer}," in out or f"{renderer}}}" in out) == (module in missing):
                fail(f"without {missing}: {renderer} in the help: {code} {out} {err[-500:]}")
    res.states += 1
    res.validated += 1


def run_locale(res, component):
    with Folder() as folder:
        for name, way in itertools.product(["none", "more"], ["text", "file"]):
            args = folder.arguments("dict", component, way, STATES[name])
            default = python([], args)
            for env in (
                {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
                {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
                {"PYTHONUTF8": "1"},
            ):
                result = python([], args, env)
                if default[0] or not default[1].startswith("shown") or result != default:
                    fail(f"{component}: with {env}: {result} instead of {default}", args)
                res.transitions += 1
            res.states += 1
            res.validated += 1


def tasks(tier):
    quick = tier == "quick"
    result = [["faults"]]
    for component, state in itertools.product(COMPONENTS, STATES):
        result.append(["dict", component, state, 2 if quick else 4])
    for renderer in ("pyside", "pygfx"):
        for component, state in itertools.product(COMPONENTS, STATES):
            way = WAYS[len(result) % len(WAYS)]
            for way in [way] if quick else WAYS[:7]:
                result.append([renderer, component, state, way])
    optional = ["PySide6", "pygfx"]
    for n in range(len(optional) + 1):
        for missing in itertools.combinations(optional, n):
            result.append(["missing", list(missing)])
    for component in COMPONENTS:
        result.append(["locale", component])
    return result


def run_task(task):
    res = Result()
    kind, *args = task
    {
        "dict": run_dict, "faults": run_faults, "pyside": run_pyside, "pygfx": run_pygfx,
        "missing": run_missing, "locale": run_locale,
    }[kind](res, *args)
    return res
