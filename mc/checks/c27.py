"""The windows of an application are the elements that are rendered into it"""
import itertools

import collagraph as cg
from observ import reactive
from PySide6 import QtCore
from PySide6 import QtWidgets as W

from mc.engine import Result, Violation, watchdog
from mc.qt import app, h
from mc.ui import de_bruijn

ID = "C27"
LEVEL = "model_checking"
ISOLATE = True
RULE = """All sequences of states (ordered selections of windows of several types, with and
without dialogs of their own) that are rendered into the application, directly or by
components, with and without showing them automatically, in synchronous mode and by the event
loop of Qt, with one or more changes of the data for each turn of the event loop. The windows
of the application are compared with the state, and should be the same objects as before."""


class Panel(cg.Component):
    log = []

    def mounted(self):
        self.log.append(("mounted", self.props["name"]))

    def before_unmount(self):
        self.log.append(("unmount", self.props["name"]))

    def render(self):
        name = self.props["name"]
        return h("widget", h("label", text=name), object_name=name)


def content(name, n):
    return h("label", text=f"{name} {n}")


def dialog(k):
    return h("QDialog", object_name=f"{k} dialog")


KINDS = {
    "widget": lambda k, n: h("widget", content(k, n), key=k, object_name=k),
    "label": lambda k, n: h("label", key=k, object_name=k, text=f"{k} {n}"),
    "dialog": lambda k, n: h("QDialog", content(k, n), key=k, object_name=k),
    "window": lambda k, n: h(
        "window", h("widget", content(k, n)), key=k, object_name=k, window_title=k
    ),
    "owner": lambda k, n: h(
        "widget", content(k, n), *([dialog(k)] if n else []),
        key=k, object_name=k,
    ),
    "deep": lambda k, n: h(
        "widget", content(k, n), *([h("widget", h("widget", dialog(k)))] if n else []),
        key=k, object_name=k,
    ),
    "moved": lambda k, n: h(
        "widget",
        *[content(k, n), h("groupbox", dialog(k), h("widget"), key="g")][:: -1 if n else 1],
        key=k, object_name=k,
    ),
    # Dialogs that are moved within the window
    "dialogs": lambda k, n: h(
        "widget",
        *[content(k, n), *(h("QDialog", key=i, object_name=f"{k} {i} dialog") for i in "ab")]
        [:: -1 if n else 1],
        key=k, object_name=k,
    ),
    "panel": lambda k, n: h(Panel, key=k, name=k),
    "group": lambda k, n: h("template", h(Panel, name=f"{k}1"), h("label", object_name=f"{k}2"), key=k),
    "unkeyed": lambda k, n: h("widget", content(k, n), object_name=k),
}
MULTIPLE = {"group": lambda k: [f"{k}1", f"{k}2"]}


def names(kinds, keys, n):
    for k in keys:
        yield from MULTIPLE.get(kinds[k], lambda k: [k])(k)


def fail(msg, trace):
    e = Violation(msg)
    e.signature = msg.split("\n")[0]
    e.trace = [str(t) for t in trace]
    raise e


class CloseEvents(QtCore.QObject):
    """Keeps the names of the windows that are closed"""

    def __init__(self):
        super().__init__()
        self.names = []

    def eventFilter(self, obj, event):  # noqa: N802
        if event.type() == QtCore.QEvent.Close:
            self.names.append(obj.objectName())
        return False


class Ui:
    def __init__(self, kinds, state, autoshow, mode):
        self.kinds = kinds
        self.mode = mode
        self.autoshow = autoshow
        self.data = reactive({"state": state})
        self.app = app()
        renderer = cg.PySideRenderer(autoshow=autoshow)
        self.gui = cg.Collagraph(
            renderer=renderer,
            event_loop_type=cg.EventLoopType.SYNC if mode == "sync" else None,
        )
        self.objects = {}
        self.closed = CloseEvents()
        self.count = 0
        self.log = Panel.log = []
        self.mounted = []

        def root(props):
            keys, n = self.data["state"]
            return h("template", *(KINDS[self.kinds[k]](k, n) for k in keys))

        self.gui.render(cg.h(root), self.app)
        self.settle()

    def settle(self):
        if self.mode == "sync":
            self.app.processEvents()
        else:
            # (until nothing is pending)
            for _ in range(6):
                self.app.processEvents(QtCore.QEventLoop.AllEvents, 5)
        self.app.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)

    def set(self, state):
        self.data["state"] = state

    def compare(self, trace, steps=1):
        keys, n = trace[-1]
        wanted = sorted(names(self.kinds, keys, n))
        visible = {}
        for w in W.QApplication.topLevelWidgets():
            if w.isVisible() and isinstance(w, W.QWidget):
                if w.objectName() in visible:
                    fail(f"there are more windows that are called {w.objectName()}", trace)
                visible[w.objectName()] = w
        dialogs = {k: w for k, w in visible.items() if k.endswith(" dialog")}
        windows = {k: w for k, w in visible.items() if k not in dialogs}
        if sorted(windows) != (wanted if self.autoshow else []):
            fail(f"shows {sorted(windows)} instead of {wanted}", trace)
        owners = [
            f"{k} dialog" for k in keys
            if self.kinds[k] == "moved" or self.kinds[k] in ("owner", "deep") and n
        ]
        owners += [
            f"{k} {i} dialog" for k in keys if self.kinds[k] == "dialogs" for i in "ab"
        ]
        owners.sort()
        if self.autoshow and sorted(dialogs) != owners:
            fail(f"shows dialogs {sorted(dialogs)} instead of {owners}", trace)
        for name, w in windows.items():
            kind = self.kinds.get(name)
            texts = [w.text()] if kind == "label" else [
                label.text() for label in w.findChildren(W.QLabel)
            ]
            if kind and kind != "panel" and texts != [f"{name} {n}"]:
                fail(f"{name} contains {texts}", trace)
            before = self.objects.get(name)
            stayed = all(name in keys for keys, _ in trace[-1 - steps:])
            if stayed and kind != "unkeyed" and before not in (None, w.property("number")):
                fail(f"{name} is another object than before", trace)
            if not w.isWindow() or w.parent() is not None:
                fail(f"{name} is not a window", trace)
        for name in self.objects:
            if name not in windows and name not in self.closed.names:
                if self.kinds.get(name) != "unkeyed":
                    fail(f"{name} has not been closed", trace)
        self.closed.names.clear()
        # (without references to the windows, since those keep them alive)
        self.objects = {}
        for name, w in windows.items():
            if w.property("number") is None:
                self.count += 1
                w.setProperty("number", self.count)
                w.installEventFilter(self.closed)
            self.objects[name] = w.property("number")
        panels = [n for n in wanted if n[0] in self.kinds and (
            self.kinds[n[0]] == "panel" or n.endswith("1"))]
        for what, name in self.log:
            if what == "mounted":
                self.mounted.append(name)
            else:
                self.mounted.remove(name)
        self.log.clear()
        if sorted(self.mounted) != sorted(panels):
            fail(f"{self.mounted} are mounted instead of {panels}", trace)


def run_task(task):
    kinds, keys, autoshow, mode, length, steps = task
    res = Result()
    kinds = dict(zip(keys, kinds))
    unkeyed = "unkeyed" in kinds.values()
    states = [
        ("".join(order), n)
        for count in range(len(keys) + 1)
        for order in itertools.permutations(keys, count)
        for n in (0, 1)
        if not unkeyed or list(order) == sorted(order)
    ]
    watchdog()
    sequence = [states[i] for i in de_bruijn(len(states), length)]
    sequence += sequence[:length - 1]
    trace = [sequence[0]]
    ui = Ui(kinds, sequence[0], autoshow, mode)
    ui.compare(trace)
    pending = 0
    for state in sequence[1:]:
        watchdog()
        trace.append(state)
        ui.set(state)
        pending += 1
        res.transitions += 1
        if pending >= steps:
            pending = 0
            ui.settle()
            ui.compare(trace, steps)
            res.validated += 1
    ui.settle()
    ui.compare(trace, steps)
    res.states += len(states)
    res.sample(f"{kinds} autoshow={autoshow} {mode}: {trace[:6]} ...")
    return res


def tasks(tier):
    quick = tier == "quick"
    result = []
    every = list(KINDS)
    pairs = list(itertools.combinations_with_replacement(every, 2))
    for one, two in pairs:
        result.append([[one, two], "ab", True, "sync", 3, 1])
    for kind in every:
        result.append([[kind, "widget", "panel"], "abc", True, "sync", 2, 1])
        for steps in (1, 2, 3):
            result.append([[kind, "panel"], "ab", True, "async", 2 if quick else 3, steps])
        result.append([[kind, "widget"], "ab", False, "sync", 2, 1])
    if not quick:
        for one, two in pairs:
            for three in every:
                result.append([[one, two, three], "abc", True, "sync", 2, 1])
            for steps in (1, 2, 3):
                result.append([[one, two], "ab", True, "async", 2, steps])
    return result
