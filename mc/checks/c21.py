"""PySide: handlers are called once for each signal or event of their element"""
import functools
import gc
import itertools
import sys

import collagraph as cg
from PySide6 import QtCore, QtGui, QtTest
from PySide6 import QtWidgets as W

from mc.engine import Result, Violation, watchdog
from mc.ui import de_bruijn

ID = "C21"
LEVEL = "model_checking"
ISOLATE = True
RULE = """For 24 signals and events of Qt all sequences (of a bounded length) of states are
rendered by the PySideRenderer: which kind of handler (functions, lambdas, methods, callable
objects, that take the parameters or not) is attached to which event of two elements, that
are also moved, removed and added again. After each step all events are fired through Qt:
precisely the handlers of the current state are called, once, with the parameters they
accept, and the element and its parents still handle the event as they do without
handlers. Handlers also change the handlers, or remove their element, while they are called."""

LOG = []


def h(type, *args, **attrs):
    return cg.h(type, attrs, *args)


# -- Handlers: each one logs its name and the arguments

def plain_none(name):
    def handler():
        LOG.append((name,))

    return handler


def plain_one(name):
    def handler(value):
        LOG.append((name, value))

    return handler


def plain_opt(name):
    def handler(value="default"):
        LOG.append((name, value))

    return handler


def keyword(name):
    def handler(*, value="default"):
        LOG.append((name,))

    return handler


class Plain:
    def __init__(self, name):
        self.name = name

    def none(self):
        LOG.append((self.name,))

    def one(self, value):
        LOG.append((self.name, value))

    def opt(self, value="default"):
        LOG.append((self.name, value))

    @staticmethod
    def static():
        LOG.append(("static",))


class Equal(Plain):
    """Instances are equal and not hashable"""

    def __eq__(self, other):
        return isinstance(other, Equal)


class CallableNone(Plain):
    def __call__(self, *args):
        LOG.append((self.name,))


class EqualCallable(CallableNone):
    def __eq__(self, other):
        return isinstance(other, EqualCallable)


class HashedCallable(EqualCallable):
    def __hash__(self):
        return 1


class QPlain(QtCore.QObject):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def none(self):
        LOG.append((self.name,))

    @QtCore.Slot(object)
    def one(self, value):
        LOG.append((self.name, value))


class Comp(cg.Component):
    def __init__(self, name):
        super().__init__({})
        self.name = name

    def one(self, value):
        LOG.append((self.name, value))

    def render(self):
        return cg.h("label")


def bound_log(name):
    return functools.partial(lambda *args: LOG.append(args[:1]), name)


def plain_star(name):
    def handler(*args, **kwargs):
        LOG.append((name,))

    return handler


# kind: (function to create it, whether it takes the parameter of the signal)
KINDS = {
    "none": (plain_none, 0),
    "one": (plain_one, 1),
    "opt": (plain_opt, 1),
    "keyword": (keyword, 0),
    "star": (plain_star, 0),
    "method none": (lambda n: Plain(n).none, 0),
    "method one": (lambda n: Plain(n).one, 1),
    "method opt": (lambda n: Plain(n).opt, 1),
    "equal method": (lambda n: Equal(n).one, 1),
    "component": (lambda n: Comp(n).one, 1),
    "qobject": (lambda n: QPlain(n).none, 0),
    "qobject one": (lambda n: QPlain(n).one, 1),
    "callable": (CallableNone, 0),
    "equal callable": (EqualCallable, 0),
    "hashed callable": (HashedCallable, 0),
    "partial": (bound_log, 0),
    "lambda": (lambda n: lambda: LOG.append((n,)), 0),
    "lambda one": (lambda n: lambda v: LOG.append((n, v)), 1),
}
# Names of kinds that keep the handler, so a next rendering has the same one
KEPT = {}


def handler(spec, arity):
    """Creates the handler. 'kind!' creates a new one each time."""
    if spec is None:
        return None
    kind = spec.split("/")[0]
    if kind.endswith("!"):
        return KINDS[kind[:-1]][0](spec)
    return KEPT.setdefault(spec, KINDS[kind][0](spec))


def takes(spec):
    return KINDS[spec.split("/")[0].rstrip("!")][1]


# -- Signals and events

COUNT = itertools.count(1)


def mouse(kind):
    def fire(el):
        pos = QtCore.QPointF(1, 1)
        event = QtGui.QMouseEvent(
            kind, pos, pos, QtCore.Qt.LeftButton, QtCore.Qt.LeftButton, QtCore.Qt.NoModifier
        )
        W.QApplication.sendEvent(el, event)
        return kind.name

    return fire


def key(kind):
    def fire(el):
        event = QtGui.QKeyEvent(kind, QtCore.Qt.Key_A, QtCore.Qt.NoModifier, "a")
        W.QApplication.sendEvent(el, event)
        return kind.name

    return fire


def other(kind):
    def fire(el):
        W.QApplication.sendEvent(el, QtCore.QEvent(kind))
        return kind.name

    return fire


def text(el):
    value = f"text {next(COUNT)}"
    el.setText(value)
    return value


def value(el):
    result = 1 + el.value() % 50
    el.setValue(result)
    return result


def click(el):
    el.click()
    return el.isChecked()


def plain_text(el):
    el.setPlainText(f"text {next(COUNT)}")


def index(el):
    result = 1 - el.currentIndex()
    el.setCurrentIndex(result)
    return result


def item_text(el):
    result = f"item {next(COUNT)}"
    el.setItemText(el.currentIndex(), result)
    return result


def trigger(el):
    el.trigger()
    return el.isChecked()


def finish(el):
    n = next(COUNT) % 5
    el.done(n)
    return n


Type = QtCore.QEvent.Type
# name: (type, attributes, children, [(event, fire)]). Function `fire` returns the parameter.
SIGNALS = {
    "button": ("button", {}, (), [("clicked", click), ("mouse_button_press", mouse(Type.MouseButtonPress))]),
    "toggle": ("button", {"checkable": True}, (), [("toggled", click), ("clicked", click)]),
    "checkbox": ("checkbox", {}, (), [("toggled", click), ("key_press", key(Type.KeyPress))]),
    "lineedit": ("lineedit", {}, (), [("text_changed", text), ("text-changed", text)]),
    "spinbox": ("spinbox", {}, (), [("value_changed", value), ("enter", other(Type.Enter))]),
    "slider": ("slider", {}, (), [("value_changed", value), ("leave", other(Type.Leave))]),
    "combobox": ("combobox", {"items": ["a", "b"]}, (), [("current_index_changed", index), ("window_activate", other(Type.WindowActivate))]),
    "comboboxes": ("combobox", {"items": ["a", "b"]}, (), [("current-text-changed", item_text)]),
    "action": ("action", {"checkable": True}, (), [("toggled", trigger), ("triggered", trigger)]),
    "widget": ("widget", {}, (), [("mouse_button_release", mouse(Type.MouseButtonRelease)), ("mouse-move", mouse(Type.MouseMove))]),
    "textedit": ("textedit", {}, (), [("text_changed", plain_text), ("focus_out", other(Type.FocusOut))]),
    "groupbox": ("groupbox", {"checkable": True}, (), [("toggled", lambda el: el.setChecked(not el.isChecked()) or el.isChecked()), ("key_release", key(Type.KeyRelease))]),
    "treewidget": ("treewidget", {}, ("treewidgetitem",), [("item_selection_changed", lambda el: el.topLevelItem(0).setSelected(not el.topLevelItem(0).isSelected())), ("mouse_button_dbl_click", mouse(Type.MouseButtonDblClick))]),
    "tabs": ("QTabWidget", {}, ("label", "label"), [("current_changed", index), ("language_change", other(Type.LanguageChange))]),
    "dialog": ("QDialog", {}, (), [("finished", finish), ("style_change", other(Type.StyleChange))]),
}
CONTAINER = {"action": "menu"}


def kinds_for(name, event):
    """Kinds of handlers that can be used for the event"""
    if is_signal_without(name, event):
        return [k for k in KINDS if not KINDS[k][1] or k in ("opt", "method opt")]
    if is_event(event):
        return [k for k in KINDS if KINDS[k][1]]
    return list(KINDS)


def is_event(event):
    return event.replace("-", "_") in {
        "mouse_button_press", "key_press", "enter", "leave", "mouse_button_release",
        "mouse_move", "focus_out", "key_release", "mouse_button_dbl_click",
        "language_change", "style_change", "window_activate",
    }


def is_signal_without(name, event):
    return (name, event) in {
        ("treewidget", "item_selection_changed"), ("textedit", "text_changed"),
    }


def build(name, events):
    type, attrs, kids, _ = SIGNALS[name]

    def element(key, handlers):
        props = dict(attrs, key=key, object_name=key)
        for event, spec in zip(events, handlers):
            if spec is not None:
                props[f"on_{event}"] = handler(spec, 1)
        return cg.h(type, props, *(h(k) for k in kids))

    def render(state):
        return h(
            CONTAINER.get(name, "widget"), *(element(k, handlers) for k, handlers in state)
        )

    return render


def tasks(tier):
    result = []
    for name in SIGNALS:
        events = [e for e, _ in SIGNALS[name][3]]
        for i, event in enumerate(events):
            kinds = kinds_for(name, event)
            # Two handlers of each kind, and new ones
            for one, two in itertools.combinations_with_replacement(kinds, 2):
                if name not in ("button", "lineedit", "widget") and one != two:
                    if tier == "quick" and (kinds.index(one) + kinds.index(two)) % 4:
                        continue
                result.append(["kinds", name, i, [one, two], 2 if tier == "quick" else 3])
        result.append(["events", name, tier])
    result.extend(["reentrant", name, kind] for name in REENTRANT for kind in ("method", "function", "lambda", "new"))
    result.extend(["default", name, tier] for name in NATIVE)
    size = 12 if tier == "quick" else 40
    return [result[i::len(result) // size + 1] for i in range(len(result) // size + 1)]


# -- Handlers that change the state while they are called

REENTRANT = [
    "button", "toggle", "checkbox", "lineedit", "spinbox", "combobox", "action",
    "widget", "dialog", "groupbox",
]
STATES = ["", "a", "b", "ab", "ba", "aB", "Ab", "Ba", "ab.", "abc"]


def describe(root):
    """Describes the widget, without what is changed by firing the events"""
    from mc import qt

    result = qt.dump(root)[0]
    if "layout" in result:
        for child in result["layout"][1]:
            child.pop("current", None)
    result["children"] = [name for name, _ in result["children"]]
    # Dialogs are finished by the events
    result.pop("dialogs", None)
    return result


def run_reentrant(res, name, kind):
    """The handler sets the next state. In state 'ab' both elements have a handler, upper
    case has another handler, and c has no handler."""
    from mc import qt

    event, fire = SIGNALS[name][3][0]
    type, attrs, kids, _ = SIGNALS[name]
    calls = []
    errors = []
    sys.excepthook = lambda *args: errors.append(args[1])

    # The elements that are shown when an event is fired. Whether elements call handlers
    # when they are created (and their attributes are set) does not matter here.
    shown = ""

    def advance(spec):
        if spec not in shown:
            return
        LOG.append((spec,))
        gui.set(path[1 + path.index(gui.data["s"])])

    class Handlers:
        def __init__(self, spec):
            self.spec = spec

        def one(self, value):
            advance(self.spec)

        def none(self):
            advance(self.spec)

    kept = {}

    def handler(spec):
        if kind == "method":
            return kept.setdefault(spec, Handlers(spec)).one
        if kind == "function":
            return kept.setdefault(spec, Handlers(spec).one)
        if kind == "lambda":
            return lambda value: advance(spec)
        return Handlers(spec).one

    def render(state):
        elements = []
        for key in state:
            if key == ".":
                continue
            props = dict(attrs, key=key.lower(), object_name=key.lower())
            if key != "c":
                props[f"on_{event}"] = handler(key)
            if "." in state:
                props["tool_tip"] = "tip"
            elements.append(cg.h(type, props, *(h(k) for k in kids)))
        return h(CONTAINER.get(name, "widget"), *elements)

    fresh = {}
    path = []
    for state in STATES:
        gui = qt.Gui(render, state, show=True)
        qt.process_events()
        fresh[state] = describe(gui.root)
        gui.container.hide()
    for path in itertools.permutations(STATES, 3):
        if not path[0]:
            continue
        for key in path[0]:
            if key in ".c":
                continue
            watchdog()
            LOG.clear()
            gui = qt.Gui(render, path[0], show=True)
            for step in (1, 2):
                if key.lower() not in path[step - 1].lower():
                    break
                el = find(gui.root, key.lower())
                before = list(LOG)
                spec = next(k for k in path[step - 1] if k.lower() == key.lower())
                shown = path[step - 1]
                fire(el)
                qt.process_events()
                shown = ""
                label = f"{name} {event} {kind} {path} {key} {step}"
                res.transitions += 1
                res.validated += 1
                if errors:
                    raise Violation(f"{label}: {errors[0]!r}")
                if LOG != before + [(spec,)]:
                    raise Violation(f"{label}: called {LOG[len(before):]}")
                actual = describe(gui.root)
                if actual != fresh[path[step]]:
                    raise Violation(
                        f"{label}: differs from a new rendering:\n{actual}\n{fresh[path[step]]}"
                    )
            gui.container.hide()
            gui = el = None
        gc.collect(1)
    res.states += len(STATES)


# -- Elements still handle their events themselves, and pass others on to their parents

INPUTS = {
    "click": lambda el: QtTest.QTest.mouseClick(
        el, QtCore.Qt.LeftButton, pos=QtCore.QPoint(8, el.height() // 2)
    ),
    "double": lambda el: QtTest.QTest.mouseDClick(el, QtCore.Qt.LeftButton),
    "space": lambda el: QtTest.QTest.keyClick(el, QtCore.Qt.Key_Space),
    "up": lambda el: QtTest.QTest.keyClick(el, QtCore.Qt.Key_Up),
    "one": lambda el: QtTest.QTest.keyClick(el, "1"),
    "enter": lambda el: W.QApplication.sendEvent(el, QtCore.QEvent(Type.Enter)),
}
USED = {
    "mouse_button_press": "MouseButtonPress", "mouse-button-release": "MouseButtonRelease",
    "mouse_button_dbl_click": "MouseButtonDblClick", "key_press": "KeyPress",
    "key-release": "KeyRelease", "enter": "Enter",
}
NATIVE = {
    "button": W.QPushButton, "checkbox": W.QCheckBox, "lineedit": W.QLineEdit,
    "slider": W.QSlider, "spinbox": W.QSpinBox, "label": W.QLabel, "textedit": W.QTextEdit,
}
# An event of the element, and one of its parent
HANDLED = [
    *itertools.product([None, *USED], [None, "mouse_button_press", "key_press", "enter"]),
    ("mouse_button_press", "mouse-button-release"),
]


class Recorder(QtCore.QObject):
    """Reference: an event filter that logs"""

    def __init__(self, name, kinds):
        super().__init__()
        self.name = name
        self.kinds = kinds

    def eventFilter(self, obj, event):
        if event.type().name in self.kinds:
            LOG.append((self.name, event.type().name))
        return False


def observe(el):
    result = []
    for attr in ("text", "value", "isChecked", "toPlainText"):
        if hasattr(el, attr):
            result.append(getattr(el, attr)())
    return result


def run_default(res, name, tier):
    """Compares with plain widgets and event filters, for each pair of states"""
    from mc import qt

    def log(name, event):
        LOG.append((name, event.type().name))

    def render(state):
        one, two = state
        attrs = {"object_name": "el"}
        if name == "checkbox":
            attrs["checkable"] = True
        if one:
            attrs[f"on_{one}"] = lambda event: log("el", event)
        outer = {"object_name": "parent"}
        if two:
            outer[f"on_{two}"] = lambda event: log("parent", event)
        return cg.h("widget", outer, cg.h(name, attrs))

    qt.app()
    expected = {}
    alive = []
    for state in HANDLED:
        for action in INPUTS:
            root = W.QWidget()
            layout = W.QVBoxLayout()
            root.setLayout(layout)
            el = NATIVE[name]()
            layout.addWidget(el)
            root.show()
            qt.process_events()
            one = Recorder("el", [USED.get(state[0])])
            two = Recorder("parent", [USED.get(state[1])])
            el.installEventFilter(one)
            root.installEventFilter(two)
            LOG.clear()
            INPUTS[action](el)
            qt.process_events()
            expected[state, action] = list(LOG), observe(el)
            root.hide()
            alive.append((root, layout, el, one, two))
    for first, second in itertools.product(HANDLED[:: 3 if tier == "quick" else 1], HANDLED):
        watchdog()
        for action in INPUTS:
            gui = qt.Gui(render, first, show=True)
            qt.process_events()
            gui.set(second)
            el = gui.root.findChild(W.QWidget, "el")
            LOG.clear()
            INPUTS[action](el)
            qt.process_events()
            actual = list(LOG), observe(el)
            if actual != expected[second, action]:
                raise Violation(
                    f"{name}: handlers {first}, then {second}: {action} gives {actual} "
                    f"instead of {expected[second, action]}"
                )
            res.transitions += 1
            res.validated += 1
            gui.container.hide()
            qt.process_events()
            gui = el = None
        gc.collect(1)
    res.states += len(HANDLED)


def run_task(task):
    gc.disable()
    res = Result()
    for item in task:
        watchdog()
        if item[0] == "kinds":
            run_kinds(res, *item[1:])
        elif item[0] == "events":
            run_events(res, *item[1:])
        elif item[0] == "default":
            run_default(res, *item[1:])
        else:
            run_reentrant(res, *item[1:])
        gc.collect()
    return res


def run_kinds(res, name, i, kinds, k):
    """One event with two kinds of handlers on an element"""
    event, fire = SIGNALS[name][3][i]
    one, two = kinds
    choices = [None, f"{one}/A", f"{two}/B", f"{one}!/C", f"{two}!/D"]
    states = [(("a", (c,)),) for c in choices] + [(), (("b", (choices[1],)), ("a", (choices[2],)))]
    states.append((("a", (choices[3],)), ("b", (choices[1],))))
    explore(res, f"{name} {event} {kinds}", name, [(event, fire)], states, k)


def run_events(res, name, tier):
    """All events with a few kinds of handlers on two elements"""
    events = SIGNALS[name][3]
    options = []
    for event, _ in events:
        if is_event(event):
            options.append([None, "method one/A", "lambda one!/B"])
        elif is_signal_without(name, event):
            options.append([None, "method none/A", "lambda!/B"])
        else:
            options.append([None, "method none/A", "lambda one!/B"])
    choices = list(itertools.product(*options))
    states = [()]
    states += [(("a", c),) for c in choices]
    few = choices[::2] if tier != "quick" else choices[::4]
    states += [(("a", c), ("b", d)) for c in few for d in few]
    states += [(("b", c), ("a", d)) for c in few for d in few]
    explore(res, f"{name} events", name, events, states, 2)


def find(root, name):
    if isinstance(root, W.QMenu):
        return next(a for a in root.actions() if a.objectName() == name)
    return root.findChild(W.QWidget, name)


def explore(res, label, name, events, states, k):
    from mc import qt

    KEPT.clear()
    render = build(name, [e for e, _ in events])
    history = [states[i] for i in de_bruijn(len(states), k)]
    trace = []
    gui = None
    errors = []
    sys.excepthook = lambda *args: errors.append(args[1])

    def fail(msg):
        e = Violation(f"{label}: {msg}\n  " + "\n  ".join(map(str, trace[-4:])))
        e.signature = f"{label}: {msg.splitlines()[0]}"
        e.trace = list(map(str, trace))
        raise e

    for step, state in enumerate(history):
        if step % 100 == 0:
            watchdog()
            trace[:] = []
            start = history[step - 1] if step else ()
            if gui:
                gui.container.hide()
                gui = None
                gc.collect()
            gui = qt.Gui(render, start, show=True)
            trace.append(start)
            trace.append(state)
        try:
            gui.set(state)
        except Exception as e:
            fail(f"{type(e).__name__}: {e}")
        qt.process_events()
        root = gui.root
        for key_, handlers in state:
            el = find(root, key_)
            for (event, fire), spec in zip(events, handlers):
                LOG.clear()
                param = fire(el)
                # Firing one event might lead to another signal
                expected = expect(name, events, handlers, fire, param)
                actual = sorted(map(norm, LOG), key=str)
                if errors:
                    fail(f"{event} of {key_}: {errors.pop(0)!r}")
                if actual != expected:
                    fail(f"{event} of {key_} called {actual} instead of {expected}")
                res.validated += 1
        res.transitions += 1
    res.states += len(states)
    res.sample(f"{label}: {states[-1]}")


def norm(entry):
    name, *args = entry
    args = [a.type().name if isinstance(a, QtCore.QEvent) else a for a in args]
    return (name, *args)


def expect(name, events, handlers, fire, param):
    result = []
    for (event, other_fire), spec in zip(events, handlers):
        if spec is None or other_fire is not fire:
            continue
        if takes(spec):
            result.append((spec, param if param is not None else "default"))
        else:
            result.append((spec,))
    return sorted(result, key=str)
