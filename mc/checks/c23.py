"""Names and types that are registered for the PySideRenderer apply whenever they are used"""
import itertools
import os
import warnings

import collagraph as cg
from collagraph.renderers import pyside_renderer
from PySide6 import QtCore
from PySide6 import QtWidgets as W

from mc.engine import Result, Violation, watchdog
from mc.qt import app

ID = "C23"
LEVEL = "model_checking"
ISOLATE = True
RULE = """All sequences (of a bounded length) of registrations of elements, layouts, methods
for inserting, removing and setting attributes, and custom attributes, with elements that are
created in between. At the end of each one all names are created and compared with the
registrations: the type, the methods (those of the most specific type) and layouts."""


class W1(W.QWidget):
    pass


class W2(W1):
    pass


class B1(W.QPushButton):
    pass


class L1(W.QHBoxLayout):
    pass


class L2(W.QVBoxLayout):
    pass


class Nope(QtCore.QObject):
    pass


CLASSES = {c.__name__: c for c in (W1, W2, B1, L1, L2, Nope)}
CLASSES.update({c: getattr(W, c) for c in ("QLabel", "QPushButton", "QBoxLayout", "QSlider")})

# Operations and the names that are checked
ELEMENTS = [
    ("Foo", "W1"), ("f-o_O", "W2"), ("foo", "B1"), ("button", "W1"), ("Grid", "W1"),
    ("tool-x", "B1"), ("QLabel", "B1"), ("Foo", "Nope"),
]
LAYOUTS = [
    ("Row", "L1"), ("r-o-w", "L2"), ("my_Row", "L1"), ("box", "L2"), ("Foo", "L1"),
    ("grid", "Nope"), ("label", "L2"),
]
METHODS = [
    ("insert", "W1"), ("insert", "QPushButton"), ("insert", "L1"), ("set_attr", "W2"),
    ("set_attr", "B1"), ("set_attr", "QLabel"), ("remove", "W2"), ("remove", "QSlider"),
    ("remove", "L1"),
]
CUSTOM = [("custom", "one"), ("custom", "two"), ("text", "three")]
OPS = (
    [("element", *op) for op in ELEMENTS]
    + [("layout", *op) for op in LAYOUTS]
    + [("method", *op) for op in METHODS]
    + [("custom", *op) for op in CUSTOM]
    + [("create",)]
)
NAMES = [
    "Foo", "foo", "F-oO", "f_oo", "button", "Button", "QPushButton", "grid", "tool-x", "ToolX",
    "QLabel", "qlabel", "label", "slider", "widget", "groupbox",
]
LAYOUT_NAMES = ["row", "Row", "R_ow", "my-row", "box", "Box", "foo", "grid", "label", "nope"]
BUILTIN = {
    "button": W.QPushButton, "grid": W.QGridLayout, "label": W.QLabel, "slider": W.QSlider,
    "widget": W.QWidget, "groupbox": W.QGroupBox, "box": W.QBoxLayout,
    "qpushbutton": W.QPushButton, "qlabel": W.QLabel,
}
# Names within types of PySide6, that might be names of elements as well
NESTED = {
    "QBoxLayout.Direction": W.QBoxLayout.Direction,
    "QBoxLayout.Direction.TopToBottom": W.QBoxLayout.Direction.TopToBottom,
    "qframe.Box": W.QFrame.Box,
    "Orientation.Horizontal": QtCore.Qt.Orientation.Horizontal,
}
LOG = []


def normal(name):
    return name.lower().replace("-", "").replace("_", "")


class Model:
    """What is registered, according to the operations"""

    def __init__(self):
        self.elements = {
            k: v for k, v in BUILTIN.items() if k not in ("grid", "box", "qpushbutton", "qlabel")
        }
        self.layouts = {"box": W.QBoxLayout, "grid": W.QGridLayout}
        self.methods = {"insert": {}, "set_attr": {}, "remove": {}}
        self.custom = {}

    def type(self, name):
        for mapping in (self.elements, self.layouts, BUILTIN):
            if normal(name) in mapping:
                return mapping[normal(name)]
        if (base := getattr(W, name, None)) is not None:
            return base
        return None

    def method(self, kind, type):
        """The registered method of the most specific type. None for those of collagraph"""
        options = self.methods[kind]
        for base in type.__mro__:
            if base in options:
                return options[base]
            if base in OWN[kind]:
                return None
        return None


# Types for which collagraph registers methods (all of those that are used here)
OWN = {
    "insert": [W.QWidget, W.QBoxLayout, W.QGridLayout, W.QLayout],
    "remove": [W.QWidget, W.QLayout],
    "set_attr": [W.QWidget, W.QLayout],
}


def method(kind, name):
    def insert(self, el, anchor=None):
        LOG.append((kind, name))

    def remove(self, el):
        LOG.append((kind, name))

    def set_attr(self, attr, value):
        LOG.append((kind, name))

    return locals()[kind]


def attribute(label):
    def custom(el, attr, value):
        LOG.append(("custom", label))

    return custom


def perform(op, model, renderer, decorator):
    kind, *args = op
    if kind == "create":
        verify(model, renderer)
        return
    if kind in ("element", "layout"):
        name, cls = args
        base = W.QWidget if kind == "element" else W.QLayout
        mapping = model.elements if kind == "element" else model.layouts
        known = normal(name) in mapping
        allowed = issubclass(CLASSES[cls], base)
        register = getattr(cg.PySideRenderer, f"register_{kind}")
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                if decorator:
                    result = register(name)(CLASSES[cls])
                    if result is not CLASSES[cls]:
                        raise Violation("decorator does not return the class")
                else:
                    register(name, CLASSES[cls])
                error = False
            except TypeError:
                error = True
        if error == allowed:
            raise Violation(f"registering {name} as {cls} is {'not ' * error}allowed")
        if bool(caught) != known:
            raise Violation(f"registering {name} as {cls}: {len(caught)} warnings")
        if allowed:
            mapping[normal(name)] = CLASSES[cls]
    elif kind == "method":
        what, cls = args
        f = method(what, cls)
        register = getattr(cg.PySideRenderer, f"register_{what}")
        if decorator:
            if register(CLASSES[cls])(f) is not f:
                raise Violation("decorator does not return the function")
        else:
            register(CLASSES[cls], func=f)
        model.methods[what][CLASSES[cls]] = (what, cls)
    else:
        name, label = args
        f = attribute(label)
        if decorator:
            cg.PySideRenderer.register_custom_attribute(name, "other")(f)
        else:
            cg.PySideRenderer.register_custom_attribute(name, "other", func=f)
        model.custom[name] = model.custom["other"] = ("custom", label)


def calls(f, *args, **kwargs):
    LOG.clear()
    try:
        f(*args, **kwargs)
    except Exception:
        # Only which registered function is called matters
        pass
    return list(LOG)


def expect(what, actual, expected):
    if actual != expected:
        raise Violation(f"{what}: {actual} instead of {expected}")


def verify(model, renderer):
    for name in NAMES:
        expected = model.type(name)
        try:
            el = renderer.create_element(name)
        except TypeError as e:
            if expected is not None:
                raise Violation(f"element {name}: {e}")
            continue
        if expected is None or expected not in type(el).__mro__[:2]:
            raise Violation(f"element {name} is a {type(el).__mro__[1]} instead of {expected}")
        again = renderer.create_element(name)
        if type(again) is not type(el):
            raise Violation(f"types of two elements {name} differ")
        check_methods(name, el, expected, model, renderer)
    name_to_type = getattr(pyside_renderer, "name_to_type", None)
    for name, expected in NESTED.items() if name_to_type else ():
        try:
            found = name_to_type(name)
        except TypeError as e:
            raise Violation(f"{name}: {e}")
        if found is not expected:
            raise Violation(f"{name} is {found} instead of {expected}")
    for name in LAYOUT_NAMES:
        expected = model.layouts.get(normal(name))
        el = renderer.create_element("widget")
        try:
            renderer.set_attribute(el, "layout", {"type": name})
        except RuntimeError:
            if expected is not None:
                raise Violation(f"layout {name} is not found")
            continue
        except Exception as e:
            raise Violation(f"layout {name}: {type(e).__name__}: {e}")
        layout = el.layout()
        if expected is None or expected not in type(layout).__mro__[:2]:
            raise Violation(f"layout {name} is a {type(layout).__mro__} instead of {expected}")
        check_methods(name, layout, expected, model, None)


def check_methods(name, el, expected, model, renderer):
    child = W.QWidget()
    anchor = W.QWidget()
    for kind, f, args in (
        ("insert", el.insert, (child, anchor)),
        ("remove", el.remove, (child,)),
        ("set_attr", el.set_attribute, ("toolTip", "x")),
    ):
        method = model.method(kind, expected)
        called = calls(f, *args)
        expect(f"{kind} of {name}", called, [method] if method else [])
    if renderer is None or isinstance(el, W.QLayout):
        return
    for attr in ("custom", "other", "text", "tool_tip"):
        called = calls(renderer.set_attribute, el, attr, "x")
        method = model.custom.get(attr) or model.method("set_attr", expected)
        expect(f"attribute {attr} of {name}", called, [method] if method else [])


def explore(ops, decorator):
    app()
    renderer = cg.PySideRenderer(autoshow=False)
    model = Model()
    for op in ops:
        perform(op, model, renderer, decorator)
    verify(model, renderer)


def allowed(ops):
    """Repeated registrations of methods for the same type are not claimed"""
    methods = [op for op in ops if op[0] == "method"]
    return len(set(methods)) == len(methods)


def tasks(tier):
    quick = tier == "quick"
    length = 2 if quick else 3
    sequences = []
    for k in range(length + 1):
        for ops in itertools.product(range(len(OPS)), repeat=k):
            if allowed([OPS[i] for i in ops]):
                sequences.append(list(ops))
    if quick:
        # Registrations after elements have been created
        create = len(OPS) - 1
        sequences += [
            [create, *ops]
            for ops in itertools.product(range(len(OPS) - 1), repeat=2)
            if allowed([OPS[i] for i in ops])
        ]
    n = 64
    return [sequences[i::n] for i in range(n)]


def run_task(sequences):
    res = Result()
    for n, ops in enumerate(sequences):
        watchdog()
        ops = [OPS[i] for i in ops]
        run_forked(ops, bool(n % 2))
        res.states += 1
        res.transitions += len(ops) + 1
        res.validated += 1
        res.sample(f"{ops}")
    return res


def run_forked(ops, decorator):
    """Registrations are kept for the process: use one for each sequence"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            explore(ops, decorator)
            msg = ""
        except Violation as e:
            msg = f"V{e}"
        except BaseException as e:
            msg = f"{'V' if isinstance(e, Exception) else 'E'}{type(e).__name__}: {e}"
        os.write(w, msg.encode()[:60000])
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        msg = f.read().decode()
    _, status = os.waitpid(pid, 0)
    if status:
        msg = f"Vprocess ends with {status}"
    if msg:
        e = Violation(f"{msg[1:]}\n  after {ops}")
        e.trace = [str(op) for op in ops]
        raise e
