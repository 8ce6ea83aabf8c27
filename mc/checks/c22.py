"""Dicts, (a model of) the DOM and scenes of pygfx are the same as a new rendering"""
import gc
import itertools
import sys
import types

import collagraph as cg
from observ import reactive

from mc.engine import Result, Violation, watchdog
from mc.ui import de_bruijn

ID = "C22"
LEVEL = "model_checking"
# The pygfx renderer keeps default values
ISOLATE = True
RULE = """All sequences (of a bounded length) of ordered selections of children, of values
for (pairs and triples of) attributes and of handlers are rendered by the DictRenderer, the
DomRenderer (with an implementation of the operations of the DOM that raises errors as
browsers do) and the PygfxRenderer (with real scenes). After each step the tree, its
attributes and its handlers are compared with those of a new rendering and with the order
that was rendered, elements that remain should be the same objects, and all events are
fired."""


def h(type, *args, **attrs):
    return cg.h(type, attrs, *args)


# -- The parts of the DOM that are used: nodes raise errors as those of browsers do


class Node:
    def __init__(self):
        self.parentNode = None
        self.childNodes = []

    def _take(self, el):
        if not isinstance(el, Node):
            raise TypeError("parameter is not of type 'Node'")
        up = self
        while up is not None:
            if up is el:
                raise RuntimeError("HierarchyRequestError")
            up = up.parentNode
        if el.parentNode is not None:
            el.parentNode.removeChild(el)

    def appendChild(self, el):
        self._take(el)
        el.parentNode = self
        self.childNodes.append(el)
        return el

    def insertBefore(self, el, anchor):
        if not any(n is anchor for n in self.childNodes):
            raise RuntimeError("NotFoundError: anchor is not a child of this node")
        self._take(el)
        el.parentNode = self
        index = next(i for i, n in enumerate(self.childNodes) if n is anchor)
        self.childNodes.insert(index, el)
        return el

    def removeChild(self, el):
        for i, n in enumerate(self.childNodes):
            if n is el:
                del self.childNodes[i]
                el.parentNode = None
                return el
        raise RuntimeError("NotFoundError: the node is not a child of this node")


class Text(Node):
    def __init__(self, text):
        super().__init__()
        self.textContent = text

    def appendChild(self, el):
        raise RuntimeError("HierarchyRequestError")


class Element(Node):
    def __init__(self, tag):
        super().__init__()
        self.tagName = tag
        self.attributes = {}
        self.listeners = []

    def setAttribute(self, name, value):
        self.attributes[name] = str(value)

    def removeAttribute(self, name):
        self.attributes.pop(name, None)

    def addEventListener(self, kind, f):
        if not any(k == kind and g is f for k, g in self.listeners):
            self.listeners.append((kind, f))

    def removeEventListener(self, kind, f):
        self.listeners = [(k, g) for k, g in self.listeners if not (k == kind and g is f)]


def dom_renderer():
    js = types.ModuleType("js")
    js.window = types.SimpleNamespace(
        document=types.SimpleNamespace(createElement=Element, createTextNode=Text)
    )
    sys.modules["js"] = js
    from collagraph.renderers.dom_renderer import DomRenderer

    return DomRenderer()


class Dom:
    texts = True
    types = ["div", "p"]

    def renderer(self):
        return dom_renderer()

    def container(self):
        return Element("body")

    value = staticmethod(str)

    def children(self, el):
        for child in el.childNodes:
            if child.parentNode is not el:
                raise Violation("parent of a node is wrong")
        return el.childNodes

    def describe(self, el, attrs):
        if isinstance(el, Text):
            return el.textContent
        return [
            el.tagName, dict(sorted(el.attributes.items())),
            sorted(k for k, _ in el.listeners), [self.describe(c, attrs) for c in self.children(el)],
        ]

    def name(self, el):
        return getattr(el, "attributes", {}).get("name")

    def fire(self, el, event):
        for kind, f in list(el.listeners):
            if kind == event:
                f("event")


class Dict:
    texts = True
    types = ["div", "p"]

    def renderer(self):
        return cg.DictRenderer()

    def container(self):
        return {"type": "root"}

    value = staticmethod(lambda value: value)

    def children(self, el):
        return el.get("children", [])

    def describe(self, el, attrs):
        unknown = set(el) - {"type", "attrs", "handlers", "children", "text"}
        if unknown:
            raise Violation(f"unknown keys {unknown}")
        if el["type"] == "TEXT_ELEMENT":
            return el["text"]
        return [
            el["type"], dict(sorted(el.get("attrs", {}).items())),
            sorted(k for k, fs in el.get("handlers", {}).items() for f in fs),
            [self.describe(c, attrs) for c in self.children(el)],
        ]

    def name(self, el):
        return el.get("attrs", {}).get("name")

    def fire(self, el, event):
        for f in list(el.get("handlers", {}).get(event, ())):
            f("event")


class Pygfx:
    texts = False
    types = ["Mesh", "Group"]

    def renderer(self):
        return cg.PygfxRenderer()

    def container(self):
        import pygfx

        return pygfx.Scene()

    def children(self, el):
        for child in el.children:
            if child.parent is not el:
                raise Violation("parent of an object is wrong")
        return el.children

    def describe(self, el, attrs):
        values = {}
        for attr in attrs:
            obj = el
            for part in attr.split("."):
                obj = getattr(obj, part, "(none)")
            values[attr] = plain(obj)
        return [
            type(el).__name__, values, sorted(k for k, fs in el._event_handlers.items() for f in fs),
            [self.describe(c, attrs) for c in self.children(el)],
        ]

    def name(self, el):
        return getattr(el, "name", None)

    def fire(self, el, event):
        import pygfx

        el.handle_event(pygfx.Event(event))


def plain(value):
    if hasattr(value, "tolist"):
        return value.tolist()
    if hasattr(value, "hex") and not isinstance(value, float):
        return value.hex
    return value


TARGETS = {"dict": Dict, "dom": Dom, "pygfx": Pygfx}


class Tree:
    """The state, rendered with a renderer"""

    def __init__(self, target, build, state, attrs=()):
        self.target = target
        self.attrs = attrs
        self.data = reactive({"s": state})
        self.container = target.container()
        self.gui = cg.Collagraph(
            renderer=target.renderer(), event_loop_type=cg.EventLoopType.SYNC
        )

        def root(props):
            return build(self.data["s"])

        self.gui.render(cg.h(root), self.container)

    @property
    def root(self):
        (root,) = self.target.children(self.container)
        return root

    def set(self, state):
        self.data["s"] = state

    def describe(self):
        return self.target.describe(self.root, self.attrs)

    def found(self):
        result = {}

        def visit(el):
            name = self.target.name(el)
            if name is not None:
                result[name] = el
            for child in self.target.children(el):
                visit(child)

        visit(self.root)
        return result


# -- Orders


def children_builders(target):
    one, two = target.types

    def leaf(key, **attrs):
        return h(one, key=key, name=key, **attrs)

    def nested(key):
        return h(two, leaf(key + "1"), leaf(key + "2"), key=key, name=key)

    def text(key):
        return cg.h(one, {"key": key, "name": key}, f"text {key}")

    def component(key):
        return cg.h(Part, {"key": key, "label": key})

    class Part(cg.Component):
        def render(self):
            return nested(self.props["label"])

    def function(props):
        return leaf(props["label"])

    def functional(key):
        return cg.h(function, {"key": key, "label": key})

    def group(key):
        return cg.h("template", {"key": key}, leaf(key + "1"), leaf(key + "2"))

    kinds = {
        "leaf": leaf, "nested": nested, "component": component, "function": functional,
        "group": group,
    }
    if target.texts:
        kinds["text"] = text
    return kinds


def wrappers(target):
    one, two = target.types
    first, last = (h(one, name=n, key=n) for n in ("first", "last"))
    result = {
        "plain": lambda kids: h(two, *kids),
        "between": lambda kids: h(
            two, h(one, name="first", key="first"), *kids, h(one, name="last", key="last")
        ),
        "twice": lambda kids: h(
            two,
            *kids,
            h(one, name="middle", key="middle"),
            *(h(one, name=str(i)) for i, _ in enumerate(kids)),
        ),
        "deep": lambda kids: h(two, h(two, h(two, *kids), h(one))),
        "template": lambda kids: h(two, h("template", *kids), h(one, name="last")),
    }
    if target.texts:
        result["texts"] = lambda kids: h(
            two, "before", *kids, f"after {len(kids)}", h(one, "x" * len(kids))
        )
    return result


def selections(keys):
    return [p for r in range(len(keys) + 1) for p in itertools.permutations(keys, r)]


def run_orders(res, target, wrapper, kinds, keys, k):
    build_child = children_builders(target)
    wrap = wrappers(target)[wrapper]
    by_key = dict(zip(keys, itertools.cycle(build_child[kind] for kind in kinds)))

    def build(state):
        return wrap([by_key[key](key) for key in state])

    def order(tree, state):
        found = tree.found()
        names = [n for n in found if n[0] in state]
        expected = []
        for key in state:
            kind = kinds[keys.index(key) % len(kinds)]
            if kind != "group":
                expected.append(key)
            if kind in ("nested", "component", "group"):
                expected.extend([key + "1", key + "2"])
        if names != expected:
            return f"order is {names} instead of {expected}"
        return None

    explore(res, f"{wrapper} {kinds}", target, build, selections(keys), k, order=order)


# -- Attributes

PYGFX_ATTRS = {
    "local.position": [(1, 2, 3), (4, 5, 6)],
    "local.rotation": [(0, 1, 0, 0), (1, 0, 0, 0)],
    "local.scale": [(2, 2, 2), (3, 1, 1)],
    "visible": [False, True],
    "render_order": [3, 7.5],
    "cast_shadow": [True, False],
    "receive_shadow": [True, False],
    "name": ["one", "two"],
    "custom": [1, "text"],
}
LIGHT_ATTRS = {
    "color": [(1, 0, 0, 1), (0, 1, 0, 1)],
    "intensity": [2, 3.5],
    "distance": [4, 5],
    "decay": [1.5, 3],
    "visible": [False, True],
    "local.position": [(1, 2, 3), (4, 5, 6)],
    "local.x": [7, 8],
    "shadow.bias": [0.5, 0.25],
    "shadow.camera.fov": [50, 70],
    "shadow.camera.local.position": [(1, 2, 3), (4, 5, 6)],
}
CAMERA_ATTRS = {
    "fov": [20, 80], "depth_range": [(1, 2), (2, 3)], "zoom": [2, 3], "maintain_aspect": [False, True],
    "local.z": [5, 9], "local.rotation": [(0, 1, 0, 0), (1, 0, 0, 0)],
    "local.scale_y": [2, 3],
}
PLAIN_ATTRS = {
    "id": ["a", ""], "class": ["x", "y"], "value": [0, 1, "1"], "data-x": [True, False],
    "style": ["s", "t"],
}
PYGFX_TYPES = {
    "Mesh": PYGFX_ATTRS, "group": PYGFX_ATTRS, "point-light": LIGHT_ATTRS,
    "PerspectiveCamera": CAMERA_ATTRS, "Line": PYGFX_ATTRS,
}
# Pairs of attributes that change each other
DEPENDENT = [{"local.position", "local.x"}, {"shadow.bias"}]


def run_attributes(res, target, type, names, situation):
    attrs = PYGFX_TYPES[type] if isinstance(target, Pygfx) else PLAIN_ATTRS
    options = [[None, *range(len(attrs[n]))] for n in names]
    states = [None]
    for combi in itertools.product(*options):
        states.append({n: attrs[n][i] for n, i in zip(names, combi) if i is not None})
    extra = {n: v[0] for n, v in attrs.items()} if situation == "next" else None
    two = target.types[1]

    def build(state):
        kids = []
        if extra is not None:
            kids.append(cg.h(type, {**extra, "key": "extra"}))
        if state is not None:
            kids.append(cg.h(type, {**state, "key": "el"}))
        # Objects within a group that is somewhere else
        attrs = {"local.position": (10, 20, 30)} if isinstance(target, Pygfx) else {}
        return cg.h(two, attrs, *kids)

    def check(tree, state):
        """Compares the values of attributes with those that were given"""
        for el, given in zip(target.children(tree.root), (extra, state) if extra else (state,)):
            if given is None:
                continue
            actual = target.describe(el, attrs)[1]
            if isinstance(target, Pygfx):
                el = getattr(pygfx, {"group": "Group", "point-light": "PointLight"}.get(type, type))()
                for name, value in given.items():
                    *path, last = name.split(".")
                    obj = el
                    for part in path:
                        obj = getattr(obj, part)
                    setattr(obj, last, value)
                expected = target.describe(el, attrs)[1]
            else:
                expected = {k: target.value(v) for k, v in given.items()}
                actual = {k: v for k, v in actual.items() if k != "key"}
            if actual != expected:
                return f"attributes are {actual} instead of {expected}"

    if isinstance(target, Pygfx):
        import pygfx
    explore(
        res, f"{type} {names} ({situation})", target, build, states, 2, attrs=attrs,
        order=check,
    )


def change_by_user(target, type):
    """The first attribute that is set is set on an object that the user has changed"""
    renderer = target.renderer()
    el = renderer.create_element(type)
    attrs = PYGFX_TYPES[type]
    for attr, values in attrs.items():
        *path, last = attr.split(".")
        obj = el
        for part in path:
            obj = getattr(obj, part)
        if hasattr(obj, last):
            setattr(obj, last, values[-1])
    for attr, values in attrs.items():
        renderer.set_attribute(el, attr, values[0])


# -- Handlers

LOG = []


class Handler:
    def __init__(self, name):
        self.name = name

    def method(self, event):
        LOG.append(self.name)

    def __call__(self, event):
        LOG.append(self.name)


def run_events(res, target, kind, k):
    event = "click"
    kept = {}

    def handler(name):
        if name.endswith("!"):
            return (lambda: lambda event: LOG.append(name))()
        if kind == "method":
            return kept.setdefault(name, Handler(name)).method
        if kind == "callable":
            return kept.setdefault(name, Handler(name))
        return kept.setdefault(name, lambda event: LOG.append(name))

    one, two = target.types

    def build(state):
        kids = []
        for key, names in state:
            props = {"key": key, "name": key}
            for event, name in zip(("click", "key_down"), names):
                if name:
                    props[f"on_{event}"] = handler(name)
            kids.append(cg.h(one, props))
        return h(two, *kids)

    options = [None, "A", "B", "C!"]
    states = [()]
    states += [(("a", (x, y)),) for x in options for y in options]
    states += [(("b", (x, "A")), ("a", ("A", x))) for x in options]
    states += [(("a", (x, "A")), ("b", ("A", x))) for x in options]

    def check(tree, state):
        found = tree.found()
        for key, names in state:
            for event, name in zip(("click", "key_down"), names):
                LOG.clear()
                target.fire(found[key], event)
                if LOG != ([name] if name else []):
                    return f"{event} of {key} calls {LOG} instead of {name}"
        return None

    explore(res, f"handlers {kind}", target, build, states, k, order=check)


# --


def tasks(tier):
    quick = tier == "quick"
    result = []
    for name, cls in TARGETS.items():
        target = cls()
        kinds = list(children_builders(target))
        pairs = list(itertools.combinations_with_replacement(kinds, 2))
        for wrapper in wrappers(target):
            items = [["orders", wrapper, list(p), "abc", 2] for p in pairs]
            if not quick:
                items += [["orders", wrapper, list(p), "abc", 3] for p in pairs]
                items += [["orders", wrapper, list(p), "abcd", 2] for p in pairs]
            for i in range(0, len(items), 7):
                result.append([name, "", items[i : i + 7]])
        if name == "pygfx":
            for type, attrs in PYGFX_TYPES.items():
                for situation in ("first", "user", "next"):
                    items = []
                    for size in (2, 3):
                        if size == 3 and quick:
                            continue
                        for names in itertools.combinations(attrs, size):
                            if {"local.position", "local.x"} <= set(names):
                                continue
                            items.append(["attributes", type, list(names), situation])
                    result.append([name, type if situation == "user" else "", items])
        else:
            items = [
                ["attributes", "div", list(names), situation]
                for situation in ("first", "next")
                for size in (2, 3)
                for names in itertools.combinations(PLAIN_ATTRS, size)
            ]
            result.append([name, "", items])
        for kind in ("function", "method", "callable"):
            result.append([name, "", [["events", kind, 2 if quick else 3]]])
    return result


def run_task(task):
    name, user, items = task
    gc.disable()
    target = TARGETS[name]()
    res = Result()
    if user:
        change_by_user(target, user)
    for kind, *args in items:
        watchdog()
        globals()[f"run_{kind}"](res, target, *args)
        gc.collect(1)
    return res


def explore(res, label, target, build, states, k, attrs=(), order=None):
    label = f"{type(target).__name__} {label}"
    fresh = [Tree(target, build, s, attrs).describe() for s in states]
    history = de_bruijn(len(states), k)
    trace = []

    def fail(msg):
        e = Violation(f"{label}: {msg}\n  " + "\n  ".join(map(str, trace[-3:])))
        e.signature = f"{label}: {msg.splitlines()[0]}"
        e.trace = list(map(str, trace))
        raise e

    for step, i in enumerate(history):
        if step % 100 == 0:
            watchdog()
            start = states[history[step - 1]] if step else states[0]
            trace[:] = [start]
            tree = Tree(target, build, start, attrs)
            before = tree.found()
        trace.append(states[i])
        try:
            tree.set(states[i])
            actual = tree.describe()
            found = tree.found()
        except Exception as e:
            fail(f"{type(e).__name__}: {e}")
        if actual != fresh[i]:
            fail(f"differs from a new rendering:\n    {actual}\n    {fresh[i]}")
        if order and (msg := order(tree, states[i])):
            fail(msg)
        if not attrs:
            for key, obj in found.items():
                if key in before and before[key] is not obj and not key.isdigit():
                    fail(f"{key} is another object")
        before = found
        res.transitions += 1
        res.validated += 1
    res.states += len(states)
    res.sample(f"{label}: {fresh[-1]}")
