"""Nothing remains of what is removed: memory does not grow with the number of updates"""
from collections import Counter
import functools
import gc
import itertools

import collagraph as cg
from observ import reactive

from mc.checks import c19, c22
from mc.engine import Result, Violation, watchdog

ID = "C24"
LEVEL = "model_checking"
ISOLATE = True
RULE = """For all cycles of two (or three) different states of user interfaces of all
renderers: the cycle is executed repeatedly and all objects of the process (by type) are
counted in between. There should be no type of which the number increases with each of the
cycles."""

h = c22.h


# -- Components


class Base(cg.Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.init()

    def init(self):
        pass

    def render(self):
        raise NotImplementedError


class Plain(Base):
    def init(self):
        self.state["count"] = 1

    def bump(self, *args):
        self.state["count"] += 1

    def render(self):
        return h("div", h("p", on_click=self.bump, n=self.state["count"]), name=self.props["name"])


class Emits(Base):
    # (without handlers that refer to the component: those end up in the element of the
    # parent component, of which the method is in turn part of the props. The database of
    # observ does not release cycles through the props.)
    def mounted(self):
        self.emit("changed", 1)

    def render(self):
        return h("div", name=self.props["name"])


class Parent(Base):
    """Listens to a child and provides something for it"""

    def init(self):
        self.state["seen"] = 0
        self.provide("parent", self)

    def changed(self, *args):
        self.state["seen"] += 1

    def render(self):
        name = self.props["name"]
        return h(
            "div",
            h(Emits, name=name + "1", on_changed=self.changed),
            h(Injects, name=name + "2", on_changed=lambda *a: self.changed()),
            name=name,
        )


class Injects(Base):
    def init(self):
        self.state["found"] = self.inject("parent") is not None

    def render(self):
        return h("div", name=self.props["name"], found=self.state["found"])


class Slotted(Base):
    def render(self):
        return h("div", *cg.render_slot("default", {"owner": self}, self._slots), name=self.props["name"])


def slotted(key):
    return h(
        Slotted,
        lambda props: h("p", on_click=lambda *a: props["owner"], name=key + "1"),
        key=key, name=key,
    )


def function(props):
    return h("p", name=props["name"], on_click=lambda *a: props)


class Updates(Base):
    """Changes its own state when it is mounted"""

    def init(self):
        self.state["mounted"] = False

    def mounted(self):
        self.state["mounted"] = True

    def render(self):
        kids = [h(Plain, name=self.props["name"] + "1")] if self.state["mounted"] else []
        return h("div", *kids, name=self.props["name"])


def component(cls):
    return lambda key: h(cls, key=key, name=key)


def unkeyed(cls):
    return lambda key: h(cls, name=key)


CHILDREN = {
    "plain": component(Plain), "parent": component(Parent), "slotted": slotted,
    "function": component(function), "updates": component(Updates),
    "unkeyed": unkeyed(Plain), "unkeyed parent": unkeyed(Parent),
    "group": lambda key: h("template", h(Plain, name=key + "1"), slotted(key + "2"), key=key),
}


# -- Handlers that are replaced by each rendering


class Token:
    def method(self, *args):
        pass


class Handler:
    def __init__(self, token):
        self.token = token

    def __call__(self, *args):
        pass


FORMS = {
    "-": None,
    "lambda": lambda token: lambda *args: token,
    "method": lambda token: token.method,
    "partial": lambda token: functools.partial(max, token),
    "object": Handler,
}
# (type, signal or event, other event)
EMITTERS = {
    "button": ("on_clicked", "on_mouse_press"),
    "lineedit": ("on_text_changed", "on_key_press"),
    "slider": ("on_value_changed", "on_wheel"),
    "label": ("on_link_activated", "on_enter"),
    "div": ("on_click", "on_other"),
    "comp": ("on_click", "on_other"),
}


class Silent(Base):
    def render(self):
        return h("div")


def events(name):
    first, second = EMITTERS[name]
    names = ["a", "b"] if name in ("div", "comp") else ["widget", "widget"]

    def build(state):
        attrs = {
            event: FORMS[form](Token())
            for event, form in zip((first, second), state)
            if FORMS[form]
        }
        type = Silent if name == "comp" else name
        return h(names[0], h(type, **attrs), h(names[1]))

    return build, list(itertools.product(FORMS, repeat=2))


def scenario(kind, name, keys):
    """Returns the renderer (or None for PySide), the builder and the states"""
    if kind == "events":
        return c22.Dict() if name in ("div", "comp") else None, *events(name)
    if kind == "core":
        one, two = name
        target = c22.Dict()
        by_key = dict(zip(keys, itertools.cycle([CHILDREN[one], CHILDREN[two]])))
        states = c22.selections(keys)

        def build(state):
            return h("div", *(by_key[k](k) for k in state))

        return target, build, states
    if kind == "qt":
        build, states, _ = c19.scenario(name, keys)
        return None, build, states
    target = c22.TARGETS[kind]()
    wrapper, one, two = name
    kinds = c22.children_builders(target)
    by_key = dict(zip(keys, itertools.cycle([kinds[one], kinds[two]])))
    wrap = c22.wrappers(target)[wrapper]
    return target, lambda s: wrap([by_key[k](k) for k in s]), c22.selections(keys)


class Ui:
    def __init__(self, target, build, state):
        self.qt = target is None
        if self.qt:
            from mc import qt

            self.gui = qt.Gui(build, state, show=True)
            self.set = self.gui.set
            self.process_events = qt.process_events
        else:
            self.tree = c22.Tree(target, build, state)
            self.set = self.tree.set
            self.process_events = lambda: None


def census():
    gc.collect()
    result = Counter(map(type, gc.get_objects()))
    # (of this check itself)
    del result[Counter]
    return result


def qt_census(ui, count):
    """PySide6 keeps some other objects of its own"""
    from PySide6 import QtCore, QtWidgets

    result = Counter()
    for type, n in count.items():
        if type.__module__.split(".")[0] in ("collagraph", "observ", "mc"):
            result[type] = n
    # Headers of views keep a selection model for each time that a model is set
    result["objects of Qt"] = sum(
        not isinstance(obj.parent(), QtWidgets.QHeaderView)
        for obj in ui.gui.container.findChildren(QtCore.QObject)
    )
    return result


def run_task(task):
    kind, name, keys, length = task
    gc.disable()
    target, build, states = scenario(kind, name, keys)
    res = Result()
    label = f"{kind} {name}"
    possible = c19.POSSIBLE.get(name) if kind == "qt" else None
    cycles = []
    for cycle in itertools.permutations(states, length):
        # Each of the rotations is the same cycle
        if cycle[0] != min(cycle, key=states.index):
            continue
        if not possible or all(map(possible, cycle, cycle[1:] + cycle[:1])):
            cycles.append(cycle)
    # Fill caches
    ui = Ui(target, build, states[0])
    for state in states:
        if possible:
            ui = Ui(target, build, state)
        else:
            ui.set(state)
        ui.process_events()
    gc.collect()
    gc.freeze()

    def fail(msg, cycle):
        e = Violation(f"{label}: {msg}\n  cycle: {cycle}")
        e.signature = f"{label}: {msg}"
        e.trace = [str(s) for s in cycle]
        raise e

    for n, cycle in enumerate(cycles):
        watchdog()
        # (PySide6 can crash when it releases a model with all of its items: Qt windows stay)
        if n % 40 == 0 and not ui.qt:
            ui = None
            gc.unfreeze()
            gc.collect()
            ui = Ui(target, build, states[0])
            gc.freeze()
        if possible:
            ui = Ui(target, build, cycle[0])
        counts = []
        for _ in range(4):
            for _ in range(2):
                for state in cycle:
                    ui.set(state)
                    ui.process_events()
                    res.transitions += 1
            count = census()
            if ui.qt:
                count = qt_census(ui, count)
            counts.append(count)
        _, second, third, fourth = counts
        for type, count in fourth.items():
            if count > third[type] > second[type]:
                what = getattr(type, "__name__", type)
                numbers = [c[type] for c in counts]
                fail(f"the number of {what} increases: {numbers}", cycle)
        res.validated += 1
    res.states += len(states)
    res.sample(f"{label}: {cycles[-1]}")
    return res


# PySide6 doesn't release items of trees and nested items of models. Menus are kept by the
# window in which they are inserted
QT_KEEPS = {
    "tree", "tree nested", "tree deeper", "tree between", "tree twice", "chosen",
    "model deeper", "window", "inner table", "inner table keys", "inner cells",
}


def tasks(tier):
    quick = tier == "quick"
    result = []
    pairs = list(itertools.combinations_with_replacement(CHILDREN, 2))
    for pair in pairs:
        result.append(["core", list(pair), "ab" if quick else "abc", 2])
    for one in CHILDREN:
        result.append(["core", [one, "plain"], "ab", 3])
        if not quick:
            result.append(["core", [one, "parent"], "ab", 3])
    for name, cls in c22.TARGETS.items():
        if name == "pygfx":
            # (transforms of pygfx keep functions for each object that is inserted)
            continue
        target = cls()
        kinds = list(c22.children_builders(target))
        for wrapper in c22.wrappers(target):
            for pair in itertools.combinations_with_replacement(kinds, 2):
                if not quick or pair[0] != pair[1]:
                    result.append([name, [wrapper, *pair], "ab", 2 if quick else 3])
    for name in EMITTERS:
        result.append(["events", name, "", 2])
    for name in [*c19.ORDERED, *c19.LONGER, *c19.UNORDERED, *c19.SINGLE, *c19.OTHER]:
        if name not in QT_KEEPS:
            result.append(["qt", name, "ab" if quick else "abc", 2])
    return result
