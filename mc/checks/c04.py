"""Event handlers of elements and components."""
import gc
import itertools

import collagraph as cg
from observ import reactive
from observ.proxy_db import proxy_db

from mc import suites
from mc.engine import Result, Violation, watchdog
from mc.scenarios import run_windows
from mc.ui import El, RecRenderer

ID = "C04"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length are executed, in which the handlers
for events come, go, change and move. After each step all of the handlers for all events
of all elements and components are called: exactly the handlers that follow from the
current data should run (once), with the values of the current data. Also, handlers are
called that change, remove, add or move the handlers (or the component) themselves, in all
sequences of events of a bounded length: each event calls the handler at that moment."""

# Names of events: start with on_ themselves, with a letter of on_, with upper case
EVENTS = ["n", "on_on_x", "_", "o-n", "Next"]
ACTIONS = [
    "nothing", "change", "remove", "add other", "remove other", "change all",
    "move", "remove component", "raise",
]
KINDS = ["component", "element", "cond", "slot", "multi", "nothing", "empty slot"]


def tasks(tier):
    quick = tier == "quick"
    specs = suites.handlers(tier)
    specs += suites.with_options(
        [(["moving_handlers", 3], 2), (["handlers"], 2)], gc_each=True
    )
    specs += suites.with_options([(["moving_handlers", 3], 2)], el_type="equal")
    specs += [(["moving_handlers", 4], 2)]
    result = suites.tasks(specs)
    for kind in KINDS:
        for first in ACTIONS:
            result.append(["self", kind, first, 3 if quick else 4])
    return result


class Raised(Exception):
    pass


ALIVE = []


class Hooked(cg.Component):
    def mounted(self):
        ALIVE.append(self)

    def before_unmount(self):
        ALIVE.remove(self)


class Item(Hooked):
    def render(self):
        return cg.h("item", {"n": self.props["n"]})


class Multi(Hooked):
    def render(self):
        return cg.h("template", {}, cg.h("i1"), cg.h("i2", {"n": self.props["n"]}))


class Nothing(Hooked):
    """Component without any element"""

    def render(self):
        return cg.h("template", {"n": self.props["n"]})


class EmptySlot(Hooked):
    """Component with a slot for which there is no content"""

    def render(self):
        return cg.h("template", {}, *self.render_slot("default", self.props))


class Holder(cg.Component):
    def render(self):
        return cg.h("holder", {}, *self.render_slot("default", {}))


class Changing:
    """Handlers perform the action of their event and then there are other handlers"""

    def __init__(self, kind, names, actions):
        self.kind = kind
        self.names = names
        self.actions = actions
        self.calls = []
        self.trace = []
        proxy_db.db.clear()
        ALIVE.clear()
        # For each event the version of the handler (or None)
        self.state = reactive(
            {"on": dict.fromkeys(names, 0), "items": ["a", "it", "b"], "n": 0}
        )
        self.container = El("container")
        self.renderer = RecRenderer()
        self.gui = cg.Collagraph(self.renderer, event_loop_type=cg.EventLoopType.SYNC)
        self.gui.render(cg.h(self.render, self.state), self.container)

    def handler(self, name, version):
        def handler(*args):
            self.calls.append((name, version, args))
            self.act(name)

        return handler

    def node(self):
        on = {
            f"on_{name}": self.handler(name, version)
            for name, version in self.state["on"].items()
            if version is not None
        }
        props = {"key": "it", "n": self.state["n"], **on}
        if self.kind == "component":
            return cg.h(Item, props)
        if self.kind == "multi":
            return cg.h(Multi, props)
        if self.kind == "nothing":
            return cg.h(Nothing, props)
        if self.kind == "empty slot":
            return cg.h(EmptySlot, props)
        if self.kind == "element":
            return cg.h("item", props)
        if self.kind == "cond":
            return cg.h("template", {"key": "it"}, cg.h(Item, props))
        return cg.h(Holder, {"key": "it"}, lambda p: [cg.h(Item, props)])

    def render(self, props):
        return cg.h(
            "root", {},
            *(
                self.node() if key == "it" else cg.h("other", {"key": key})
                for key in self.state["items"]
            ),
        )

    def act(self, name):
        action = self.actions[name]
        self.trace.append(f"  {action}")
        on = self.state["on"]
        other = self.names[1 - self.names.index(name)]
        if action == "change":
            on[name] += 1
        elif action == "remove":
            del on[name]
        elif action == "add other":
            on[other] = on.get(other, 10) + 1
        elif action == "remove other":
            on.pop(other) if other in on else None
        elif action == "change all":
            for key in list(on):
                on[key] += 1
            self.state["n"] += 1
        elif action == "move":
            items = list(self.state["items"])
            self.state["items"] = items[1:] + items[:1]
        elif action == "remove component":
            self.state["items"] = ["b"]
        elif action == "raise":
            on[name] += 1
            raise Raised

    def fail(self, msg):
        e = Violation(f"{self.kind} {self.actions}: {msg}\n  " + "\n  ".join(self.trace))
        e.signature = msg
        e.trace = [self.kind, self.actions, *self.trace]
        raise e

    def target(self):
        """The component that is able to emit events"""
        return ALIVE[-1] if ALIVE else None

    def find(self):
        stack = [self.container]
        while stack:
            el = stack.pop()
            if el.type == "item":
                return el
            stack.extend(el.children)

    def fire(self, name):
        on = dict(self.state["on"]) if "it" in self.state["items"] else {}
        self.trace.append(f"event {name}")
        self.calls.clear()
        expected = [(name, on[name], (1, "a"))] if name in on else []
        event = name.lower()
        try:
            if self.kind == "element":
                el = self.find()
                for fn in list(el.on.get(event, ())) if el else ():
                    fn(1, "a")
            elif "it" in self.state["items"]:
                self.target().emit(event, 1, "a")
        except Raised:
            if self.actions[name] != "raise":
                self.fail("raised")
        if self.calls != expected:
            self.fail(f"calls {self.calls} instead of {expected}")
        if self.renderer.errors:
            self.fail(f"renderer: {self.renderer.errors[0]}")


def run_changing(task):
    _, kind, first, length = task
    gc.disable()
    res = Result()
    for names in (EVENTS[:2], EVENTS[2:4], EVENTS[4:] + EVENTS[:1]):
        for second in ACTIONS:
            actions = dict(zip(names, (first, second)))
            watchdog()
            for events in itertools.product(names, repeat=length):
                world = Changing(kind, names, actions)
                for name in events:
                    world.fire(name)
                res.states += 1
                res.transitions += length
                res.validated += 1
    res.sample([kind, actions, world.trace])
    gc.collect()
    return res


def run_task(task):
    if task[0] == "self":
        return run_changing(task)
    return run_windows(task, frozenset(["handlers"]))
