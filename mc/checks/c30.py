"""Widgets of PySide converge for all schedules of the event loop"""
from mc import aio  # first: replaces the clock

import asyncio
import gc
import itertools

import collagraph as cg
from observ import reactive
from PySide6 import QtWidgets as W

from mc import qt
from mc.checks import c19
from mc.engine import Result, Violation, watchdog

ID = "C30"
LEVEL = "model_checking"
ISOLATE = True
RULE = """For each kind of container of Qt a user interface is rendered by the asynchronous
event loop, of which each callback is executed explicitly and in which the work is divided in
slices of a few units of work. All sequences of operations (other ordered selections of the
children, rendering again) are executed, each of them before or after any of the callbacks.
At each point the widgets are those of one of the states until then, and when there is no
work left those of the last state, with the expected order and facts as for C19. A state is a
schedule and a transition is the execution of a callback or operation."""

MS = 1_000_000
STEP = {1: 20 * MS, 2: 8 * MS, 4: 4 * MS, 0: 0}


class Gui:
    """As qt.Gui, but asynchronous"""

    def __init__(self, build, state, units):
        qt.app()
        self.renderer = cg.PySideRenderer(autoshow=False)
        self.data = reactive({"s": state})
        self.gui = cg.Collagraph(renderer=self.renderer)
        # (instead of the event loop of Qt, but with the same callbacks)
        self.loop = aio.setup()
        asyncio.set_event_loop_policy(aio.Policy())
        aio.Clock.now = 1
        aio.Clock.step = STEP[units]
        self.container = self.renderer.create_element("widget")
        self.container.show()
        self.root_fn = lambda props: build(self.data["s"])
        self.executed = 0
        self.render()

    def render(self):
        self.gui.render(cg.h(self.root_fn), self.container)

    @property
    def root(self):
        layout = self.container.layout()
        return layout.itemAt(0).widget() if layout and layout.count() else None

    def callback(self):
        self.loop.run_next()
        self.executed += 1


def windows_of(container):
    """Visible windows that don't belong to the container"""
    return [
        w for w in W.QApplication.topLevelWidgets()
        if w.isVisible() and w is not container and w.parent() is None
    ]


def fail(name, msg, trace):
    e = Violation(f"{name}: {msg}\n  " + ", ".join(map(str, trace)))
    e.signature = f"{name}: {msg.splitlines()[0]}"
    e.trace = list(map(str, trace))
    raise e


def execute(name, build, start, ops, schedule, units, fresh, order):
    gui = Gui(build, start, units)
    trace = [start]
    possible = [None, fresh[start]]
    try:
        def step():
            gui.callback()
            qt.process_events()
            trace.append("callback")
            root = gui.root
            shown = qt.dump(root)[0] if root else None
            if shown not in possible:
                fail(name, f"shows {shown}", trace)
            if gui.executed > 300:
                fail(name, "no end of the work within 300 callbacks", trace)

        for op, at in zip(ops, schedule):
            while gui.executed < at:
                step()
            trace.append(op)
            if op == "render":
                gui.render()
            else:
                gui.data["s"] = op
                possible.append(fresh[op])
        while gui.loop.queue:
            step()
    finally:
        aio.Clock.now = None
    qt.process_events()
    last = [start, *[op for op in ops if op != "render"]][-1]
    actual, found = qt.dump(gui.root)
    if actual != fresh[last]:
        fail(name, f"shows\n    {actual}\n  instead of\n    {fresh[last]}", trace)
    for msg in c19.facts(build(last), found, gui.root):
        fail(name, msg, trace)
    if order:
        expected = order(last)
        if expected is not None:
            names = [n for n in found if n in expected]
            if names != expected:
                fail(name, f"order is {names} instead of {expected}", trace)
    if others := windows_of(gui.container):
        fail(name, f"there are other windows: {others}", trace)
    gui.container.hide()
    return gui


def run_task(task):
    name, keys, starts, length, units = task
    build, states, order = c19.scenario(name, keys)
    res = Result()
    gc.disable()
    fresh = {}
    for state in states:
        gui = qt.Gui(build, state, show=True)
        qt.process_events()
        fresh[state] = qt.dump(gui.root)[0]
        gui.container.hide()
    gui = None
    options = [*states, "render"]
    runs = 0

    def explore(start, ops, schedule):
        nonlocal runs
        watchdog()
        executed = execute(
            name, build, start, ops, schedule, units, fresh, order
        ).executed
        runs += 1
        if runs % 50 == 0:
            gc.collect()
        res.states += 1
        res.transitions += executed + len(ops)
        res.validated += 1
        if len(ops) < length:
            for at in range(schedule[-1] if schedule else 0, executed + 1):
                for op in options:
                    explore(start, [*ops, op], [*schedule, at])

    for start in [states[i] for i in starts]:
        explore(start, [], [])
    res.sample({"name": name, "states": states, "units": units})
    return res


NAMES = [
    name for name in [*c19.ORDERED, *c19.LONGER, *c19.UNORDERED, *c19.SINGLE]
    if name not in c19.OTHER
]


def tasks(tier):
    result = []
    for name in NAMES:
        n = len(c19.scenario(name, "ab")[1])
        result.append([name, "ab", [n - 1], 2, 4])
        if tier != "quick":
            for start in range(n):
                result.append([name, "ab", [start], 2, 1])
                result.append([name, "ab", [start], 2, 2])
            n = len(c19.scenario(name, "abc")[1])
            result.append([name, "abc", [n - 1], 2, 4])
    return result
