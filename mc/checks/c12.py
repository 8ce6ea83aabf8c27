"""Isolation of the data of users and of the props of components"""
import copy
import gc

import collagraph as cg
from observ import reactive, to_raw
from observ.proxy_db import proxy_db

from mc import suites
from mc.engine import Result, Violation, watchdog
from mc.scenarios import run_windows
from mc.ui import El, RecRenderer

ID = "C12"
LEVEL = "model_checking"
RULE = """(1) All histories of a selection of the structures and operations of C01 are
executed, and the raw data of the user is compared with its own history after each step.
(2) For all ways to hand props to components, all moments in the life of a component and
all kinds of writes (on all levels of nested props) the component attempts to write its
props, or to replace its props, state, element or parent: this raises an exception, changes
no data of the user or of another component, and what is shown still follows the data
afterwards. A state is such a combination (or history); transitions are steps."""

WHENS = ["init", "render", "mounted", "updated", "handler", "before_unmount"]
SOURCES = ["fresh", "plain", "shared", "state", "nested", "rerender", "func"]

DATA = {
    "n": 0,
    "l": [3, 1, 2],
    "d": {"x": 1, "in": {"deep": [1, 2]}},
    "s": {1, 2},
    "t": ([1], {"a": 1}),
}


def setitem(path, key, value=99):
    def op(p):
        path(p)[key] = value

    return op


def delitem(path, key):
    def op(p):
        del path(p)[key]

    return op


def call(path, method, *args):
    def op(p):
        getattr(path(p), method)(*args)

    return op


TOP = lambda p: p
L = lambda p: p["l"]
D = lambda p: p["d"]
IN = lambda p: p["d"]["in"]
DEEP = lambda p: p["d"]["in"]["deep"]
SET = lambda p: p["s"]
VIA_GET = lambda p: p.get("l")
VIA_VALUES = lambda p: [v for v in p.values() if isinstance(v, type(p["l"]))][0]
VIA_ITEMS = lambda p: dict(p.items())["d"]
VIA_LIST = lambda p: [p["d"]["in"] for _ in p["l"]][0]
VIA_ITER = lambda p: next(iter(p["d"]["in"].values()))

OPS = {
    "p[n] = 99": setitem(TOP, "n"),
    "p[new] = 99": setitem(TOP, "new"),
    "del p[n]": delitem(TOP, "n"),
    "p.update": call(TOP, "update", {"n": 5}),
    "p.pop": call(TOP, "pop", "n"),
    "p.popitem": call(TOP, "popitem"),
    "p.clear": call(TOP, "clear"),
    "p.setdefault": call(TOP, "setdefault", "new", 1),
    "l[0] = 99": setitem(L, 0),
    "l[:] = []": setitem(L, slice(None), []),
    "del l[0]": delitem(L, 0),
    "l.append": call(L, "append", 99),
    "l.extend": call(L, "extend", [99]),
    "l.insert": call(L, "insert", 0, 99),
    "l.remove": call(L, "remove", 1),
    "l.pop": call(L, "pop"),
    "l.clear": call(L, "clear"),
    "l.sort": call(L, "sort"),
    "l.reverse": call(L, "reverse"),
    "d[x] = 99": setitem(D, "x"),
    "d.pop": call(D, "pop", "x"),
    "d.clear": call(D, "clear"),
    "d.update": call(D, "update", {"x": 5}),
    "in[new]": setitem(IN, "new"),
    "deep.append": call(DEEP, "append", 99),
    "deep.clear": call(DEEP, "clear"),
    "s.add": call(SET, "add", 99),
    "s.discard": call(SET, "discard", 1),
    "s.remove": call(SET, "remove", 1),
    "s.pop": call(SET, "pop"),
    "s.clear": call(SET, "clear"),
    "s.update": call(SET, "update", {99}),
    "get(l).append": call(VIA_GET, "append", 99),
    "values()->l.append": call(VIA_VALUES, "append", 99),
    "items()->d.clear": call(VIA_ITEMS, "clear"),
    "in via list": call(VIA_LIST, "clear"),
    "deep via iter": call(VIA_ITER, "append", 99),
}
REPLACE = ["props", "state", "element", "parent"]


class Rt:
    current = None


def attempt(comp, when):
    rt = Rt.current
    if rt.when != when or comp.props.get("who", "A") != "A":
        return
    if when in ("render", "updated") and rt.attempts > 3:
        return
    rt.attempts += 1
    before = copy.deepcopy(to_raw(comp.props))
    try:
        if rt.op.startswith("self."):
            setattr(comp, rt.op[5:], {"n": 1})
        else:
            OPS[rt.op](comp.props)
    except Exception as e:  # noqa: B902
        if rt.op.startswith("self.") and not isinstance(e, RuntimeError):
            rt.fail(f"{rt.op} raises {type(e).__name__} instead of RuntimeError")
    else:
        rt.fail(f"{rt.op} in {when} does not raise an exception")
    if to_raw(comp.props) != before:
        rt.fail(f"{rt.op} in {when} has changed the props to {to_raw(comp.props)}")


class Kid(cg.Component):
    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        self.state["local"] = 0
        attempt(self, "init")

    def mounted(self):
        attempt(self, "mounted")

    def updated(self):
        attempt(self, "updated")

    def before_unmount(self):
        attempt(self, "before_unmount")

    def handler(self):
        attempt(self, "handler")

    def render(self):
        attempt(self, "render")
        return cg.h("kid", {"on_click": self.handler, **shown(self.props)})


def shown(p):
    return {
        "n": p["n"],
        "l": repr(to_raw(p["l"])) if len(p["l"]) >= 0 else 0,
        "d": repr(p["d"]["x"]) + repr([i for i in p["d"]["in"]["deep"]]),
        "s": repr(sorted(p["s"])),
        "t": repr(list(p["t"][0])),
    }


def func(props):
    return cg.h("fn", {}, cg.h(Kid, props))


class Parent(cg.Component):
    def render(self):
        d = self.props["data"]
        if not self.props["on"]["on"]:
            return cg.h("none")
        how = self.props["how"]
        if how == "fresh":
            return cg.h("p", {}, cg.h(Kid, copy.deepcopy(to_raw(snapshot(d)))))
        if how == "nested":
            props = {key: d[key] for key in d}
            return cg.h("p", {}, cg.h(Kid, props), cg.h(Kid, {**props, "who": "B"}))
        if how == "func":
            return cg.h("p", {}, cg.h(func, {key: d[key] for key in d}))
        raise ValueError(how)


def snapshot(d):
    # Depend on everything
    return {
        "n": d["n"], "l": list(d["l"]),
        "d": {"x": d["d"]["x"], "in": {"deep": list(d["d"]["in"]["deep"])}},
        "s": set(d["s"]), "t": (list(d["t"][0]), dict(d["t"][1])),
    }


class Rt2:
    def __init__(self, source, when, op):
        self.source, self.when, self.op = source, when, op
        self.attempts = 0

    def fail(self, msg):
        e = Violation(f"{msg} (props from {self.source})")
        e.trace = [self.source, self.when, self.op]
        e.signature = f"{self.source} {self.when} {self.op}"
        # Not to be swallowed by the component that is being executed
        self.violation = self.violation or e
        raise e

    violation = None


def kids(el):
    if el.type == "kid":
        return [el]
    return [k for c in el.children for k in kids(c)]


def run(source, when, op):
    proxy_db.db.clear()
    rt = Rt.current = Rt2(source, when, op)
    raw = copy.deepcopy(DATA)
    renderer = RecRenderer()
    gui = cg.Collagraph(renderer=renderer, event_loop_type=cg.EventLoopType.SYNC)
    container = El("container")
    on = reactive({"on": True})
    follows = True
    if source in ("fresh", "nested", "func"):
        data = reactive(raw)
        gui.render(cg.h(Parent, {"data": data, "how": source, "on": on}), container)
    elif source == "state":
        data = reactive(raw)
        gui.render(cg.h(Kid, data), container)
    elif source == "plain":
        data = raw
        follows = False
        gui.render(cg.h(Kid, raw), container)
    elif source == "shared":
        data = reactive(raw)
        gui.render(cg.h("p", {}, cg.h(Kid, raw), cg.h(Kid, raw)), container)
    elif source == "rerender":
        data = raw
        gui.render(cg.h("p", {}, cg.h(Kid, raw)), container)

    def verify(step, expected):
        if rt.violation:
            raise rt.violation
        if to_raw(raw) != expected:
            rt.fail(f"{op} in {when}: data of the user is {raw}, not {expected}")
        for kid in kids(container):
            attrs = {k: v for k, v in kid.attrs.items() if k not in ("who", "key")}
            if attrs != shown(expected):
                rt.fail(
                    f"{op} in {when}, {step}: shown is {attrs} not {shown(expected)}"
                )
        if renderer.errors:
            rt.fail(renderer.errors[0])

    expected = copy.deepcopy(DATA)
    verify("first rendering", expected)
    if follows:
        for n in (1, 2):
            for target in (data, expected):
                target["n"] = n
                target["l"].append(n)
                target["d"]["in"]["deep"].append(n)
            if source == "rerender":
                # The data is not reactive
                gui.render(cg.h("p", {}, cg.h(Kid, {**raw})), container)
            verify(f"change {n}", expected)
    for kid in kids(container):
        for handler in list(kid.on.get("click", ())):
            handler()
    verify("event", expected)
    on["on"] = False
    gui.render(cg.h("nothing"), container)
    if rt.violation:
        raise rt.violation
    if raw != expected:
        rt.fail(f"{op} in {when}: data of the user is {raw}, not {expected}")
    if not rt.attempts and (follows or when != "updated"):
        raise AssertionError(f"no attempt: {source} {when} {op}")


def tasks(tier):
    specs = suites.data(tier) + suites.attributes("quick") + suites.slots("quick")
    if tier == "thorough":
        specs += suites.structure("quick")
    result = [["write", source, when] for source in SOURCES for when in WHENS]
    return result + [["windows", t] for t in suites.tasks(specs)]


def run_task(task):
    if task[0] == "windows":
        return run_windows(task[1], frozenset(["data"]))
    res = Result()
    gc.disable()
    for op in [*OPS, *(f"self.{name}" for name in REPLACE)]:
        watchdog()
        run(task[1], task[2], op)
        res.states += 1
        res.transitions += 5
        res.validated += 1
    res.sample([*task, op])
    gc.collect()
    return res
