"""Values that are derived with computed expressions and watchers of observ."""
from mc import aio  # first: replaces the clock

import gc
import itertools

import collagraph as cg
from observ import computed, reactive, watch, watch_effect
from observ.proxy_db import proxy_db

from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C29"
LEVEL = "model_checking"
RULE = """Components show values that are derived, with (nested) computed expressions or
watchers of observ, from shared data, their own state or their props. For each way to
derive the value, place where it is created and way in which it is shown, all sequences of
changes are executed, with the synchronous event loop and for all schedules of the
asynchronous one. When there is no work left, each of the components shows the derived
value that follows from the data."""

MS = 1_000_000
DERIVE = ["computed", "chain", "lazy", "watch", "sync", "deep", "effect", "store", "count"]
PLACES = ["global", "init", "mounted", "render"]
SOURCES = ["data", "state", "props", "direct"]
USES = ["attr", "text", "child", "slot", "list", "cond", "func"]


def make_data():
    return {"a": 1, "b": 2, "on": True, "items": [1], "show": True}


def total(s):
    """The derived value: b does not count when it is off"""
    return s["a"] + (s["b"] * 100 if s["on"] else 0) + 10000 * len(s["items"])


def change(key):
    def op(s):
        if key == "items":
            s["items"].append(1)
        elif key == "pop":
            s["items"][:] = s["items"][:-1]
        elif key == "replace":
            s["items"] = [1] * ((len(s["items"]) + 1) % 4)
        elif key == "two":
            s["a"] += 1
            s["b"] += 1
        elif key in ("on", "show"):
            s[key] = not s[key]
        else:
            s[key] += 1

    return op


OPS = ["a", "b", "on", "items", "pop", "replace", "two", "show", "render"]


def derive(how, source):
    """Returns a function that returns the derived value. source() returns the data"""
    if how == "computed":
        return computed(lambda: total(source()))
    if how == "chain":
        one = computed(lambda: source()["a"])
        two = computed(lambda: source()["b"] * 100 if source()["on"] else 0)
        both = computed(lambda: one() + two())
        return computed(lambda: both() + 10000 * len(source()["items"]))
    if how == "lazy":
        # Parts are not evaluated when they are not needed
        small = computed(lambda: source()["a"])
        large = computed(lambda: source()["a"] + source()["b"] * 100)
        part = computed(lambda: large() if source()["on"] else small())
        return lambda: part() + 10000 * len(source()["items"])
    result = reactive({"value": 0, "n": 0})
    if how in ("store", "count"):
        # State that is changed by the expression that depends on it
        def get():
            result["value"] = total(source())
            if how == "count":
                result["n"] += 1
            return result["value"]

        return get

    def put(value):
        result["value"] = value

    if how == "watch":
        watcher = watch(lambda: total(source()), put, immediate=True)
    elif how == "sync":
        watcher = watch(lambda: total(source()), put, sync=True, immediate=True)
    elif how == "deep":
        watcher = watch(
            lambda: source(), lambda: put(total(source())), deep=True, immediate=True
        )
    else:
        watcher = watch_effect(lambda: put(total(source())))

    def get():
        watcher  # is kept
        return result["value"]

    return get


class Program:
    def __init__(self, how, place, source, use, mode, units=0):
        # Data of earlier executions that refers to its own proxies is never released
        proxy_db.db.clear()
        self.how = how
        self.place = place
        self.source = source
        self.use = use
        self.data = reactive(make_data())
        self.plain = make_data()
        self.trace = []
        self.comps = []
        self.mode = mode
        self.executed = 0
        self.renderer = RecRenderer()
        self.container = El("container")
        if mode == "sync":
            aio.Clock.now = None
        else:
            self.loop = aio.setup()
            aio.Clock.now = 1
            aio.Clock.step = {1: 20 * MS, 2: 8 * MS, 0: 0}[units]
        self.define()

    def define(self):
        program = self
        how, place, source, use = self.how, self.place, self.source, self.use
        h = cg.h

        def get_source(comp):
            if source == "state":
                return comp.state
            if source in ("props", "direct"):
                return comp.props
            return program.data

        class Leaf(cg.Component):
            def render(self):
                return h("leaf", {"value": self.props["value"]})

        class Slotted(cg.Component):
            def render(self):
                return h("slotted", {}, *cg.render_slot("default", {}, self._slots))

        def func(props):
            return h("func", {"value": props["get"]()})

        def show(get):
            if use == "attr":
                return h("show", {"value": get()})
            if use == "text":
                return h("show", {}, str(get()))
            if use == "child":
                return h("show", {}, h(Leaf, {"value": get()}))
            if use == "slot":
                return h("show", {}, h(Slotted, {}, lambda p: h("in", {"value": get()})))
            if use == "list":
                return h("show", {}, *[h("i", {"key": c, "n": n}) for n, c in enumerate(str(get()))])
            if use == "cond":
                return h("show", {}, h("odd" if get() % 2 else "even", {"value": get()}))
            if use == "func":
                return h("show", {}, h(func, {"get": get}))
            raise ValueError(use)

        shared = []
        if place == "global":
            shared.append(derive(how, lambda: program.data))

        class Show(cg.Component):
            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                program.comps.append(self)
                self.state["ready"] = place != "mounted"
                self.get = None
                if source == "state":
                    self.state.update(make_data())
                if place == "init":
                    self.create()

            def create(self):
                if shared:
                    self.get = shared[0]
                else:
                    self.get = derive(how, lambda: get_source(self))

            def mounted(self):
                self.alive = True
                if place == "mounted":
                    self.create()
                    self.state["ready"] = True

            def before_unmount(self):
                self.alive = False

            def render(self):
                if not self.state["ready"]:
                    return h("wait")
                if self.get is None:
                    self.create()
                return show(self.get)

        class Root(cg.Component):
            def render(self):
                data = program.data
                # Reads parts of the data as well, before and after
                if not data["show"]:
                    return h("root", {"a": data["a"]})
                if source == "direct":
                    props = data
                elif source == "props":
                    props = {key: data[key] for key in ("a", "b", "on", "items")}
                else:
                    props = {}
                return h("root", {"a": data["a"]}, h(Show, props), h("end"))

        self.total = total
        self.top = lambda: h(Root)
        self.states = {}

    def fail(self, msg):
        e = Violation(f"{msg}\n  after: " + ", ".join(self.trace[-20:]))
        e.trace = self.trace
        raise e

    def start(self):
        kwargs = {"event_loop_type": cg.EventLoopType.SYNC} if self.mode == "sync" else {}
        self.gui = cg.Collagraph(renderer=self.renderer, **kwargs)
        self.render()

    def render(self):
        self.trace.append("render")
        self.gui.render(self.top(), self.container)

    def perform(self, op):
        if op == "render":
            return self.render()
        self.trace.append(op)
        fn = change(op)
        if self.source == "state" and op != "show":
            # The state of the instance that is shown, if any
            for comp in self.comps:
                if getattr(comp, "alive", None):
                    fn(comp.state)
            if "a" == op:
                # (the parent is changed as well)
                fn(self.data)
                fn(self.plain)
            return
        fn(self.data)
        fn(self.plain)

    def callback(self):
        self.loop.run_next()
        self.executed += 1
        self.trace.append("callback")
        if self.executed > 400:
            self.fail("no end of the work within 400 callbacks")

    def settle(self):
        if self.mode != "sync":
            while self.loop.queue:
                self.callback()
        self.check()

    def check(self):
        if self.renderer.errors:
            self.fail(f"illegal renderer call: {self.renderer.errors[0]}")
        actual = self.container.dump(True)
        expected = f"<container><root a={self.plain['a']}>{self.expected()}</></>"
        if actual != expected:
            self.fail(f"expected: {expected}\n  actual:   {actual}")

    def expected(self):
        if not self.plain["show"]:
            return ""
        if self.source == "state":
            alive = [c for c in self.comps if getattr(c, "alive", None)]
            if len(alive) != 1:
                self.fail(f"{len(alive)} components are mounted")
            value = total(alive[0].state)
        else:
            value = total(self.plain)
        use = self.use
        if use == "attr":
            inner = f"<show value={value}></>"
        elif use == "text":
            inner = f"<show>{str(value)!r}</>"
        elif use == "child":
            inner = f"<show><leaf value={value}></></>"
        elif use == "slot":
            inner = f"<show><slotted><in value={value}></></></>"
        elif use == "list":
            items = "".join(f"<i key={c!r} n={n}></>" for n, c in enumerate(str(value)))
            inner = f"<show>{items}</>"
        elif use == "cond":
            name = "odd" if value % 2 else "even"
            inner = f"<show><{name} value={value}></></>"
        else:
            inner = f"<show><func value={value}></></>"
        return f"{inner}<end></>"


def run_sync(task, res):
    how, place, source, use, depth = task
    for ops in itertools.product(OPS, repeat=depth):
        watchdog()
        program = Program(how, place, source, use, "sync")
        program.start()
        program.settle()
        for op in ops:
            program.perform(op)
            program.settle()
        res.states += 1
        res.transitions += depth + 1
        res.validated += 1
    res.sample({"program": task, "trace": program.trace})


def execute(task, ops, schedule, units):
    program = Program(*task, "async", units)
    try:
        program.start()
        for op, at in zip(ops, schedule):
            while program.executed < at:
                program.callback()
            program.perform(op)
        program.settle()
    finally:
        aio.Clock.now = None
    return program


def run_async(task, res):
    *program, depth, units = task
    # (when work is interrupted by render, then watchers of it remain until they are
    # collected as garbage, so the update would have no end before that)
    options = OPS[:-1] if program[0] == "count" else OPS

    def explore(ops, schedule):
        watchdog()
        executed = execute(program, ops, schedule, units).executed
        res.states += 1
        res.transitions += executed + len(ops)
        res.validated += 1
        if len(ops) < depth:
            for at in range(schedule[-1] if schedule else 0, executed + 1):
                for op in options:
                    explore([*ops, op], [*schedule, at])

    explore([], [])
    res.sample({"program": program, "units": units})


def programs():
    for how, place, source, use in itertools.product(DERIVE, PLACES, SOURCES, USES):
        if place == "global" and source != "data":
            continue
        if how in ("store", "count") and (place == "global" or use in ("slot", "func")):
            # (would be changed by one component and used by another)
            continue
        yield [how, place, source, use]


def tasks(tier):
    quick = tier == "quick"
    result = []
    for n, program in enumerate(programs()):
        result.append(["sync", *program, 2 if quick else 4])
        result.append(["async", *program, 1 if quick else 2, n % 3])
    return result


def run_task(task):
    kind, *args = task
    res = Result()
    gc.disable()
    {"sync": run_sync, "async": run_async}[kind](args, res)
    gc.collect()
    return res
