"""Convergence for all schedules of the asynchronous mode."""
from mc import aio  # first: replaces the clock

import copy
import gc
import itertools

import collagraph as cg

from mc.engine import Result, watchdog
from mc.scenarios import MIXED, SlotOnly, kind_fn
from mc.ui import C, Def, E, F, H, T, V, World, dump

ID = "C05"
LEVEL = "model_checking"
RULE = """For each sequence of operations (from a fixed set for each user interface) all
schedules are executed: each of the operations takes place before or after any of the
callbacks of the event loop, including those of the initial rendering, where the work is
divided in slices of one unit of work (and also of two units, and one slice for all). When
there is no work left before an operation, then the event loop is replaced as well. A
state is a schedule and a transition is the execution of a callback or operation."""

MS = 1_000_000


class AsyncWorld(World):
    """All operations are executed right away in the model, but are compared with the
    code when there is no work left"""

    def __init__(self, scenario, slice_units):
        super().__init__(
            scenario.data,
            scenario.top,
            oracles=frozenset(["tree", "protocol", "callback", "handlers"]),
            loop_type=cg.EventLoopType.DEFAULT,
        )
        self.loop = aio.setup()
        aio.Clock.now = 1
        aio.Clock.step = {1: 20 * MS, 2: 8 * MS, 0: 0}[slice_units]
        self.scenario = scenario
        self.executed = self.idle = 0
        self.log_hooks = []
        self.expectation = None
        self.phase = "mount"

    def start(self):
        self.gui = cg.Collagraph(renderer=self.renderer)
        self.gui.render(self.real_top(), self.container, callback=self.new_callback())
        self.trace.append("render()")
        self.update_model()
        self.expectation = dump(self.model.root, True)

    def update_model(self):
        from mc.ui import Ctx

        self.model.update(self.top(Ctx({}, None, None, self.mdata)))

    def on_callback(self):
        super().on_callback()

    def hook(self, name, comp):
        self.log_hooks.append((name, comp))
        if name == "mounted":
            if comp.alive is not None:
                self.fail(f"mounted of {comp.defn.name} is called twice")
            comp.alive = True
        elif name == "updated":
            if comp.alive is not True:
                self.fail(f"updated of {comp.defn.name} which is not mounted")
        elif name == "before_unmount":
            if comp.alive is not True:
                self.fail(f"before_unmount of {comp.defn.name} which is not mounted")
            comp.alive = False

    def callback_step(self):
        before = self.container.dump()
        n_calls = len(self.renderer.calls)
        self.loop.run_next()
        self.executed += 1
        self.trace.append("callback")
        if self.renderer.errors:
            self.fail(f"illegal renderer call: {self.renderer.errors[0]}")
        changed = self.container.dump() != before
        if changed and self.expectation is not None:
            # There are no other changes while this change is processed
            actual = self.container.dump(True)
            if actual != self.expectation:
                self.fail(
                    f"update is not shown at once: {actual}, "
                    f"\n  expected {self.expectation}\n or {before}"
                )
        if self.executed > 400:
            self.fail("no end of the work within 400 callbacks")

    def perform(self, op):
        label, kind, *args = op
        self.trace.append(label)
        if kind == "data":
            args[0](self.data)
            args[0](self.mdata)
        elif kind == "render":
            args[0](self.data)
            args[0](self.mdata)
            self.gui.render(
                self.real_top(), self.container, callback=self.new_callback()
            )
        elif kind == "local":
            name, fn = args
            comp = next(
                (c for c in self.comps if c.defn.name == name and c.alive is not False),
                None,
            )
            if comp is None:
                return
            fn(comp.state)
            inst = next(i for i in self.model.instances() if i.defn.name == name)
            fn(inst.state)
        self.update_model()

    def settle(self):
        while self.loop.queue:
            self.callback_step()

    def compare(self):
        self.trace.append("(no work left)")
        self.check()
        # The instances that are in the tree are precisely the ones that are mounted
        alive = {id(c) for c in self.comps if c.alive}
        present = {id(i.real) for i in self.model.instances()}
        if alive != present:
            self.fail(
                "the mounted components are not the ones in the tree: "
                f"{[(c.defn.name, c.iid, c.alive) for c in self.comps]}"
            )
        stable = self.scenario.stable
        if stable:
            for name in stable:
                made = [c for c in self.comps if c.defn.name == name and c.alive is not None]
                if len(made) != 1:
                    self.fail(f"instance of {name} is not preserved")
        self.callback_at = None
        self.renderer.calls.clear()


class Async:
    def __init__(self, data, top, ops, stable=()):
        self.data = data
        self.top = top
        self.ops = ops
        self.stable = stable


def put(key, value):
    def fn(d):
        d[key] = copy.deepcopy(value)

    return fn


def lists(kind):
    item = kind_fn(kind)
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid, "x": ctx.d["x"]},
            ch=[V([item(k) for k in ctx.d["s"]]), E("foot", {"x": ctx.d["x"]})],
        ),
    )
    ops = [
        ("s = [1, 0]", "data", put("s", [1, 0])),
        ("s = []", "data", put("s", [])),
        ("s = [2, 0]", "data", put("s", [2, 0])),
        ("s.append(3)", "data", lambda d: 3 in d["s"] or d["s"].append(3)),
        ("x += 1", "data", lambda d: d.__setitem__("x", d["x"] + 1)),
    ]
    return Async({"s": [0, 1], "x": 0}, lambda ctx: C(Root), ops, ["Root"])


def levels():
    """A value that is used at several levels, directly and by means of props"""
    Leaf = Def(
        "Leaf",
        lambda ctx: E("leaf", {"iid": ctx.iid, "p": ctx.props["p"], "x": ctx.d["x"]}),
    )
    Mid = Def(
        "Mid",
        lambda ctx: E(
            "mid", {"iid": ctx.iid, "x": ctx.d["x"]},
            ch=[C(Leaf, {"p": ctx.props["p"]})] if ctx.d["y"] else [T("none")],
        ),
    )
    Fn = Def("Fn", lambda ctx: E("fn", {"x": ctx.d["x"], "p": ctx.props["p"]}), func=True)
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid, "n": ctx.d["x"]},
            ch=[C(Mid, {"p": ctx.d["x"]}), F(Fn, {"p": ctx.d["y"]})],
        ),
    )
    ops = [
        ("x = 1", "data", put("x", 1)),
        ("x = 2", "data", put("x", 2)),
        ("y = not y", "data", lambda d: d.__setitem__("y", not d["y"])),
    ]
    return Async({"x": 0, "y": True}, lambda ctx: C(Root), ops, ["Root", "Mid"])


def local():
    """Local state that is changed while work is being done"""
    Leaf = Def("Leaf", lambda ctx: E("leaf", {"iid": ctx.iid, "p": ctx.props["p"]}))
    Counter = Def(
        "Counter",
        lambda ctx: E(
            "counter", {"iid": ctx.iid, "n": ctx.state["n"], "p": ctx.props["p"]},
            ch=[C(Leaf, {"p": ctx.state["n"]})],
        ),
        init=lambda ctx: ctx.state.update({"n": 0}),
    )
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid},
            ch=[
                *([E("first")] if ctx.d["y"] else []),
                C(Counter, {"p": ctx.d["x"]}, key="c"),
                E("last", {"x": ctx.d["x"]}),
            ],
        ),
    )

    def incr(state):
        state["n"] += 1

    ops = [
        ("n += 1", "local", "Counter", incr),
        ("x += 1", "data", lambda d: d.__setitem__("x", d["x"] + 1)),
        ("y = not y", "data", lambda d: d.__setitem__("y", not d["y"])),
    ]
    return Async(
        {"x": 0, "y": True}, lambda ctx: C(Root), ops, ["Root", "Counter", "Leaf"]
    )


def handlers():
    Btn = Def("Btn", lambda ctx: E("btn", {"iid": ctx.iid}))
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid},
            on={"evt": H("lam", "r", ctx.d["x"])} if ctx.d["y"] else {},
            ch=[
                C(Btn, {}, on={"evt": H("default", "b", ctx.d["x"])}),
                E("e", on={"evt": H("meth", "m" if ctx.d["y"] else "m2")}),
            ],
        ),
    )
    ops = [
        ("x += 1", "data", lambda d: d.__setitem__("x", d["x"] + 1)),
        ("y = not y", "data", lambda d: d.__setitem__("y", not d["y"])),
    ]
    return Async({"x": 0, "y": True}, lambda ctx: C(Root), ops, ["Root", "Btn"])


def rerender():
    """Calls of render with a new description, during the work of the former one"""
    Leaf = Def(
        "Leaf",
        lambda ctx: E("leaf", {"iid": ctx.iid, "p": ctx.props["p"], "z": ctx.d["z"]}),
    )
    Other = Def("Other", lambda ctx: E("other", {"iid": ctx.iid}))

    def top(ctx):
        return E(
            "top", {"x": ctx.d["x"]},
            ch=[C(Leaf, {"p": ctx.d["x"]}), C(Other, {}) if ctx.d["y"] else E("none")],
        )

    ops = [
        ("render x += 1", "render", lambda d: d.__setitem__("x", d["x"] + 1)),
        ("render not y", "render", lambda d: d.__setitem__("y", not d["y"])),
        ("z += 1", "data", lambda d: d.__setitem__("z", d["z"] + 1)),
    ]
    return Async({"x": 0, "y": True, "z": 0}, top, ops)


def slots():
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid},
            ch=[
                C(
                    SlotOnly, {},
                    slots={
                        "default": lambda p: V(
                            [T(str(ctx.d["x"]))] + [E("y")] * ctx.d["y"]
                        )
                    },
                ),
                E("foot", {"x": ctx.d["x"]}),
            ],
        ),
    )
    ops = [
        ("x += 1", "data", lambda d: d.__setitem__("x", d["x"] + 1)),
        ("y = not y", "data", lambda d: d.__setitem__("y", not d["y"])),
    ]
    return Async({"x": 0, "y": True}, lambda ctx: C(Root), ops, ["Root", "SlotOnly"])


def mixed():
    """Items that are replaced by items of another type"""
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid},
            ch=[MIXED[c](i) for i, c in enumerate(ctx.d["s"])],
        ),
    )
    ops = [(f"s = {s}", "data", put("s", s)) for s in ("aX", "X3", "4a", "1X", "")]
    return Async({"s": "a1X"}, lambda ctx: C(Root), ops, ["Root"])


SCENARIOS = {
    "lists": lists,
    "levels": levels,
    "local": local,
    "handlers": handlers,
    "rerender": rerender,
    "slots": slots,
    "mixed": mixed,
}


def tasks(tier):
    result = []
    specs = [["lists", k] for k in ("host", "comp", "mix1", "mix2")] + [
        [name] for name in SCENARIOS if name != "lists"
    ]
    for spec in specs:
        n = len(SCENARIOS[spec[0]](*spec[1:]).ops)
        for length in (1, 2, 3):
            if tier == "quick" and length == 3 and spec[0] not in ("local", "levels"):
                continue
            for ops in itertools.product(range(n), repeat=length):
                for units in (1, 2, 0):
                    if units and length == 3 and tier == "quick" and units == 1:
                        # (all schedules of three operations: slices of two units)
                        continue
                    result.append([spec, list(ops), units])
    return result


def execute(scenario, ops, schedule, units, swap=False):
    """Operation i takes place after schedule[i] callbacks. Returns the world when no
    work is left. With swap the event loop is replaced whenever there is no work left."""
    world = AsyncWorld(scenario, units)
    try:
        world.start()
        for op, at in zip(ops, schedule):
            while world.executed < at:
                world.callback_step()
            if not world.loop.queue and world.renderer.calls:
                # All work is done: compare in between as well
                world.compare()
            idle = not world.loop.queue
            if idle:
                world.idle += 1
                if swap:
                    world.loop = aio.next_loop()
                    world.trace.append("(another event loop)")
            world.perform(scenario.ops[op])
            # When the work starts after the operation, changes appear all at once
            world.expectation = dump(world.model.root, True) if idle else None
        world.settle()
        world.compare()
    finally:
        aio.Clock.now = None
    return world


def run_task(task):
    spec, ops, units = task
    scenario = SCENARIOS[spec[0]](*spec[1:])
    res = Result()
    gc.disable()

    def explore(schedule):
        # Number of callbacks until the work is done with the ops so far
        watchdog()
        world = execute(scenario, ops[: len(schedule)], schedule, units)
        res.states += 1
        res.transitions += world.executed + len(schedule)
        res.validated += 1
        if len(schedule) == len(ops):
            if world.idle:
                world = execute(scenario, ops, schedule, units, swap=True)
                res.states += 1
                res.transitions += world.executed + len(schedule)
                res.validated += 1
            if not res.samples:
                res.sample({"scenario": spec, "ops": ops, "schedule": schedule})
            return
        total = world.executed
        start = schedule[-1] if schedule else 0
        for at in range(start, total + 1):
            explore([*schedule, at])

    explore([])
    gc.collect()
    return res
