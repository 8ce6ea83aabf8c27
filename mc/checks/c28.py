"""Several user interfaces of one process show the same data and don't disturb each other."""
from mc import aio  # first: replaces the clock

import copy
import gc
import itertools

import collagraph as cg
from observ import reactive, to_raw

from mc import scenarios as sc
from mc.checks import c05
from mc.engine import Result, Violation, watchdog
from mc.ui import ALL, C, Ctx, Def, E, Model, Runtime, V, World, dump, windows

ID = "C28"
LEVEL = "model_checking"
RULE = """Two user interfaces (instances of Collagraph, with a container each) use the same
reactive data. All sequences of changes (windows of two states) are executed for pairs of
user interfaces that are rendered from the start, later on, again or are dropped; for all
changes of the data by each of the hooks of their components (in pairs); and for all
schedules of the callbacks of the event loop that they share, where the work is divided in
slices. Both trees of elements should always be the ones that follow from the data, with
the same elements, instances and calls of hooks as when there is just one user interface."""


class Router:
    """What the components of all of the user interfaces refer to"""

    def __init__(self, data, worlds):
        self.worlds = worlds
        self.comps = []
        self.renders = 0
        self.raw = copy.deepcopy(data)
        self.data = reactive(self.raw)
        self.on_hook = lambda name, comp: None
        self.on_init = lambda comp: None
        for world in worlds:
            world.router = self
            world.raw = self.raw
            world.data = self.data
            world.comps = self.comps
        Runtime.current = self

    def owner(self, comp):
        el = comp.element
        while el is not None and el.parent is not None:
            el = el.parent
        for world in self.worlds:
            if world.container is el:
                return world

    def hook(self, name, comp):
        world = self.owner(comp)
        if world is None:
            raise Violation(f"{name} of {comp.defn.name}: is not in any of the trees")
        world.hook(name, comp)
        self.on_hook(name, comp)


class Shared(World):
    def begin(self):
        super().begin()
        Runtime.current = self.router


class Pair:
    """Two worlds of which the data changes at the same time"""

    def __init__(self, data, tops, oracles, el_types=("plain", "plain"), renderer=False):
        self.worlds = [
            Shared(data, top, oracles=oracles, el_type=el_type)
            for top, el_type in zip(tops, el_types)
        ]
        if renderer:
            self.worlds[1].renderer = self.worlds[0].renderer
        self.router = Router(data, self.worlds)
        self.trace = self.worlds[0].trace
        for world in self.worlds:
            world.trace = self.trace
        self.shown = []
        self.steps = 0

    def mount(self, i):
        self.trace.append(f"render {i}")
        world = self.worlds[i]
        world.gui = cg.Collagraph(
            renderer=world.renderer, event_loop_type=cg.EventLoopType.SYNC
        )
        for w in self.shown:
            w.begin()
        world.begin()
        world.gui.render(world.real_top(), world.container, callback=world.new_callback())
        self.shown.append(world)
        self.finish()

    def rerender(self, i):
        self.trace.append(f"render {i} again")
        world = self.worlds[i]
        for w in self.shown:
            w.begin()
        world.gui.render(world.real_top(), world.container, callback=world.new_callback())
        self.finish()

    def drop(self, i):
        self.trace.append(f"drop {i}")
        world = self.worlds[i]
        self.shown.remove(world)
        world.gui = world.model = None
        gc.collect()

    def step(self, label, op):
        self.trace.append(label)
        for w in self.shown:
            w.begin()
        op(self.router.data)
        for world in self.worlds:
            op(world.mdata)
        self.finish()

    def step_local(self, label, i, find, fn):
        world = self.worlds[i]
        inst = find(world.model) if world in self.shown else None
        if inst is None:
            return
        self.trace.append(f"{label} of {i}")
        for w in self.shown:
            w.begin()
        fn(inst.real.state)
        fn(inst.state)
        self.finish()

    def finish(self):
        self.steps += 1
        for world in self.shown:
            world.finish("")


# -- Sequences of changes of the data

CORE = frozenset(["tree", "identity", "hooks", "handlers", "protocol"])
# When the second one is rendered, when one is rendered again and when one is dropped
PLANS = {
    "both": {0: [("mount", 0), ("mount", 1)]},
    "later": {0: [("mount", 0)], 2: [("mount", 1)]},
    "again": {0: [("mount", 1), ("mount", 0)], 1: [("rerender", 0)], 3: [("rerender", 1)]},
    "dropped": {0: [("mount", 0), ("mount", 1)], 2: [("drop", 0)]},
    "last dropped": {0: [("mount", 0), ("mount", 1)], 2: [("drop", 1)]},
}
SOURCES = ["props", "extern", "pass", "func"]
HOWS = ["lam", "meth", "partial", "state"]


def pairs(tier):
    """Pairs of user interfaces with the same states"""
    kinds = ["host", "mix1", "mix2", "mix3"]
    result = []
    for one, two in itertools.product(kinds, repeat=2):
        result.append([["keyed", one, "between", 2, "extern"], ["keyed", two, "tpl", 2, "props"]])
    for one, two in itertools.combinations_with_replacement(SOURCES, 2):
        result.append([["keyed", "mix1", "tpl", 2, one], ["keyed", "mix1", "tpl", 2, two]])
    for layout in sc.LAYOUTS:
        result.append(
            [["keyed", "mix2", layout, 2, "extern"], ["keyed", "mix1", "slotonly", 2, "extern"]]
        )
    for alphabet in ("abtX", "Yvef", "PQpq"):
        result.append([["unkeyed", alphabet, 1], ["unkeyed", alphabet, 1, "tpl"]])
        if tier != "quick":
            result.append([["unkeyed", alphabet, 2], ["unkeyed", alphabet, 2, "tpl"]])
    result.append([["handlers", HOWS], ["handlers", HOWS]])
    result.append([["handlers", HOWS], ["handlers", HOWS, True]])
    result.append([["slots"], ["slots"]])
    result.append([["attributes", False, [0, 1, 2, 6]], ["attributes", True, [0, 1, 2, 6]]])
    result.append([["texts", 2], ["texts", 2]])
    result.append([["deep_flags", "slot", 3], ["deep_flags", "host", 3]])
    if tier != "quick":
        for one, two in itertools.product(kinds, repeat=2):
            result.append(
                [["keyed", one, "between", 3, "extern"], ["keyed", two, "tpl", 3, "props"]]
            )
        result.append([["nested_slots"], ["nested_slots"]])
        result.append([["moving_handlers", 2], ["moving_handlers", 2]])
    return result


def run_sync(task, res):
    specs, renderer, part, stride = task
    one, two = (sc.make(spec) for spec in specs)
    assert one.states == two.states
    states = one.states[::stride]
    res.states += len(states)
    oracles = CORE if renderer else ALL
    histories = {
        "both": windows(len(states), 2, 60),
        "again": windows(len(states), 2, 12),
    }
    small = [list(p) for p in itertools.product(range(len(states)), repeat=3)]
    if len(small) > 1500:
        small = windows(len(states), 2, 4)
    for name, plan in PLANS.items():
        if part is not None and name != part:
            continue
        for history in histories.get(name, small):
            watchdog()
            pair = Pair(
                one.data(states[history[0]]), (one.top, two.top), oracles,
                ("falsy" if name == "later" else "plain", "plain"), renderer,
            )
            for n, idx in enumerate(history):
                if n:
                    pair.step(f"s = {states[idx]!r}", sc.set_s(states[idx]))
                for what, i in plan.get(n, ()):
                    getattr(pair, what)(i)
            res.transitions += pair.steps
            res.validated += 1
            gc.collect(1)
    res.sample({"pair": specs, "trace": pair.trace[:6]})


# -- Local state

LOCAL = ["tree", "multi", "unkeyed", "slot"]


def run_local(task, res):
    names, first = task
    one, two = (sc.local_state(name) for name in names)
    ops = [(i, op) for i in (0, 1) for op in one.ops if op[1] == "local"]
    ops += [(0, op) for op in one.ops if op[1] == "data"][:5]
    res.states += len(ops)
    for history in itertools.product(range(len(ops)), repeat=2):
        watchdog()
        pair = Pair(one.data, (one.top, two.top), ALL)
        pair.mount(0)
        pair.mount(1)
        for idx in (first, *history):
            i, (label, kind, *args) = ops[idx]
            if kind == "data":
                pair.step(label, args[0])
            else:
                pair.step_local(label, i, *args)
        res.transitions += pair.steps
        res.validated += 1
        gc.collect(1)
    res.sample({"local": names, "trace": pair.trace[:6]})


# -- Changes by hooks

HOOKS = ["init", "mounted", "updated", "before_unmount"]


def more(d):
    d["x"] += 1


def toggle(d):
    d["show"] = not d["show"]


def items(d):
    d["items"].append(len(d["items"]))


CHANGES = {"x": more, "show": toggle, "items": items}


def hooked(name):
    """Components of which the names start with `name`"""
    Item = Def(
        f"{name}Item",
        lambda ctx: E("item", {"iid": ctx.iid, "x": ctx.props["x"], "n": len(ctx.d["items"])}),
    )
    Show = Def(
        f"{name}Show",
        lambda ctx: E("show", {"iid": ctx.iid, "x": ctx.d["x"], "show": ctx.d["show"]}),
    )
    Root = Def(
        f"{name}Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid},
            ch=[
                *([C(Item, {"x": ctx.d["x"]})] if ctx.d["show"] else []),
                V([E("i", {"n": n}, key=n) for n in ctx.d["items"]]),
                C(Show, {}),
            ],
        ),
    )
    return lambda ctx: C(Root)


class HookWorld(Shared):
    def hook(self, name, comp):
        pass

    def settle(self):
        """The tree should follow from the data"""
        if self.renderer.errors:
            self.fail(f"illegal renderer call: {self.renderer.errors[0]}")
        self.mdata = copy.deepcopy(to_raw(self.raw))
        model = Model(self.mdata)
        model.update(self.top(Ctx({}, None, None, self.mdata)))
        expected = dump(model.root, True)
        actual = self.container.dump(True)
        if actual != expected:
            self.fail(f"expected: {expected}\n  actual:   {actual}")
        made = sorted(i.defn.name for i in model.instances())
        alive = sorted(
            c.defn.name for c in self.comps
            if c.alive and self.router.owner(c) is self
        )
        if made != alive:
            self.fail(f"mounted components are {alive} instead of {made}")


def run_hooks(task, res):
    """actions: [(component, hook, change or 'render')]"""
    (actions,) = task
    for ops in itertools.product([*CHANGES, "render"], repeat=2 if len(actions) > 1 else 3):
        watchdog()
        data = {"x": 0, "show": True, "items": []}
        tops = hooked("A"), hooked("B")
        worlds = [HookWorld(data, top, oracles=frozenset(["tree"])) for top in tops]
        router = Router(data, worlds)
        for world in worlds:
            world.trace = worlds[0].trace
        trace = worlds[0].trace
        done = [0] * len(actions)
        shown = []
        total = 0

        def render():
            # (the second one, for the first time or again)
            world = worlds[len(shown)] if len(shown) < 2 else worlds[1]
            if world not in shown:
                world.gui = cg.Collagraph(
                    renderer=world.renderer, event_loop_type=cg.EventLoopType.SYNC
                )
                shown.append(world)
            world.gui.render(world.real_top(), world.container, callback=world.new_callback())

        def on_hook(name, comp):
            nonlocal total
            if name == "mounted":
                if comp.alive is not None:
                    raise Violation(f"mounted of {comp.defn.name} is called twice")
                comp.alive = True
            elif comp.alive is not True:
                raise Violation(f"{name} of {comp.defn.name} which is not mounted")
            if name == "before_unmount":
                comp.alive = False
            for i, (part, hook, change) in enumerate(actions):
                if hook == name and part == comp.defn.name and done[i] < 2:
                    done[i] += 1
                    total += 1
                    trace.append(f"  {name} of {part}: {change}")
                    if change == "render":
                        if len(shown) < 2:
                            render()
                    else:
                        CHANGES[change](router.data)

        router.on_hook = on_hook
        render()
        for world in shown:
            world.settle()
        for op in ops:
            trace.append(op)
            if op == "render":
                render()
            else:
                CHANGES[op](router.data)
            for world in shown:
                world.settle()
        res.states += 1
        res.transitions += len(ops) + 1 + total
        res.validated += 1
        gc.collect(1)
    res.sample({"actions": actions, "trace": trace[:8]})


# -- Schedules


OTHER = Def(
    "Other",
    lambda ctx: E(
        "other", {"iid": ctx.iid, "x": ctx.d["x"]},
        ch=[E("y", {"y": ctx.d["y"]})] if ctx.d["y"] else [],
    ),
)
ASYNC = ["lists", "levels", "handlers", "slots", "mixed"]


def async_pair(name):
    if name == "lists":
        return c05.lists("mix1"), c05.lists("host")
    scenario = c05.SCENARIOS[name]()
    if name == "levels":
        return scenario, c05.Async(scenario.data, lambda ctx: C(OTHER), scenario.ops)
    return scenario, scenario


def execute(name, ops, schedule, units):
    scenarios = async_pair(name)
    worlds = [c05.AsyncWorld(s, units) for s in scenarios]
    router = Router(scenarios[0].data, worlds)
    trace = worlds[0].trace
    for world in worlds:
        world.trace = trace
    loop = worlds[0].loop
    executed = 0

    def callback():
        nonlocal executed
        loop.run_next()
        executed += 1
        trace.append("callback")
        for world in worlds:
            if world.renderer.errors:
                world.fail(f"illegal renderer call: {world.renderer.errors[0]}")
        if executed > 600:
            worlds[0].fail("no end of the work within 600 callbacks")

    try:
        aio.Clock.now = 1
        Runtime.current = router
        started = []
        for op, at in zip(["render 0", *ops], [0, *schedule]):
            while executed < at:
                callback()
            if op in ("render 0", "render 1"):
                world = worlds[int(op[-1])]
                trace.append(op)
                if world not in started:
                    world.gui = cg.Collagraph(renderer=world.renderer)
                    started.append(world)
                world.gui.render(world.real_top(), world.container)
            else:
                label, _, fn = scenarios[0].ops[op]
                trace.append(label)
                fn(router.data)
                for world in worlds:
                    fn(world.mdata)
        while loop.queue:
            callback()
        for world in started:
            model = Model(world.mdata)
            model.update(world.top(Ctx({}, None, None, world.mdata)))
            world.model = model
            world.compare_tree(model.root, world.container)
            world.probe(model.root)
            made = sorted(i.defn.name for i in model.instances())
            alive = sorted(
                c.defn.name for c in router.comps if c.alive and router.owner(c) is world
            )
            if made != alive:
                world.fail(f"mounted components are {alive} instead of {made}")
    finally:
        aio.Clock.now = None
    return executed


def run_async(task, res):
    name, ops, units = task

    def explore(schedule):
        watchdog()
        total = execute(name, ops[: len(schedule)], schedule, units)
        res.states += 1
        res.transitions += total + len(schedule)
        res.validated += 1
        if len(schedule) == len(ops):
            return
        for at in range(schedule[-1] if schedule else 0, total + 1):
            explore([*schedule, at])

    explore([])
    gc.collect()
    res.sample({"name": name, "ops": ops, "units": units})


# -- Tasks


def tasks(tier):
    quick = tier == "quick"
    result = []
    for i, specs in enumerate(pairs(tier)):
        n = len(sc.make(specs[0]).states)
        for renderer in (False, True):
            if quick and renderer and i % 4:
                continue
            for part in PLANS if n > 6 else [None]:
                result.append(["sync", specs, renderer, part, 5 if quick and n > 100 else 1])
    for names in itertools.combinations_with_replacement(LOCAL, 2):
        for first in range(15 if not quick else 5):
            result.append(["local", list(names), first])
    single = [
        [who + part, hook, change]
        for who in "AB" for part in ("Item", "Show", "Root") for hook in HOOKS[1:]
        for change in [*CHANGES, "render"]
        if not (part != "Item" and hook == "before_unmount")
        and not (who == "B" and change == "render")
    ]
    for action in single:
        result.append(["hooks", [action]])
    for one, two in itertools.combinations(single, 2):
        if one[0][0] != two[0][0] or not quick:
            if quick and (single.index(one) + single.index(two)) % 3:
                continue
            result.append(["hooks", [one, two]])
    for name in ASYNC:
        n = len(async_pair(name)[0].ops)
        options = ["render 0", "render 1", *range(n)]
        for length in (1, 2) if quick else (1, 2, 3):
            for ops in itertools.product(options, repeat=length):
                if "render 1" not in ops:
                    continue
                if length == 3 and ops.count("render 1") > 1:
                    continue
                for units in (1, 2, 0) if length < 3 else (2,):
                    result.append(["async", name, list(ops), units])
    return result


def run_task(task):
    kind, *args = task
    res = Result()
    gc.disable()
    # (to make collections cheap)
    gc.freeze()
    {"sync": run_sync, "local": run_local, "hooks": run_hooks, "async": run_async}[kind](
        args, res
    )
    gc.collect()
    return res
