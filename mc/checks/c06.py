"""State changes that are made by constructors, lifecycle hooks and event handlers."""
from mc import aio  # first: replaces the clock

import copy
import gc
import itertools

import collagraph as cg
from observ import to_raw

from mc.engine import Result, watchdog
from mc.ui import C, Ctx, Def, E, H, Model, Runtime, S, T, V, World

ID = "C06"
LEVEL = "model_checking"
RULE = """A fixed tree of components is mounted and changed by all sequences of operations
(up to a length), for all assignments of a bounded number of state changes to the
constructors and hooks of the components. Afterwards the tree of elements should be the
one that follows from the data and local states at that point. A state is such an
assignment with a sequence of operations; transitions are operations and changes."""

HOOKS = ["init", "mounted", "updated", "before_unmount"]
MAX = 2  # times that each assigned change is made


class ReWorld(World):
    def __init__(self, data, top, actions, loop_type):
        super().__init__(
            data, top, oracles=frozenset(["tree", "protocol", "handlers"]),
            loop_type=loop_type,
        )
        self.actions = actions
        self.done = {}
        self.depth = 0
        self.performed = 0

    def act(self, name, comp):
        for i, (comp_name, hook, action) in enumerate(self.actions):
            if hook == name and comp_name == comp.defn.name:
                if self.done.get(i, 0) < MAX:
                    self.done[i] = self.done.get(i, 0) + 1
                    self.trace.append(f"  {name} of {comp_name}: {action}")
                    self.performed += 1
                    ACTIONS[action](self, comp)

    def hook(self, name, comp):
        if name == "mounted":
            if comp.alive is not None:
                self.fail(f"mounted of {comp.defn.name} is called twice")
            comp.alive = True
        elif name == "updated":
            if comp.alive is not True:
                self.fail(f"updated of {comp.defn.name} which is not mounted")
        elif name == "before_unmount":
            if comp.alive is not True:
                self.fail(f"before_unmount of {comp.defn.name} which is not mounted")
            comp.alive = False
        self.act(name, comp)

    def live(self, name):
        comps = [c for c in self.comps if c.alive and c.defn.name == name]
        if len(comps) != 1:
            self.fail(f"{len(comps)} instances of {name} are mounted instead of one")
        return comps[0]

    def settle(self):
        if self.loop_type is cg.EventLoopType.DEFAULT:
            n = 0
            while aio.Policy.loop.queue:
                aio.Policy.loop.run_next()
                n += 1
                if n > 2000:
                    self.fail("no end of the work within 2000 callbacks")
        if self.renderer.errors:
            self.fail(f"illegal renderer call: {self.renderer.errors[0]}")
        # What should be visible according to all of the current data
        self.mdata = copy.deepcopy(to_raw(self.raw))
        self.model = Model(self.mdata)
        self.model.update(self.top(Ctx({}, None, None, self.mdata)))
        for comp in self.comps:
            comp.model = None
        clear = [self.container]
        while clear:
            el = clear.pop()
            el.m = None
            clear.extend(el.children)
        self.compare_tree(self.model.root, self.container)
        present = sorted(i.defn.name for i in self.model.instances())
        alive = sorted(c.defn.name for c in self.comps if c.alive)
        if present != alive:
            self.fail(f"mounted components are {alive} instead of {present}")
        self.probe(self.model.root)


def change_x(world, comp):
    world.data["x"] += 1


def change_n(world, comp):
    comp.state["n"] += 1


def toggle_a(world, comp):
    world.data["a"] = not world.data["a"]


def toggle_b(world, comp):
    world.data["b"] = not world.data["b"]


def parent_n(world, comp):
    if comp.parent is not None:
        comp.parent.state["n"] += 1


def add_item(world, comp):
    world.data["items"].insert(0, len(world.data["items"]))


def emit(world, comp):
    token = object()
    comp.emit("tell", token)
    # (there are no handlers yet when a component is created)
    calls = [t for t in TOKENS if t is token]
    if len(calls) != 1 and comp.alive is not None:
        world.fail(f"event of {comp.defn.name} in a hook: {len(calls)} calls of the handler")


ACTIONS = {
    "x += 1": change_x,
    "n += 1": change_n,
    "toggle a": toggle_a,
    "toggle b": toggle_b,
    "n of parent += 1": parent_n,
    "add item": add_item,
    "emit": emit,
}


def make_init(name):
    def init(ctx):
        world = Runtime.current
        if ctx.comp is not None:
            ctx.state.update({"n": 0})
            world.act("init", ctx.comp)
        else:
            # Local state of the code is leading
            ctx.state.update(copy.deepcopy(to_raw(world.live(name).state)))

    return init


TOKENS = []


def tell(n):
    """Handler that is different for each n, so it is replaced by what it does"""

    def handler(comp, *args, captured=n):
        assert captured == n
        TOKENS.extend(args)
        comp.state["n"] += 10

    return handler


def build():
    B = Def(
        "B",
        lambda ctx: E(
            "b", {"iid": ctx.iid, "n": ctx.state["n"], "p": ctx.props["p"]}
        ),
        make_init("B"),
    )
    A = Def(
        "A",
        lambda ctx: V(
            [
                E("a", {"iid": ctx.iid, "n": ctx.state["n"], "x": ctx.props["x"]}),
                *([C(B, {"p": ctx.state["n"]})] if ctx.d["b"] else []),
            ]
        ),
        make_init("A"),
    )
    W = Def(
        "W",
        lambda ctx: E("w", {"iid": ctx.iid, "n": ctx.state["n"]}, ch=[S()]),
        make_init("W"),
    )
    Root = Def(
        "Root",
        lambda ctx: E(
            "root", {"iid": ctx.iid, "n": ctx.state["n"], "x": ctx.d["x"]},
            ch=[
                *(
                    [C(A, {"x": ctx.d["x"]}, on={"tell": H("call", tell(ctx.state["n"]))}, key="a")]
                    if ctx.d["a"]
                    else []
                ),
                C(
                    W, {}, key="w", on={"tell": H("call", tell(ctx.state["n"]))},
                    slots={
                        "default": lambda p: [E("i", {"i": i}) for i in ctx.d["items"]]
                        + [T(str(ctx.d["x"]))]
                    },
                ),
                E("btn", key="e", on={"click": H("call", change_all(ctx.state["n"]))}),
            ],
        ),
        make_init("Root"),
    )
    return {"x": 0, "a": True, "b": True, "items": [0]}, lambda ctx: C(Root)


def change_all(n):
    def handler(comp, *args, captured=n):
        comp.state["n"] += 1
        comp.rt.data["x"] += captured - n + 1
        comp.rt.data["b"] = not comp.rt.data["b"]

    return handler


def op_click(world):
    stack = [world.container]
    while stack:
        el = stack.pop()
        for handler in list(el.on.get("click", ())):
            handler()
        stack.extend(el.children)


def op_local(name):
    def op(world):
        for comp in world.comps:
            if comp.alive and comp.defn.name == name:
                comp.state["n"] += 1

    return op


def op_emit(name):
    def op(world):
        for comp in list(world.comps):
            if comp.alive and comp.defn.name == name:
                token = object()
                comp.emit("tell", token)
                calls = [t for t in TOKENS if t is token]
                if len(calls) != 1:
                    world.fail(f"event of {name}: {len(calls)} calls of the handler")

    return op


OPS = {
    "x += 1": lambda w: change_x(w, None),
    "toggle a": lambda w: toggle_a(w, None),
    "toggle b": lambda w: toggle_b(w, None),
    "click": op_click,
    "n of A += 1": op_local("A"),
    "W emits": op_emit("W"),
    "A emits": op_emit("A"),
}


def tasks(tier):
    single = [
        [comp, hook, action]
        for comp in ("Root", "A", "B", "W")
        for hook in HOOKS
        for action in ACTIONS
        if not (comp == "Root" and hook == "before_unmount")
        and not (action == "emit" and comp in ("Root", "B"))
        # The parent is not changed while it is being evaluated itself
        and not (hook == "init" and action != "n += 1" and action != "emit")
    ] + [["B", "init", "add item"], ["A", "init", "add item"]]
    result = [[[], "sync"], [[], "async"]]
    for action in single:
        result.append([[action], "sync"])
        result.append([[action], "async"])
    if tier == "quick":
        some = [
            a for a in single
            if a[2] in ("n += 1", "toggle b", "x += 1") and a[0] in ("Root", "A", "B")
        ]
        for pair in itertools.combinations(some, 2):
            result.append([list(pair), "sync"])
    else:
        for pair in itertools.combinations(single, 2):
            result.append([list(pair), "sync"])
            result.append([list(pair), "async"])
    return result


def run_task(task):
    actions, mode = task
    loop_type = (
        cg.EventLoopType.SYNC if mode == "sync" else cg.EventLoopType.DEFAULT
    )
    res = Result()
    gc.disable()
    data, top = build()
    length = 3 if len(actions) < 2 else 2
    # Events of A are part of the single changes
    names = list(OPS) if length == 2 else list(OPS)[:-1]
    for ops in itertools.product(names, repeat=length):
        watchdog()
        if mode == "async":
            aio.setup()
            aio.Clock.now = 1
            aio.Clock.step = 20_000_000
        try:
            world = ReWorld(data, top, actions, loop_type)
            world.gui = cg.Collagraph(
                renderer=world.renderer, event_loop_type=loop_type
            )
            world.gui.render(world.real_top(), world.container)
            world.settle()
            for name in ops:
                world.trace.append(name)
                OPS[name](world)
                world.settle()
        finally:
            aio.Clock.now = None
        TOKENS.clear()
        res.states += 1
        res.transitions += len(ops) + 1 + world.performed
        res.validated += 1
    if actions:
        res.sample({"actions": actions, "mode": mode, "trace": world.trace})
    gc.collect()
    return res
