"""Families of user interfaces, whose data ranges over an enumerated set of states.

Each scenario: states (list of plain values for d["s"]), top(ctx) and options. The
histories are windows of a de Bruijn sequence over the states, such that all of the
sequences of states of a given length are executed."""
import copy
import itertools

from mc.engine import Result, watchdog
from mc.ui import C, Def, E, F, H, S, T, V, World, windows


class Scenario:
    def __init__(self, states, body, source="props", init=None, falsy=False, **options):
        self.states = states
        self.options = options
        # (sources with +v have no single root element)
        self.source, _, virtual = source.partition("+")
        self.top = root(body, self.source, states, falsy, virtual)

    def data(self, s):
        return {"s": copy.deepcopy(s)}


def root(body, source, states, falsy=False, virtual=False):
    """Root component that reads s from a certain source and renders body(s, ctx)"""
    if virtual:
        wrap = lambda s, ctx: V([*body(s, ctx), E("last", {"iid": ctx.iid})])
        plain = lambda s, ctx: V(body(s, ctx))
        wrap_top = lambda ctx, ch: V([E("first", {"iid": ctx.iid}), *ch])
    else:
        wrap = lambda s, ctx: E("root", {"iid": ctx.iid}, ch=body(s, ctx))
        plain = lambda s, ctx: E("root", ch=body(s, ctx))
        wrap_top = lambda ctx, ch: E("top", {"iid": ctx.iid}, ch=ch)
    if source == "props":
        d = Def("Root", lambda ctx: wrap(ctx.props["s"], ctx), falsy=falsy)
        return lambda ctx: C(d, {"__same__": ctx.d})
    if source == "pass":
        # A parent that passes on a value of the state
        inner = Def("Inner", lambda ctx: wrap(ctx.props["v"], ctx), falsy=falsy)
        d = Def(
            "Root",
            lambda ctx: wrap_top(ctx, [C(inner, {"v": ctx.d["s"]})]),
        )
        return lambda ctx: C(d)
    if source == "extern":
        d = Def("Root", lambda ctx: wrap(ctx.d["s"], ctx), falsy=falsy)
        return lambda ctx: C(d)
    if source == "func":
        d = Def("Root", lambda ctx: plain(ctx.props["s"], ctx), func=True)
        return lambda ctx: F(d, {"__same__": ctx.d})
    if source == "render":
        # No component at all: render is called for each change
        return lambda ctx: plain(ctx.d["s"], ctx)
    if source == "state":
        d = Def(
            "Root",
            lambda ctx: wrap(ctx.state["s"], ctx),
            init=lambda ctx: ctx.state.update({"s": copy.deepcopy(states[0])}),
            falsy=falsy,
        )
        return lambda ctx: C(d)
    raise ValueError(source)


def set_s(value):
    def op(d):
        d["s"] = copy.deepcopy(value)

    return op


def execute(scenario, history, oracles, el_type="plain", gc_each=False, res=None):
    """Executes the history of (indices of) states"""
    states = scenario.states
    source = scenario.source
    first = states[history[0]]
    world = World(
        scenario.data(first), scenario.top, oracles=oracles, el_type=el_type,
        gc_each=gc_each,
    )
    if source == "state":
        world.mount()
        todo = history
    else:
        world.mount()
        todo = history[1:]
    for idx in todo:
        op = set_s(states[idx])
        label = f"s = {states[idx]!r}"
        if source == "state":
            inst = next(iter(world.model.instances()))
            world.step_local(label, inst, op)
        elif source == "render":
            op(world.data)
            op(world.mdata)
            world.rerender(label)
        else:
            world.step(label, op)
    if res is not None:
        res.transitions += world.steps
        res.validated += 1
    return world


# ------------------------------------------------------------------------- families
def subsets(keys):
    """All ordered subsets"""
    return [
        list(p)
        for r in range(len(keys) + 1)
        for p in itertools.permutations(keys, r)
    ]


Item = Def("Item", lambda ctx: E("item", {"iid": ctx.iid, "n": ctx.props["n"]}))
Outer = Def("Outer", lambda ctx: C(Wrapped, {"n": ctx.props["n"], "o": ctx.iid}))
Wrapped = Def(
    "Wrapped",
    lambda ctx: E(
        "wrapped", {"iid": ctx.iid, "o": ctx.props["o"]}, ch=[T(str(ctx.props["n"]))]
    ),
    falsy=True,
)
Multi = Def(
    "Multi",
    lambda ctx: V(
        [E("m1", {"iid": ctx.iid, "n": ctx.props["n"]}), E("m2", {"n": ctx.props["n"]})]
    ),
    falsy=True,
)
Fn = Def("Fn", lambda ctx: E("fn", {"n": ctx.props["n"]}), func=True)
FnMulti = Def(
    "FnMulti",
    lambda ctx: V([T(f"t{ctx.props['n']}"), E("fn", {"n": ctx.props["n"]})]),
    func=True,
)
Slotted = Def(
    "Slotted",
    lambda ctx: E("slotted", {"iid": ctx.iid}, ch=[S(), S("b", [T("fb")])]),
)
# Components with the same name
TwinA = Def("Twin", lambda ctx: E("twin", {"iid": ctx.iid, "a": ctx.props["n"]}))
TwinB = Def("Twin", lambda ctx: E("twin", {"iid": ctx.iid, "b": ctx.props["n"]}))
FnTwinA = Def("Twin", lambda ctx: E("twin", {"a": ctx.props["n"]}), func=True)
FnTwinB = Def("Twin", lambda ctx: E("twin", {"b": ctx.props["n"]}), func=True)
SlotOnly = Def(
    "SlotOnly",
    lambda ctx: V([E("hd", {"iid": ctx.iid}), S()]),
    falsy=True,
)



def computed(k):
    """Keys, types and names of attributes that are equal, but new objects each time"""
    key = [f"row {k}", (k, str(k)), 10**9 + k, k + 0.5][k % 4]
    attrs = {"".join(["na", "me"]): k}
    if k % 2:
        return C(Item, {"".join(["n"]): k}, key=key)
    return E("-".join(["computed", "item"]), attrs, key=key)


KINDS = {
    "host": lambda k: E("i", {"n": k}, key=k),
    "text": lambda k: E("i", key=k, ch=[T(str(k))]),
    "comp": lambda k: C(Item, {"n": k}, key=k),
    "nested": lambda k: C(Outer, {"n": k}, key=k),
    "multi": lambda k: C(Multi, {"n": k}, key=k),
    "tpl2": lambda k: V([E("a", {"n": k}), E("b", {"n": k})], key=k),
    "tplempty": lambda k: V([] if k % 2 else [E("a", {"n": k})], key=k),
    "fn": lambda k: F(Fn, {"n": k}, key=k),
    "fnmulti": lambda k: F(FnMulti, {"n": k}, key=k),
    "slot": lambda k: C(
        SlotOnly, {}, key=k, slots={"default": lambda p: E("sl", {"n": k})}
    ),
    "computed": lambda k: computed(k),
    "twins": lambda k: [C, C, F, F][k % 4](
        [TwinA, TwinB, FnTwinA, FnTwinB][k % 4], {"n": k}, key=k
    ),
    "deep": lambda k: V([V([C(Multi, {"n": k}), E("x", {"n": k})])], key=k),
}
MIXES = {
    "mix1": ["host", "comp", "tpl2", "multi"],
    "mix2": ["tplempty", "tplempty", "nested", "fnmulti"],
    "mix3": ["slot", "deep", "tplempty", "fn"],
}


def kind_fn(kind):
    if kind in MIXES:
        return lambda k: KINDS[MIXES[kind][k % 4]](k)
    return KINDS[kind]


LAYOUTS = {
    "bare": lambda ch: ch,
    "between": lambda ch: [E("head"), *ch, E("foot")],
    "tpl": lambda ch: [E("head"), V(ch), E("foot")],
    "tpl2": lambda ch: [V([V(ch)]), V([E("foot")])],
    "deep": lambda ch: [E("div", ch=[E("head"), V(ch)]), E("foot")],
    "slotted": lambda ch: [
        C(Slotted, {}, slots={"default": lambda p: ch, "b": lambda p: [E("b")]}),
        E("foot"),
    ],
    "slotonly": lambda ch: [
        E("head"),
        C(SlotOnly, {}, slots={"default": lambda p: V(ch)}),
        E("foot"),
    ],
}


def keyed(kind, layout, keys, source):
    item = kind_fn(kind)
    lay = LAYOUTS[layout]
    return Scenario(
        subsets(range(keys)), lambda s, ctx: lay([item(k) for k in s]), source
    )


KEY_POOLS = {
    "texts": [1, "1", "None", (1,)],
    "tuples": [(1,), "(1,)", "1", (1, "")],
    "empty": [0, "", (), "0"],
    "marks": [frozenset(), 1.5, "1.5", b"1"],
}


def key_types(kind, pool):
    """Keys of different types that look like each other"""
    keys = KEY_POOLS[pool]
    item = kind_fn(kind)

    def make(k):
        n = item(k)
        n.key = keys[k]
        return n

    return Scenario(
        subsets(range(len(keys))), lambda s, ctx: [make(k) for k in s], "extern"
    )


def keyed_twice(kind):
    """Two lists next to each other under virtual nodes"""
    item = kind_fn(kind)
    states = [[a, b] for a in subsets(range(2)) for b in subsets(range(2))]
    return Scenario(
        states,
        lambda s, ctx: [
            V([item(k) for k in s[0]]),
            V([item(k) for k in s[1]]),
            E("foot"),
        ],
    )


UNKEYED = {
    "a": lambda i: E("a", {"p": i}),
    "b": lambda i: E("b", {"p": i}),
    "t": lambda i: T(f"text{i}"),
    "X": lambda i: C(Item, {"n": i}),
    "Y": lambda i: C(Multi, {"n": i}),
    "v": lambda i: V([E("a", {"p": i}), T("v")]),
    "e": lambda i: V([]),
    "f": lambda i: F(FnMulti, {"n": i}),
    "P": lambda i: C(TwinA, {"n": i}),
    "Q": lambda i: C(TwinB, {"n": i}),
    "p": lambda i: F(FnTwinA, {"n": i}),
    "q": lambda i: F(FnTwinB, {"n": i}),
}


def unkeyed(alphabet, length, layout="bare"):
    lay = LAYOUTS[layout]
    states = [
        "".join(p)
        for r in range(length + 1)
        for p in itertools.product(alphabet, repeat=r)
    ]
    return Scenario(
        states,
        lambda s, ctx: lay([UNKEYED[c](i) for i, c in enumerate(s)]),
        "extern",
    )


MIXED = {
    "a": lambda i: E("a", {"p": i}),
    "b": lambda i: E("b", {"p": i}),
    "X": lambda i: C(Item, {"n": i}),
    "1": lambda i: E("a", {"p": i}, key="k"),
    "2": lambda i: E("b", {"p": i}, key="k"),
    "3": lambda i: C(Item, {"n": i}, key="k"),
    "4": lambda i: C(Multi, {"n": i}, key="k"),
    "5": lambda i: E("a", {"p": i}, key="l"),
    "6": lambda i: C(Item, {"n": i}, key="l"),
}


def mixed(alphabet, length):
    states = []
    for r in range(length + 1):
        for p in itertools.product(alphabet, repeat=r):
            if sum(c in "1234" for c in p) <= 1 and sum(c in "56" for c in p) <= 1:
                states.append("".join(p))
    return Scenario(
        states, lambda s, ctx: [MIXED[c](i) for i, c in enumerate(s)], "pass"
    )


class Eq:
    """Values that are equal to each other but that are distinct"""

    def __init__(self, n):
        self.n = n

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"Obj{self.n}"


OBJ1, OBJ2 = Eq(1), Eq(2)
VALUES = [None, 0, 1, "", "x", False, [1], {"a": 1}, (), OBJ1, OBJ2]


def attributes(values, names=("p", "q"), on_comp=False):
    """Attributes that come, go and change"""
    absent = object()
    options = [absent, *values]
    states = []
    for combo in itertools.product(options, repeat=len(names)):
        states.append([[n, v] for n, v in zip(names, combo) if v is not absent])
    if on_comp:
        d = Def(
            "Attrs",
            lambda ctx: E(
                "x",
                {"iid": ctx.iid, **{k: ctx.props[k] for k in sorted(ctx.props)}},
            ),
        )
        body = lambda s, ctx: [C(d, {k: v for k, v in s})]
    else:
        body = lambda s, ctx: [
            E("x", {k: v for k, v in s}, ch=[E("y", {k: v for k, v in s[:1]})])
        ]
    return Scenario(states, body, "extern")


def deep_flags(kind, n):
    """Nested tree in which each node is only present when its flag is set"""
    item = {
        "host": lambda i, ch: E("n", {"i": i}, ch=ch),
        "tpl": lambda i, ch: V([T(f"t{i}"), *ch]),
        "tplrev": lambda i, ch: V([*ch, T(f"t{i}")]),
        "slot": lambda i, ch: C(SlotOnly, {}, slots={"default": lambda p: ch}),
        "fnslot": lambda i, ch: F(FnSlot, {"i": i}, slots={"default": lambda p: ch}),
    }[kind]

    def build(i, s):
        ch = []
        for j in (2 * i + 1, 2 * i + 2):
            if j < n and s[j]:
                ch.extend(build(j, s))
        return [item(i, ch)]

    states = [list(p) for p in itertools.product([1, 0], repeat=n)]
    states = [s for s in states if all(s[(j - 1) // 2] or not s[j] for j in range(1, n))]
    return Scenario(
        states, lambda s, ctx: [E("head")] + (build(0, s) if s[0] else []) + [E("foot")],
        "props",
    )


FnSlot = Def(
    "FnSlot",
    lambda ctx: V([E("fs", {"i": ctx.props["i"]}), S()]),
    func=True,
)


def texts(n):
    alphabet = ["", "a", "b"]
    states = [
        list(p) for r in range(n + 1) for p in itertools.product(alphabet, repeat=r)
    ]
    return Scenario(
        states,
        lambda s, ctx: [E("p", ch=[T(t) for t in s]), E("q", ch=[T("x"), *map(T, s)])],
        "props",
    )


def root_kind(kinds=("h", "g", "X", "Y", "v", "w", "F", "O")):
    """The root node of a component changes its type"""
    body = {
        "h": lambda ctx: E("h", {"iid": ctx.iid}),
        "g": lambda ctx: E("g", {"iid": ctx.iid}, ch=[T("x")]),
        "X": lambda ctx: C(IidItem, {"o": ctx.iid}),
        "Y": lambda ctx: C(IidOther, {"o": ctx.iid}),
        "v": lambda ctx: V([E("h", {"iid": ctx.iid}), E("h")]),
        "w": lambda ctx: V([V([E("g", {"iid": ctx.iid})]), C(Item, {"n": 1})]),
        "F": lambda ctx: F(IidFn, {"o": ctx.iid}),
        "O": lambda ctx: C(Chain, {"o": ctx.iid}),
    }
    Changing = Def("Changing", lambda ctx: body[ctx.props["kind"]](ctx))
    return Scenario(
        list(kinds),
        lambda s, ctx: [E("head"), C(Changing, {"kind": s}), E("foot")],
        "pass",
    )


IidItem = Def("IidItem", lambda ctx: E("ii", {"iid": ctx.iid, "o": ctx.props["o"]}))
IidOther = Def(
    "IidOther", lambda ctx: V([E("io", {"iid": ctx.iid, "o": ctx.props["o"]})])
)
IidFn = Def("IidFn", lambda ctx: E("if", {"o": ctx.props["o"]}), func=True)
Chain = Def("Chain", lambda ctx: C(ChainInner, {"o": ctx.props["o"], "p": ctx.iid}))
ChainInner = Def(
    "ChainInner",
    lambda ctx: E("ci", {"iid": ctx.iid, "o": ctx.props["o"], "p": ctx.props["p"]}),
)


HOWS = [
    "lam", "default", "partial", "obj", "equal", "box", "def", "meth", "methargs", "state",
]


def handlers(hows=HOWS, on_comp=False, events=1):
    """Event handlers of all kinds that come, go and change"""
    options = [None]
    for how in hows:
        if how == "meth":
            options += [[how, "m", 0], [how, "m2", 0]]
        elif how == "state":
            options += [[how, "s", "x"], [how, "s", "y"]]
        else:
            options += [[how, "t", 1], [how, "t", 2]]
    states = [list(p) for p in itertools.product(options, repeat=events)]
    names = ["evt", "other"][:events]

    def on(s):
        return {n: H(*x) for n, x in zip(names, s) if x is not None}

    init = lambda ctx: ctx.state.update({"x": 5, "y": 6})
    if on_comp:
        child = Def("Child", lambda ctx: E("c", {"iid": ctx.iid}))
        d = Def(
            "Handlers",
            lambda ctx: E(
                "r", {"iid": ctx.iid}, ch=[C(child, {}, on=on(ctx.props["v"]))]
            ),
            init=init,
        )
    else:
        d = Def(
            "Handlers",
            lambda ctx: E(
                "r",
                {"iid": ctx.iid},
                on=on(ctx.props["v"]),
                ch=[E("c", {}, on=on(ctx.props["v"][::-1]))],
            ),
            init=init,
        )
    return Scenario(states, lambda s, ctx: [C(d, {"v": s})], "extern")


def moving_handlers(keys):
    """Handlers of items that move: each item refers to its value and position"""
    return Scenario(
        subsets(range(keys)),
        lambda s, ctx: [
            E("i", {}, key=k, on={"evt": H("lam", "k", k), "pos": H("default", "p", i)})
            for i, k in enumerate(s)
        ]
        + [
            C(Item, {"n": k}, key=f"c{k}", on={"evt": H("lam", "pos", i)})
            for i, k in enumerate(s)
        ],
        "extern",
    )


def slots():
    """Content of slots that depends on the parent, the slot and on the props"""
    content = {
        "-": None,
        "e": lambda v: [],
        "a": lambda v: [E("a", {"v": v})],
        "b": lambda v: [E("b", {"v": v}), T(f"{v}")],
        "X": lambda v: [C(Item, {"n": v})],
        "v": lambda v: V([E("a", {"v": v})]),
    }
    Two = Def(
        "Two",
        lambda ctx: E(
            "two", {"iid": ctx.iid},
            ch=[E("l", ch=[S("default", [T("fallback")])]), S("b"), E("foot")],
        ),
    )
    TwoFn = Def(
        "TwoFn",
        lambda ctx: E("twofn", ch=[S("default", [T("fallback")]), S("b"), E("foot")]),
        func=True,
    )
    states = [
        [x, y, v, fn]
        for x in content
        for y in content
        for v in (0, 1)
        for fn in (0, 1)
    ]

    def body(s, ctx):
        x, y, v, fn = s
        sl = {}
        if content[x]:
            sl["default"] = lambda p: content[x](v)
        if content[y]:
            sl["b"] = lambda p: content[y](ctx.d["s"][2])
        return [F(TwoFn, {}, slots=sl) if fn else C(Two, {}, slots=sl), E("end")]

    return Scenario(states, body, "extern")


def nested_slots():
    """Slots that are passed on by a component to another component"""
    Inner = Def(
        "InnerS",
        lambda ctx: V([E("inner", {"iid": ctx.iid}), S("default", [T("none")])]),
    )
    Pass = Def(
        "PassS",
        lambda ctx: E("pass", {"iid": ctx.iid, "w": ctx.props["w"]}, ch=[S("x"), S()]),
    )
    states = [
        [a, b, c] for a in ("-", "a", "X", "I") for b in (0, 1, 2) for c in (0, 1)
    ]

    def body(s, ctx):
        a, b, c = s
        inner = {
            "-": lambda p: [],
            "a": lambda p: [E("a", {"b": ctx.d["s"][1]})],
            "X": lambda p: [C(Item, {"n": ctx.d["s"][1]}, key=b), E("z")],
            "I": lambda p: [C(Inner, {}, slots={"default": lambda p: E("i", {"b": b})})],
        }[a]
        sl = {"default": lambda p: [C(Inner, {}, slots={"default": inner}), T(str(b))]}
        if c:
            sl["x"] = lambda p: C(Inner, {})
        return [C(Pass, {"w": c}, slots=sl), E("end")]

    return Scenario(states, body, "extern")


def make(spec):
    name, *args = spec
    return {
        "keyed": keyed,
        "keyed_twice": keyed_twice,
        "key_types": key_types,
        "unkeyed": unkeyed,
        "mixed": mixed,
        "attributes": lambda on_comp, idx, names=("p", "q"): attributes(
            [VALUES[i] for i in idx], names, on_comp
        ),
        "deep_flags": deep_flags,
        "texts": texts,
        "root_kind": root_kind,
        "handlers": handlers,
        "moving_handlers": moving_handlers,
        "slots": slots,
        "nested_slots": nested_slots,
    }[name](*args)


def split(spec, k, el_type="plain", gc_each=False, chunk=150, per_task=8):
    """Tasks for all of the windows of length k"""
    n = len(make(spec).states)
    total = n**k
    n_hist = -(-total // chunk)
    tasks = []
    for i in range(0, n_hist, per_task):
        tasks.append([spec, k, el_type, gc_each, chunk, i, min(n_hist, i + per_task)])
    return tasks


_CACHE = {}


def run_windows(task, oracles):
    """Executes the histories of a task"""
    import gc

    spec, k, el_type, gc_each, chunk, start, stop = task
    key = repr((spec, k, chunk))
    if key not in _CACHE:
        _CACHE.clear()
        scenario = make(spec)
        _CACHE[key] = (scenario, windows(len(scenario.states), k, chunk))
    scenario, hist = _CACHE[key]
    res = Result()
    if start == 0:
        res.states = len(scenario.states)
    gc.disable()
    for history in hist[start:stop]:
        watchdog()
        world = execute(scenario, history, oracles, el_type, gc_each, res)
        if start == 0:
            res.sample(
                {"scenario": spec, "history": world.trace[:4],
                 "ui": world.container.dump()[:300]}
            )
        gc.collect()
    return res


# --------------------------------------------------- scenarios that consist of ops
class OpScenario:
    """ops: list of (label, kind, ...), with kind one of:
    "data": fn(d) is executed for the data
    "local": find(model) returns the instance (or None) of which fn(state) is executed
    "render": fn(d) is executed, and then render is called again
    """

    def __init__(self, data, top, ops):
        self.data = data
        self.top = top
        self.ops = ops
        self.states = ops  # for `split`


def execute_ops(scenario, history, oracles, el_type="plain", gc_each=False, res=None):
    world = World(
        scenario.data, scenario.top, oracles=oracles, el_type=el_type, gc_each=gc_each
    )
    world.mount()
    for idx in history:
        label, kind, *args = scenario.ops[idx]
        if kind == "data":
            world.step(label, args[0])
        elif kind == "local":
            find, fn = args
            inst = find(world.model)
            if inst is not None:
                world.step_local(label, inst, fn)
        elif kind == "render":
            args[0](world.data)
            args[0](world.mdata)
            world.rerender(label)
    if res is not None:
        res.transitions += world.steps
        res.validated += 1
    return world


def find_inst(name, **props):
    def find(model):
        for inst in model.instances():
            if inst.defn.name == name:
                if all(inst.props.get(k) == v for k, v in props.items()):
                    return inst

    return find


def incr(key):
    def fn(state):
        state[key] += 1

    return fn


def assign(key, value):
    def fn(state):
        # (observ does not notice that an object is replaced by an equal object)
        if state[key] != value:
            state[key] = copy.deepcopy(value)

    return fn


def local_state(variant):
    """Components with local state that are moved, updated, removed and created"""
    Leaf = Def(
        "Leaf",
        lambda ctx: E("leaf", {"iid": ctx.iid, "n": ctx.state["n"], "p": ctx.props["p"]}),
        init=lambda ctx: ctx.state.update({"n": 0}),
    )
    Counter = Def(
        "Counter",
        lambda ctx: E(
            "counter",
            {"iid": ctx.iid, "n": ctx.state["n"], "k": ctx.props["k"]},
            ch=[C(Leaf, {"p": ctx.state["n"]})] if ctx.state["show"] else [],
        ),
        init=lambda ctx: ctx.state.update({"n": ctx.props["k"] * 10, "show": True}),
    )
    MultiCounter = Def(
        "Counter",
        lambda ctx: V(
            [
                T(str(ctx.state["n"])),
                E("mc", {"iid": ctx.iid, "k": ctx.props["k"]}),
                *([C(Leaf, {"p": ctx.props["k"]})] * ctx.state["show"]),
            ]
        ),
        init=lambda ctx: ctx.state.update({"n": ctx.props["k"] * 10, "show": True}),
    )
    Unkeyed = Def(
        "Counter",
        lambda ctx: C(Leaf, {"p": ctx.state["n"]})
        if ctx.state["show"]
        else E("x", {"iid": ctx.iid}),
        init=lambda ctx: ctx.state.update({"n": ctx.props["k"] * 10, "show": False}),
    )
    comp = {"tree": Counter, "multi": MultiCounter, "unkeyed": Unkeyed, "slot": Counter}[
        variant
    ]

    def body(ctx):
        items = [
            C(comp, {"k": k}, key=None if variant == "unkeyed" else k)
            for k in ctx.d["s"]
        ]
        if variant == "slot":
            content = V(items)
            items = [C(SlotOnly, {}, slots={"default": lambda p: content})]
        return E("root", {"iid": ctx.iid}, ch=[*items, E("foot")])

    Root = Def("Root", body)
    ops = [(f"s = {s}", "data", set_s(s)) for s in subsets(range(2)) + [[0, 1, 2]]]
    ops += [
        (f"n of {k} += 1", "local", find_inst("Counter", k=k), incr("n")) for k in (0, 1)
    ]
    ops += [
        (f"toggle {k}", "local", find_inst("Counter", k=k), toggle("show"))
        for k in (0, 1)
    ]
    ops += [("n of leaf += 1", "local", find_inst("Leaf"), incr("n"))]
    return OpScenario({"s": [0, 1]}, lambda ctx: C(Root), ops)


def toggle(key):
    def fn(state):
        state[key] = not state[key]

    return fn


def mutations(variant):
    """All kinds of in-place changes of (nested) data"""
    Row = Def(
        "Row",
        lambda ctx: E(
            "row",
            {"iid": ctx.iid, "i": ctx.props["item"]["id"]},
            ch=[T(str(ctx.props["item"]["v"])), T(",".join(ctx.props["item"]["tags"]))],
        ),
    )
    RowFn = Def(
        "RowFn",
        lambda ctx: E("rowf", {"i": ctx.props["item"]["id"]},
                      ch=[T(str(ctx.props["item"]["v"]))]),
        func=True,
    )
    # With content for slots, which uses the data of the definer
    RowSlots = Def(
        "RowSlots",
        lambda ctx: E(
            "rows", {"iid": ctx.iid, "i": ctx.props["item"]["id"]},
            ch=[S("default", [T("none")]), T(str(ctx.props["item"]["v"]))],
        ),
    )
    RowSlotsFn = Def(
        "RowSlotsFn",
        lambda ctx: E(
            "rowsf", {"i": ctx.props["item"]["id"]},
            ch=[T(str(ctx.props["item"]["v"])), S("default", [T("none")])],
        ),
        func=True,
    )

    def row_slots(ctx, r):
        tags = {"default": lambda p: [E("tags", {"t": ",".join(r["tags"])})]}
        empty = {"other": lambda p: [E("other")]}
        if r["id"] % 2:
            return C(RowSlots, {"item": r}, key=r["id"], slots=tags)
        if r["id"] == 2:
            return F(RowSlotsFn, {"item": r}, key=r["id"], slots=empty)
        return F(RowSlotsFn, {"item": r}, key=r["id"], slots=tags)

    Total = Def(
        "Total",
        lambda ctx: E(
            "total",
            {"iid": ctx.iid, "len": len(ctx.props["rows"]),
             "sum": sum(r["v"] for r in ctx.props["rows"])},
        ),
    )
    Opts = Def(
        "Opts",
        lambda ctx: E(
            "opts", {"iid": ctx.iid, **{k: v for k, v in ctx.props["opts"].items()}},
            ch=[T(k) for k in ctx.props["opts"]],
        ),
    )

    def body(ctx):
        d = ctx.d if variant != "props" else ctx.props
        rows = d["rows"]
        return E(
            "root",
            {"iid": ctx.iid, "sel": ",".join(sorted(d["sel"]))},
            ch=[
                *(
                    row_slots(ctx, r)
                    if variant == "slots"
                    else F(RowFn, {"item": r}, key=r["id"])
                    if variant == "func"
                    else C(Row, {"item": r}, key=r["id"])
                    for r in rows
                ),
                C(Total, {"rows": rows}),
                C(Opts, {"opts": d["opts"]}),
                E("first", {"v": rows[0]["v"] if rows else None}),
            ],
        )

    Root = Def("Root", body)

    def row(i):
        return {"id": i, "v": i, "tags": ["t"]}

    def add(at):
        def fn(d):
            ids = {r["id"] for r in d["rows"]}
            new = next(i for i in range(10) if i not in ids)
            if len(ids) < 4:
                d["rows"].insert(at, row(new))

        return fn

    def guard(fn):
        def op(d):
            if len(d["rows"]) > 0:
                fn(d)

        return op

    def setv(d):
        d["rows"][-1]["v"] += 1

    def tag(d):
        d["rows"][0]["tags"].append("x")

    def settags(d):
        assign("tags", ["new"])(d["rows"][0])

    def delrow(d):
        del d["rows"][0]

    def replace(d):
        # Another object with the same key
        new = {**row(d["rows"][0]["id"]), "v": 7}
        if d["rows"][0] != new:
            d["rows"][0] = new

    def swap(d):
        rows = d["rows"]
        rows[:] = [*rows[1:], rows[0]]

    def addopt(d):
        d["opts"]["b"] = d["opts"]["b"] + 1 if "b" in d["opts"] else 1

    def delopt(d):
        if "a" in d["opts"]:
            d["opts"].pop("a")

    def clearopts(d):
        d["opts"].clear()

    def updopts(d):
        d["opts"].update({"a": 5, "c": 6})

    newopts = assign("opts", {"a": 9})

    def addsel(d):
        d["sel"].add("z")

    def delsel(d):
        d["sel"].discard("y")

    newrows = assign("rows", [row(3), row(0)])

    ops = [
        ("append", "data", add(10)),
        ("insert(0)", "data", add(0)),
        ("rows[-1].v += 1", "data", guard(setv)),
        ("rows[0].tags.append", "data", guard(tag)),
        ("rows[0].tags = [new]", "data", guard(settags)),
        ("del rows[0]", "data", guard(delrow)),
        ("rows[0] = other", "data", guard(replace)),
        ("rotate", "data", guard(swap)),
        ("pop", "data", guard(lambda d: d["rows"].pop())),
        ("reverse", "data", lambda d: d["rows"].reverse()),
        ("sort", "data", lambda d: d["rows"].sort(key=lambda r: -r["v"])),
        ("rows = new", "data", newrows),
        ("clear", "data", lambda d: d["rows"].clear()),
        ("opts.b += 1", "data", addopt),
        ("opts.pop(a)", "data", delopt),
        ("opts.clear", "data", clearopts),
        ("opts.update", "data", updopts),
        ("opts = new", "data", newopts),
        ("sel.add", "data", addsel),
        ("sel.discard", "data", delsel),
        ("sel = new", "data", assign("sel", {"y", "w"})),
    ]
    data = {
        "rows": [row(0), row(1)],
        "opts": {"a": 1},
        "sel": {"y"},
    }
    if variant == "props":
        top = lambda ctx: C(Root, {"__same__": ctx.d})
    else:
        top = lambda ctx: C(Root)
    return OpScenario(data, top, ops)


def readers(variant):
    """Data that is used at one place only, which is the only one to notice a change"""

    def show(ctx, type="show"):
        x = ctx.props["x"]
        return E(type, {"n": x["n"]}, ch=[T(str(len(x["items"]))), *map(T, x["items"])])

    def around(type):
        return lambda ctx: E(type, {"m": ctx.props["x"]["n"]}, ch=[S("default", [T("-")])])

    def fallback(ctx):
        return V([S("default", [T(str(ctx.props["x"]["n"])), *map(T, ctx.props["x"]["items"])])])

    Cls = Def("Cls", show)
    Fn = Def("Fn", show, func=True)
    Holder = Def("Holder", lambda ctx: E("holder", ch=[S("default"), S("other")]))
    HolderFn = Def("HolderFn", lambda ctx: V([S("default"), S("other")]), func=True)
    Around = Def("Around", around("around"))
    AroundFn = Def("AroundFn", around("aroundfn"), func=True)
    Fallback = Def("Fallback", fallback)
    FallbackFn = Def("FallbackFn", fallback, func=True)
    Scoped = Def("Scoped", lambda ctx: E("scoped", ch=[S("default", [], {"y": ctx.props["x"]})]))
    ScopedFn = Def(
        "ScopedFn", lambda ctx: V([S("default", [], {"y": ctx.props["x"]})]), func=True
    )
    Pass = Def("Pass", lambda ctx: C(Cls, {"x": ctx.props["x"]}))
    PassFn = Def("PassFn", lambda ctx: V([F(Fn, {"x": ctx.props["x"]})]), func=True)

    def content(x):
        return lambda p: [E("content", {"n": x["n"]}, ch=[T(i) for i in x["items"]])]

    def const(p):
        return [E("const")]

    def scoped(p):
        return [E("content", {"n": p["y"]["n"]}, ch=[T(i) for i in p["y"]["items"]])]

    def scoped_component(p):
        return V([C(Cls, {"x": p["y"]})])

    kinds = {
        "scoped": lambda x: C(Scoped, {"x": x}, slots={"default": scoped}),
        "scoped fn": lambda x: F(ScopedFn, {"x": x}, slots={"default": scoped}),
        "scoped class": lambda x: C(Scoped, {"x": x}, slots={"default": scoped_component}),
        "scoped fn class": lambda x: F(
            ScopedFn, {"x": x}, slots={"default": scoped_component}
        ),
        "class": lambda x: C(Cls, {"x": x}),
        "function": lambda x: F(Fn, {"x": x}),
        "content": lambda x: C(Holder, {}, slots={"default": content(x)}),
        "content fn": lambda x: F(HolderFn, {}, slots={"other": content(x), "default": const}),
        "around": lambda x: C(Around, {"x": x}, slots={"default": const}),
        "around fn": lambda x: F(AroundFn, {"x": x}, slots={"default": const}),
        "fallback": lambda x: C(Fallback, {"x": x}, slots={"other": const}),
        "fallback fn": lambda x: F(FallbackFn, {"x": x}, slots={"other": const}),
        "pass": lambda x: C(Pass, {"x": x}),
        "pass fn": lambda x: F(PassFn, {"x": x}),
        "pass slots": lambda x: F(
            HolderFn, {}, slots={"default": lambda p: V([F(AroundFn, {"x": x}, slots={})])}
        ),
        "same": lambda x: E("same", {"__same__": x["attrs"]}),
        "same class": lambda x: C(SameCls, {"__same__": x["attrs"]}),
        "same fn": lambda x: F(SameFn, {"__same__": x["attrs"]}),
        "same fn slots": lambda x: F(
            SameFn, {"__same__": x["attrs"]}, slots={"default": const}
        ),
    }

    def same(ctx):
        return E("s", {k: v for k, v in ctx.props.items()})

    SameCls = Def("SameCls", same)
    SameFn = Def("SameFn", same, func=True)

    names = {
        "plain": ["class", "function", "pass", "pass fn", "same"],
        "slots": ["content", "content fn", "pass slots", "around", "around fn"],
        "scoped": ["scoped", "scoped fn", "scoped class", "scoped fn class"],
        "other": ["fallback", "fallback fn", "same class", "same fn", "same fn slots"],
    }[variant]
    ops = []
    for name in names:
        def change(fn, name=name):
            return lambda d: fn(d[name])

        if name.startswith("same"):
            ops += [
                (f"{name}.a += 1", "data", change(lambda x: incr("a")(x["attrs"]))),
                (f"{name}.b", "data", change(lambda x: toggle_key(x["attrs"], "b"))),
                (f"{name}.attrs = other", "data", change(other_attrs)),
            ]
        else:
            ops += [
                (f"{name}.n += 1", "data", change(incr("n"))),
                (f"{name}.append", "data", change(lambda x: x["items"].append("i"))),
            ]
        ops.append((f"{name}.items = []", "data", change(assign_new("items", []))))
    data = {
        name: {"n": i, "items": [str(i)], "attrs": {"a": i}}
        for i, name in enumerate(names)
    }
    Root = Def("Root", lambda ctx: E("root", ch=[kinds[n](ctx.d[n]) for n in names]))
    return OpScenario(data, lambda ctx: C(Root), ops)


def other_attrs(x):
    """Other reactive data, with other values"""
    x["attrs"] = {"a": x["attrs"]["a"] + 10}


def toggle_key(data, key):
    if key in data:
        del data[key]
    else:
        data[key] = 1


def assign_new(key, value):
    def fn(d):
        d[key] = copy.deepcopy(value)

    return fn


def prop_flow(variant):
    """Props that come, go and change, and that are passed on from parent to child"""
    Leaf = Def(
        "Leaf",
        lambda ctx: E(
            "leaf",
            {"iid": ctx.iid, "keys": ",".join(sorted(ctx.props)),
             **{k: v for k, v in ctx.props.items() if k in "ab"}},
        ),
    )
    Mid = Def(
        "Mid",
        lambda ctx: E(
            "mid",
            {"iid": ctx.iid},
            ch=[C(Leaf, {k: v for k, v in ctx.props.items()}), T(str(len(ctx.props)))],
        ),
    )
    MidFn = Def(
        "MidFn",
        lambda ctx: V([C(Leaf, {k: v for k, v in ctx.props.items()})]),
        func=True,
    )
    Same = Def("Same", lambda ctx: C(SameLeaf, {"o": ctx.props["o"], "i": ctx.iid}))
    SameLeaf = Def(
        "SameLeaf",
        lambda ctx: E(
            "sl",
            {"iid": ctx.iid, "i": ctx.props["i"],
             **{k: v for k, v in ctx.props["o"].items()}},
        ),
    )

    def body(ctx):
        o = ctx.d["o"]
        if variant == "spread":
            ch = [C(Mid, {k: v for k, v in o.items()})]
        elif variant == "func":
            ch = [F(MidFn, {k: v for k, v in o.items()})]
        elif variant == "direct":
            ch = [C(Mid, {"__same__": o}), C(Leaf, {"__same__": o})]
        elif variant == "nested":
            ch = [C(Same, {"o": o}), C(Same, {"o": ctx.d["p"]})]
        return E("root", {"iid": ctx.iid}, ch=[*ch, T(str(ctx.d["x"]))])

    Root = Def("Root", body)
    ops = []
    for key in "ab":
        for value in (1, 2):
            ops.append((f"o.{key} = {value}", "data", set_in("o", key, value)))
        ops.append((f"del o.{key}", "data", del_in("o", key)))
    ops += [
        ("o = {a: 1}", "data", assign("o", {"a": 1})),
        ("o = {b: 3}", "data", assign("o", {"b": 3})),
        ("o = p", "data", assign_from("o", "p")),
        ("p = new", "data", assign("p", {"a": 8})),
        ("p.b = 4", "data", set_in("p", "b", 4)),
        ("x += 1", "data", incr("x")),
    ]
    return OpScenario(
        {"o": {"a": 1}, "p": {"a": 4}, "x": 0}, lambda ctx: C(Root), ops
    )


def assign_from(name, other):
    def fn(d):
        if d[name] != d[other]:
            d[name] = d[other]

    return fn


def set_in(name, key, value):
    def fn(d):
        d[name][key] = value

    return fn


def del_in(name, key):
    def fn(d):
        if key in d[name]:
            del d[name][key]

    return fn


OPS = {
    "local_state": local_state,
    "mutations": mutations,
    "readers": readers,
    "prop_flow": prop_flow,
}
_make = make


def make(spec):  # noqa: F811
    if spec[0] in OPS:
        return OPS[spec[0]](*spec[1:])
    return _make(spec)


_execute = execute


def execute(scenario, *args, **kwargs):  # noqa: F811
    if isinstance(scenario, OpScenario):
        return execute_ops(scenario, *args, **kwargs)
    return _execute(scenario, *args, **kwargs)
