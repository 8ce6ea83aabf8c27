"""Provide/inject and the chain of parents"""
import gc
import itertools

import collagraph as cg
from observ import reactive
from observ.proxy_db import proxy_db

from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C09"
LEVEL = "model_checking"
RULE = """All trees of up to four components, for all ways in which components contain
other components (in an element, a virtual node, a function component, the slot of a
class component or the slot of a function component), all subsets of components that
provide a value (in the constructor or in mounted), followed by all sequences of operations
(provide again, add, remove and move components) up to a length. After each step the
parent and the injected values of all components, and what they injected in the
constructor and in mounted, are compared with those of the tree. A state is a tree with
such assignments; transitions are operations."""

WRAPS = ["el", "virt", "func", "slot", "fslot"]
DEFAULT = object()
VALUES = {"None": None, "zero": 0, "text": "x", "list": []}


class Rt:
    current = None


class Base(cg.Component):
    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        rt = Rt.current
        self.name = self.props["name"]
        rt.live[self.name] = self
        rt.verify(self, "constructor")
        for key, value in rt.at_init.get(self.name, ()):
            self.provide(key, value)
            rt.provided(self, key, value)

    def mounted(self):
        rt = Rt.current
        rt.verify(self, "mounted")
        for key, value in rt.at_mounted.get(self.name, ()):
            self.provide(key, value)
            rt.provided(self, key, value)

    def updated(self):
        Rt.current.verify(self, "updated")

    def before_unmount(self):
        rt = Rt.current
        if rt.live.get(self.name) is self:
            del rt.live[self.name]


class Comp(Base):
    def render(self):
        rt = Rt.current
        names = list(rt.tree[self.name])
        wrap = rt.wraps[self.name]
        if wrap == "el":
            return cg.h("el", {"name": self.name}, *map(rt.h, names))
        if wrap == "virt":
            return cg.h("template", {}, *map(rt.h, names))
        if wrap == "func":
            return cg.h("el", {}, cg.h(func, {"names": names, "key": "f"}))
        if wrap == "slot":
            return cg.h(
                Slotted,
                {"name": f"s{self.name}"},
                {"default": lambda props: list(map(rt.h, names))},
            )
        return cg.h(fslot, {}, {"default": lambda props: list(map(rt.h, names))})


class FalsyComp(Comp):
    def __len__(self):
        return 0


class Slotted(Base):
    def render(self):
        return cg.h("slotted", {}, *self.render_slot("default"))


def func(props, slots=None):
    return cg.h("template", {}, *map(Rt.current.h, props["names"]))


def fslot(props, slots=None):
    return cg.h("fslot", {}, *cg.render_slot("default", props, slots))


class World:
    def __init__(self, shape, wraps, at_init, at_mounted, falsy):
        proxy_db.db.clear()
        Rt.current = self
        self.raw = {name: list(ch) for name, ch in shape.items()}
        self.tree = reactive(self.raw)
        self.wraps = dict(wraps)
        self.at_init = at_init
        self.at_mounted = at_mounted
        self.falsy = falsy
        self.live = {}
        self.values = {}  # (id of component, key) -> value
        self.trace = [
            f"tree {shape}, containers {wraps}, provided in constructor {at_init}, "
            f"in mounted {at_mounted}, falsy {falsy}"
        ]
        self.keep = []

    def h(self, name):
        cls = FalsyComp if name in self.falsy else Comp
        return cg.h(cls, {"name": name, "key": name})

    def provided(self, comp, key, value):
        self.keep.append(comp)
        self.values[id(comp), key] = value

    def parent_of(self, name):
        if name[0] == "s":
            return name[1:]
        for parent, children in self.raw.items():
            if name in children:
                if self.wraps[parent] == "slot":
                    return f"s{parent}"
                return parent
        return None

    def fail(self, msg):
        e = Violation(msg + "\nhistory:\n  " + "\n  ".join(self.trace))
        e.signature = msg.split(":")[0]
        e.trace = list(self.trace)
        raise e

    def verify(self, comp, when):
        name = comp.name
        parent = self.parent_of(name)
        expected = None if parent is None else self.live.get(parent)
        actual = comp.parent
        if actual is not expected:
            self.fail(
                f"wrong parent in {when}: of {name}: "
                f"{getattr(actual, 'name', actual)} instead of {parent}"
            )
        for key in ("k", "l"):
            at, value = parent, DEFAULT
            while at is not None:
                c = self.live.get(at)
                if (id(c), key) in self.values:
                    value = self.values[id(c), key]
                    break
                at = self.parent_of(at)
            injected = comp.inject(key, DEFAULT)
            if injected is not value:
                self.fail(
                    f"wrong value injected in {when}: {name} injects {injected!r} "
                    f"for {key} instead of {value!r} (default {DEFAULT!r})"
                )
            if value is DEFAULT and comp.inject(key) is not None:
                self.fail(f"no default: {name} injects {comp.inject(key)}")

    def verify_all(self):
        expected = set()
        stack = ["a"]
        while stack:
            name = stack.pop()
            expected.add(name)
            if name[0] != "s" and self.wraps[name] == "slot":
                expected.add(f"s{name}")
            stack.extend(self.raw[name])
        if set(self.live) != expected:
            self.fail(f"live components: {sorted(self.live)} not {sorted(expected)}")
        for comp in list(self.live.values()):
            self.verify(comp, "the end")

    def start(self, top):
        self.gui = cg.Collagraph(
            renderer=RecRenderer(), event_loop_type=cg.EventLoopType.SYNC
        )
        root = self.h("a")
        if top == "el":
            root = cg.h("app", {}, root)
        elif top == "virt":
            root = cg.h("template", {}, cg.h("x"), root)
        self.gui.render(root, El("container"))
        self.verify_all()

    def apply(self, op):
        self.trace.append(repr(op))
        kind, *args = op
        if kind == "provide":
            name, key, value = args
            comp = self.live[name]
            comp.provide(key, VALUES[value])
            self.provided(comp, key, VALUES[value])
        elif kind == "add":
            (parent,) = args
            name = f"n{len(self.raw)}"
            self.raw[name] = []
            self.wraps[name] = "el"
            self.at_init[name] = ()
            self.tree[parent].insert(0, name)
        elif kind == "remove":
            name = args[0]
            for parent in list(self.raw):
                if name in self.raw[parent]:
                    self.tree[parent].remove(name)
        elif kind == "move":
            name, to = args
            for parent in list(self.raw):
                if name in self.raw[parent]:
                    self.tree[parent].remove(name)
                    break
            self.tree[to].insert(0, name)
        elif kind == "gc":
            gc.collect()
        self.verify_all()

    def ops(self):
        names = []
        stack = ["a"]
        while stack:
            name = stack.pop()
            names.append(name)
            stack.extend(self.raw[name])
        result = []
        for name in names:
            result.append(("provide", name, "k", "None"))
            result.append(("provide", name, "l", "zero"))
            if self.wraps[name] == "slot":
                result.append(("provide", f"s{name}", "k", "list"))
            result.append(("add", name))
            if name != "a":
                result.append(("remove", name))
                below = set()
                stack = [name]
                while stack:
                    item = stack.pop()
                    below.add(item)
                    stack.extend(self.raw[item])
                for to in names:
                    if to not in below:
                        result.append(("move", name, to))
        return result


def shapes(n):
    """All trees with n components (parent of each of the components)"""
    names = "abcd"[:n]
    for parents in itertools.product(*(range(i) for i in range(1, n))):
        shape = {name: [] for name in names}
        for i, p in enumerate(parents):
            shape[names[p]].append(names[i + 1])
        yield shape


def assignments(shape):
    inner = [name for name, ch in shape.items() if ch]
    for wraps in itertools.product(WRAPS, repeat=len(inner)):
        yield {name: "el" for name in shape} | dict(zip(inner, wraps))


def tasks(tier):
    result = []
    for n in (1, 2, 3, 4):
        for shape in shapes(n):
            for wraps in assignments(shape):
                inner = {wraps[name] for name in shape if shape[name]}
                if tier == "quick" and n == 4 and len(inner) > 1:
                    # The quick check leaves out the most varied combinations
                    continue
                depth = {1: 3, 2: 2, 3: 1, 4: 1}[n]
                if tier == "thorough":
                    depth = {1: 4, 2: 3, 3: 2, 4: 1}[n]
                result.append([shape, wraps, depth])
    return result


def run_task(task):
    shape, wraps, depth = task
    names = sorted(shape)
    if any(w == "slot" for w in wraps.values()):
        names += [f"s{name}" for name, w in wraps.items() if w == "slot"]
    res = Result()
    gc.disable()
    count = 0
    for n in range(len(names) + 1):
        for chosen in itertools.combinations(names, n):
            for late in [None, *chosen[:2]]:
                count += 1
                at_init = {
                    name: (("k", list(VALUES.values())[i % 4]),)
                    for i, name in enumerate(chosen)
                    if name != late
                }
                at_mounted = {late: (("k", "late"),)} if late else {}
                falsy = [(), tuple(shape), ("a",)][count % 3]
                top = ["plain", "el", "virt"][count // 3 % 3]

                def run(ops):
                    watchdog()
                    world = World(shape, wraps, dict(at_init), at_mounted, falsy)
                    world.start(top)
                    for op in ops:
                        world.apply(op)
                    return world

                # All sequences of operations: breadth first
                level = [()]
                full = n <= 2 and late is None
                for d in range(depth + 1):
                    following = []
                    for ops in level:
                        world = run(ops)
                        res.states += 1
                        res.transitions += len(ops) + 1
                        res.validated += 1
                        if d < (depth if full else min(depth, 1)):
                            following.extend((*ops, op) for op in world.ops())
                    level = following
                if chosen:
                    res.sample({"tree": shape, "trace": world.trace})
    gc.collect()
    return res
