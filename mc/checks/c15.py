"""Attributes, bindings and events of an element in a template"""
import gc
import itertools
import sys
import types

import collagraph as cg
from collagraph.cgx import cgx
from observ import reactive
from observ.proxy_db import proxy_db

from mc.cgxlib import LOG, log, product_states, source_of
from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer, windows

ID = "C15"
LEVEL = "model_checking"
RULE = """All ordered selections (of bounded length) of static attributes, flags, bound
attributes, v-bind with a dictionary and event directives, on elements, components,
function components, items of v-for, branches of v-if and slot content. Each is rendered
for all pairs of successive states, where the dictionary is replaced or changed in place.
A state is a template with a state of its data; transitions are changes of the state."""


def h1(*args):
    log("h1", *args)


def h2(*args):
    log("h2", *args)


TOKENS = {
    "S": 'p="s"',
    "F": "p",
    "B": ':p="a"',
    "V": 'v-bind:p="b"',
    "D": 'v-bind="DICT"',
    "T": 'q="t"',
    "R": ':q="(a, b)"',
    "G": "q",
    "E": '@p="lambda *x: log(\'ev\', a, *x)"',
    "O": 'v-on:p="lambda *x: log(\'on\', b, *x)"',
    "H": '@q="handler"',
    "M": '@q.r="handler"',
    "C": ':on_p="handler"',
    # Other names (see ODD)
    "P": 'ATTR="s"',
    "X": ':ATTR="a"',
    "Y": 'v-bind:ATTR="b"',
    "Z": '@EVENT="handler"',
    "W": "v-on:EVENT=\"lambda *x: log('on', b, *x)\"",
}
COLONS = "PXYZWD"
# Names of an attribute and an event
ODD = [
    ("p:q", "q:r"), ("p-q", "q-r"), ("p_q", "q_r"), ("p.q", "q.r.s"), ("on-p", "on_q"),
    ("1p", "v-q"), ("key_", "p-q_r:s"), ("type", "bind"), ("p--", "-"),
]
ODD_EVENTS = [event for _, event in ODD]
ATTRS = ["p", "q", *(attr for attr, _ in ODD)]
PLAIN = "".join(t for t in TOKENS if t not in COLONS or t == "D")
NAMES = {"S": "p", "F": "p", "T": "q", "G": "q", "P": "ATTR"}
DICTS = [
    {},
    {"p": 11},
    {"q": 2},
    {"q": 3, "p": 0},
    {"p": None},
    {"on_p": h1},
    {"on_p": h2, "p": 12},
    {"p": [1]},
]
SOME_DICTS = [DICTS[i] for i in (0, 1, 3, 5, 6)]
# Ways in which the dict is bound
BINDS = {
    "state": "d",
    "explicit": "state['d']",
    "self": "self.state['d']",
    "props": "pd",
    "copy": "{**d}",
    "dict": "dict(d)",
    "merge": "d | {}",
    "method": "make()",
    "comp": "{k: v for k, v in d.items()}",
    "literal": "{'p': d['p'], **d} if 'p' in d else {**d}",
}
TARGETS = {
    "root": "<x {} />",
    "child": "<root><y /><x {} /><y /></root>",
    "child_ch": "<root><x {}><y :w=\"a\" /></x></root>",
    "for": '<root><x v-for="i in [0]" {} /></root>',
    "for_last": '<root><x {} v-for="i in [0]" /></root>',
    "if": '<root><x v-if="True" {} /></root>',
    "else": '<root><y v-if="False" /><x {} v-else /></root>',
    "template": "<root><template><x {} /></template></root>",
    "slot": "<root><Wrap><x {} /></Wrap></root>",
    "named": "<root><Wrap><x {} #head /></Wrap></root>",
    "comp": "<root><Kid {} /></root>",
    "comp_root": "<Kid {} />",
    "comp_for": '<root><Kid v-for="i in [0]" {} /></root>',
    "comp_slot": "<root><Kid {}>text</Kid></root>",
    "fn": "<root><Fn {} /></root>",
    "dotted": "<root><mc_kit.Kid {} /></root>",
}


class Kid(cg.Component):
    def render(self):
        return cg.h(
            "x",
            {
                **{k: self.props[k] for k in ATTRS if k in self.props},
                "on_p": lambda *args: self.emit("p", *args),
                "on_q": lambda *args: self.emit("q", *args),
                "on_q.r": lambda *args: self.emit("q.r", *args),
                **{
                    f"on_{event}": lambda *args, event=event: self.emit(event, *args)
                    for event in ODD_EVENTS
                },
            },
            *(self.render_slot("default") if self._slots else []),
        )


class Wrap(cg.Component):
    def render(self):
        return cg.h(
            "w", {},
            *(self.render_slot("head") if "head" in self._slots else []),
            *(self.render_slot("default") if "default" in self._slots else []),
        )


def Fn(props, slots=None):
    return cg.h("x", props)


SCRIPT = """
import collagraph as cg
from mc_kit import Kid, Wrap, Fn
import mc_kit
from mc.cgxlib import log

class Top(cg.Component):
    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        init(self)

    def make(self):
        return self.state["d"]

    def handler(self, *args):
        log("handler", *args)
"""


def merge(tokens, state, odd):
    """Attributes and handlers: the last one that is defined prevails"""
    values = {}
    for token in tokens:
        if token == "S":
            values["p"] = "s"
        elif token == "T":
            values["q"] = "t"
        elif token == "F":
            values["p"] = True
        elif token == "G":
            values["q"] = True
        elif token == "B":
            values["p"] = state["a"]
        elif token == "V":
            values["p"] = state["b"]
        elif token == "R":
            values["q"] = (state["a"], state["b"])
        elif token == "D":
            values.update(state["d"])
        elif token == "E":
            values["on_p"] = lambda *x: log("ev", state["a"], *x)
        elif token == "O":
            values["on_p"] = lambda *x: log("on", state["b"], *x)
        elif token == "H":
            values["on_q"] = lambda *x: log("handler", *x)
        elif token == "M":
            values["on_q.r"] = lambda *x: log("handler", *x)
        elif token == "C":
            values["on_p"] = lambda *x: log("handler", *x)
        elif token == "P":
            values[odd[0]] = "s"
        elif token == "X":
            values[odd[0]] = state["a"]
        elif token == "Y":
            values[odd[0]] = state["b"]
        elif token == "Z":
            values["on_" + odd[1]] = lambda *x: log("handler", *x)
        elif token == "W":
            values["on_" + odd[1]] = lambda *x: log("on", state["b"], *x)
    attrs = {k: v for k, v in values.items() if not k.startswith("on_")}
    on = {k[3:]: v for k, v in values.items() if k.startswith("on_")}
    return attrs, on


class World:
    def __init__(self, target, tokens, bind, odd=ODD[0]):
        self.target = target
        self.odd = odd
        self.tokens = tokens
        self.bind = bind
        attrs = " ".join(TOKENS[t] for t in tokens).replace("DICT", BINDS[bind])
        attrs = attrs.replace("ATTR", odd[0]).replace("EVENT", odd[1])
        self.source = source_of(TARGETS[target].format(attrs), SCRIPT)
        self.trace = []
        try:
            cls, ns = cgx.load_from_string(self.source)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the template: {e}")
        self.cls = cls
        ns["init"] = self.init

    def fail(self, msg):
        e = Violation(f"{msg}\n{self.source}\n  " + "\n  ".join(map(str, self.trace)))
        e.signature = msg
        e.trace = [self.source, *self.trace]
        raise e

    def init(self, comp):
        comp.state.update(
            {
                "a": self.state["a"],
                "b": self.state["b"],
            }
        )
        if self.bind != "props":
            comp.state["d"] = dict(self.state["d"])
        self.comp = comp

    def start(self, state):
        proxy_db.db.clear()
        self.trace = [state]
        self.state = state
        self.container = El("container")
        self.renderer = RecRenderer()
        self.gui = cg.Collagraph(
            renderer=self.renderer, event_loop_type=cg.EventLoopType.SYNC
        )
        self.props = reactive(
            {"pd": dict(state["d"])} if self.bind == "props" else {}
        )
        self.gui.render(cg.h(self.cls, self.props), self.container)
        self.check()

    def change(self, state, how):
        self.trace.append((how, state))
        self.state = state
        for key in ("a", "b"):
            if self.comp.state[key] != state[key]:
                self.comp.state[key] = state[key]
        container, key = (
            (self.props, "pd") if self.bind == "props" else (self.comp.state, "d")
        )
        old = container[key]
        # Keys that are added with the value None are not noticed by observ
        if how == "replace" or any(
            v is None and k not in old for k, v in state["d"].items()
        ):
            if old != state["d"]:
                container[key] = dict(state["d"])
        else:
            for k in list(old):
                if k not in state["d"]:
                    del old[k]
            for k, v in state["d"].items():
                if k not in old or old[k] != v:
                    old[k] = v
        self.check()

    def check(self):
        attrs, on = merge(self.tokens, self.state, self.odd)
        xs = []
        stack = list(self.container.children)
        while stack:
            el = stack.pop()
            if el.type == "x":
                xs.append(el)
            stack.extend(el.children)
        if self.renderer.errors:
            self.fail(f"renderer: {self.renderer.errors[0]}")
        if len(xs) != 1:
            self.fail(f"rendered {self.container.children}")
        (el,) = xs
        actual = {k: v for k, v in el.attrs.items() if v is not None}
        expected = {k: v for k, v in attrs.items() if v is not None}
        if actual != expected or any(
            (v is True) != (expected[k] is True) for k, v in actual.items()
        ):
            self.fail(f"attributes {actual} instead of {expected}")
        is_comp = self.target.startswith(("comp", "dotted"))
        registered = {k for k, v in el.on.items() if v}
        if not is_comp and registered != set(on):
            self.fail(f"listeners {registered} instead of {set(on)}")
        for name in ("p", "q", "q.r", *ODD_EVENTS):
            LOG.clear()
            for fn in list(el.on.get(name, ())):
                fn(7)
            called = list(LOG)
            LOG.clear()
            if name in on:
                on[name](7)
            if called != LOG:
                self.fail(f"event {name} results in {called} instead of {LOG}")


def selections(tokens, n):
    for r in range(n + 1):
        for sel in itertools.permutations(tokens, r):
            names = [NAMES[t] for t in sel if t in NAMES]
            if len(set(names)) == len(names):
                yield "".join(sel)


def tasks(tier):
    result = []
    quick = tier == "quick"
    depth = 3
    for target in TARGETS:
        n = depth if target in ("child", "comp") or not quick else 2
        for first in PLAIN:
            result.append([target, "state", first, n, not quick])
    for bind in BINDS:
        for target in ("child", "comp", "fn", "root") if quick else TARGETS:
            result.append([target, bind, "", 2 if quick else 3, not quick])
    for target in ("child", "comp", "root", "slot") if quick else TARGETS:
        for i, _ in enumerate(ODD):
            n = 2 if quick and i else 3
            result.append([target, "state", COLONS + str(i), n, not quick])
    if not quick:
        for target in ("child", "comp"):
            for first in itertools.permutations(PLAIN, 2):
                result.append([target, "state", "".join(first), 4, True])
    return result


def run_task(task):
    target, bind, prefix, n, thorough = task
    sys.modules["mc_kit"] = kit = types.ModuleType("mc_kit")
    kit.Kid, kit.Wrap, kit.Fn = Kid, Wrap, Fn
    res = Result()
    gc.disable()
    alphabet = PLAIN if thorough or n < 3 else "SFBVDTREOH"
    odd = ODD[0]
    if colons := prefix.startswith(COLONS):
        odd = ODD[int(prefix[len(COLONS) :])]
        alphabet, prefix = COLONS, ""
    for tokens in selections(alphabet, n):
        if prefix and not tokens.startswith(prefix):
            continue
        if not prefix and not colons and "D" not in tokens:
            continue
        if len(prefix) == 2 and len(tokens) != n:
            continue
        world = World(target, tokens, bind, odd)
        used = set("".join(tokens))
        states = product_states(
            a=[0, 6] if used & set("BREX") else [0],
            b=[7, 8] if used & set("VROYW") else [0],
            d=(DICTS if n != 3 else SOME_DICTS) if "D" in used else [{}],
        )
        if n == 3 or not thorough:
            # Only change a and b together
            states = [s for s in states if (s["a"] == 6) == (s["b"] == 8) or len(
                used & set("BREX")) * len(used & set("VROYW")) == 0]
        hows = ["replace"]
        if "D" in used and (n != 3 or len(tokens) < 3 or thorough):
            hows.append("inplace")
        for how in hows:
            for history in windows(len(states), 2, 40):
                watchdog()
                world.start(states[history[0]])
                for i in history[1:]:
                    world.change(states[i], how)
                res.states += len(history)
                res.transitions += len(history) - 1
                res.validated += len(history)
        res.sample([world.source, *world.trace[:3]])
    gc.collect()
    return res
