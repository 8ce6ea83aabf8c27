"""Control flow and loops in templates"""
import gc
import itertools
import re
import sys
import types

import collagraph as cg
from collagraph.cgx import cgx

from mc.cgxlib import Cmt, Interpreter, Kind, Session, Txt, X, product_states, source_of
from mc.engine import Result, watchdog

ID = "C13"
LEVEL = "model_checking"
RULE = """All templates that consist of a sequence (of bounded length) of kinds of nodes
(with and without v-if, v-else-if, v-else and v-for; elements, templates, components with
slots, text and comments) in a number of containers are compiled. Each is rendered for all
pairs of successive states of the variables it refers to, and compared, including event
handlers, with a reference interpreter of the template. A state is a template with a state
of its data; transitions are changes of the state."""

PROPS_N = [(":n", "props.get('n')")]
KINDS = [
    Kind("Kid", (), X("kid", PROPS_N, [X("slot")])),
    Kind(
        "Named",
        (),
        X(
            "named", PROPS_N,
            [
                X("hd", [], [X("slot", [("name", "head")], [Txt("fallback")])]),
                X("slot", [], [X("dflt")]),
            ],
        ),
    ),
    Kind("Multi", (), X("template", [], [X("m", PROPS_N), X("slot")])),
    Kind("Fn", (), X("fn", PROPS_N, [X("slot")])),
]

IMPORTS = "from mc_kinds import Kid, Named, Multi, Fn\nimport mc_kinds"


def Fn(props, slots=None):
    return cg.h("fn", {"n": props.get("n")}, *cg.render_slot("default", None, slots or {}))


def make_module():
    module = types.ModuleType("mc_kinds")
    for kind in KINDS[:3]:
        script = f"import collagraph as cg\nclass {kind.name}(cg.Component):\n    pass"
        cls, _ = cgx.load_from_string(source_of(kind.template, script))
        setattr(module, kind.name, cls)
    module.Fn = Fn
    sys.modules["mc_kinds"] = module


EV = "lambda e: log('{}', e)"

NODES = {
    "P": lambda: X("p", [(":x", "x")]),
    "T": lambda: Txt("t", ("x", "x")),
    "C": lambda: Cmt(),
    "I": lambda: X("i", [("v-if", "a"), (":x", "x"), ("@ev", "lambda e: log(x, e)")]),
    "J": lambda: X("j", [("v-else-if", "b"), ("k", "1")], [Txt("j")]),
    "E": lambda: X("e", [("v-else", None), (":x", "x")]),
    "F": lambda: X(
        "f", [("v-for", "i in items"), (":i", "i"), ("@ev", "lambda e: log(i, e)")]
    ),
    "K": lambda: X(
        "k", [("v-for", "n, i in enumerate(items)"), (":key", "i"), (":n", "n")]
    ),
    "V": lambda: X(
        "template",
        [("v-if", "a")],
        [X("vi"), X("vj", [("v-if", "b")]), X("ve", [("v-else", None)])],
    ),
    "W": lambda: X("template", [("v-else-if", "b")], [X("wi"), Txt("w", ("x", "x"))]),
    "Z": lambda: X("template", [("v-else", None)], [X("z1"), X("z2")]),
    "L": lambda: X(
        "template",
        [("v-for", "i in items")],
        [
            X("l1", [(":i", "i"), ("@ev", "lambda e: log(i, x)")]),
            X("l2", [("v-if", "i > 1 and b")]),
            X("l3", [("v-else", None)]),
        ],
    ),
    "N": lambda: X(
        "n",
        [("v-for", "i in items")],
        [
            X(
                "m",
                [
                    ("v-for", "_ in items"), (":ij", "(i, _)"),
                    ("@ev", "lambda e: log(i, _)"),
                ],
            )
        ],
    ),
    "c": lambda: X("Kid", [(":n", "x")], [X("s", [("v-if", "b")]), Txt("s")]),
    "i": lambda: X("Kid", [("v-if", "a"), (":n", "x")], [X("s", [(":x", "x")])]),
    "j": lambda: X("Multi", [("v-else-if", "b")], [X("s"), X("s", [("v-if", "a")])]),
    "e": lambda: X("Fn", [("v-else", None), (":n", "x")], [X("s", [(":x", "x")])]),
    "f": lambda: X(
        "Kid",
        [("v-for", "i in items"), (":n", "i")],
        [X("s", [(":i", "i"), ("@ev", "lambda e: log(i, e)")])],
    ),
    "s": lambda: X(
        "template",
        [("v-for", "i in items")],
        [
            X(
                "Named",
                [],
                [
                    X("template", [("#head", None)], [X("h", [(":i", "i")])]),
                    X("o", [("v-if", "b")]),
                    Txt("n", ("x", "i")),
                ],
            )
        ],
    ),
    "k": lambda: X(
        "Multi",
        [("v-for", "i in items"), (":key", "i"), (":n", "x")],
        [X("s", [("v-for", "j in range(i)"), (":ij", "(i, j)")])],
    ),
    "S": lambda: X("slot", [], [X("fb", [(":x", "x")]), Txt("fb")]),
    "G": lambda: X("slot", [("v-if", "a")], [X("g", [(":x", "x")])]),
    "H": lambda: X("slot", [("v-for", "i in items"), ("name", "o")], [X("g", [(":i", "i")])]),
    "d": lambda: X("mc_kinds.Kid", [(":n", "x")], [X("template", [], [X("s")])]),
    "t": lambda: X(
        "Kid", [], [X("template", [("v-for", "i in items")], [X("s", [(":i", "i")])])]
    ),
}
ALPHABET = "".join(NODES)
CORE = "PTCIJEFVWZLcijefS"
STARTS = set("IViG")
CONTINUES = set("JEWZje")
ENDS = set("EZe")


def valid(seq):
    if "TT" in seq:  # That is one text
        return False
    chain = False
    for c in seq:
        if c == "C":
            continue
        if c in CONTINUES:
            if not chain:
                return False
            chain = c not in ENDS
        else:
            chain = c in STARTS
    return True


CONTAINERS = {
    "root": lambda f: X("root", [], f()),
    "virtual": lambda f: X("root", [], [X("template", [], f()), X("last")]),
    "top": lambda f: X("template", [], f()),
    "kid": lambda f: X("root", [], [X("Kid", [], f())]),
    "named": lambda f: X(
        "root",
        [],
        [
            X(
                "Named",
                [],
                [
                    X("template", [("v-slot:head", None)], f()),
                    X("template", [("v-slot", None)], f()),
                ],
            )
        ],
    ),
    "multi": lambda f: X("root", [], [X("Multi", [], f()), X("last")]),
    "fn": lambda f: X("Fn", [], f()),
    "if": lambda f: X(
        "root",
        [],
        [X("template", [("v-if", "a")], f()), X("template", [("v-else", None)], f())],
    ),
    "for": lambda f: X("root", [], [X("template", [("v-for", "o in items")], f())]),
    "forel": lambda f: X("root", [], [X("o", [("v-for", "i in items")], f())]),
    "deep": lambda f: X("root", [], [X("div", [], [X("Kid", [], [X("Multi", [], f())])])]),
    "fallback": lambda f: X("root", [], [X("slot", [], f())]),
}


def template(container, seq):
    return CONTAINERS[container](lambda: [NODES[c]() for c in seq])


def sequences(alphabet, n):
    for seq in itertools.product(alphabet, repeat=n):
        if valid(seq):
            yield "".join(seq)


LONG = {
    "elements": lambda i, d: X(f"e{i}", [d, (":x", "x")]),
    "templates": lambda i, d: X("template", [d], [X(f"e{i}"), Txt(f"t{i}")]),
    "mixed": lambda i, d: [
        lambda: X(f"e{i}", [d]),
        lambda: X("Kid", [d, (":n", str(i))], [X("s")]),
        lambda: X("template", [d], []),
        lambda: X("slot", [d], [X(f"e{i}")]),
    ][i % 4](),
}


def long_chain(kind, n, last, between):
    """A chain with n branches (apart from v-else) with conditions a, b, c.."""
    nodes = []
    for i, name in enumerate("abcdefg"[:n]):
        directive = ("v-else-if" if i else "v-if", name)
        nodes.append(LONG[kind](i, directive))
        if between and i % 2 == 0:
            nodes.append(Cmt())
    if last:
        nodes.append(LONG[kind](n, ("v-else", None)))
    return nodes


def run_long(task):
    _, container, kind, n, last, between = task
    make_module()
    res = Result()
    gc.disable()
    t = CONTAINERS[container](lambda: long_chain(kind, n, last, between))
    session = Session(t, Interpreter(KINDS), IMPORTS)
    names = sorted({*"abcdefg"[:n], *re.findall(r"\b(a|b|items|x)\b", session.source.split("<script>")[0])})
    domains = {"items": [[1], [2, 1]], "x": [0]}
    states = product_states(**{name: domains.get(name, [False, True]) for name in names})
    res.transitions += session.explore(states)
    res.states += len(states)
    res.validated += 1
    res.notes["templates"] = 1
    res.sample(session.source)
    gc.collect()
    return res


def tasks(tier):
    result = [
        ["long", container, kind, n, last, between]
        for container in ("root", "virtual", "kid", "named", "forel", "fallback")
        for kind in LONG
        for n in range(3, 6 if tier == "quick" else 8)
        for last in (False, True)
        for between in (False, True)
    ]
    if tier == "quick":
        for container in CONTAINERS:
            for first in ALPHABET:
                result.append([container, ALPHABET, first, 2])
        for first in itertools.product(CORE, repeat=2):
            result.append(["root", CORE, "".join(first), 3])
    else:
        for container in CONTAINERS:
            for first in itertools.product(ALPHABET, repeat=2):
                result.append([container, ALPHABET, "".join(first), 3])
        for container in ("root", "kid"):
            for first in itertools.product(CORE, repeat=3):
                result.append([container, CORE, "".join(first), 4])
    return [t for t in result if t[0] == "long" or valid(t[2])]


def states_for(source):
    used = set(re.findall(r"\b(a|b|x|items)\b", source.split("<script>")[0]))
    return product_states(
        a=[True, False] if "a" in used else [True],
        b=[True, False] if "b" in used else [True],
        items=[[], [1], [2, 1]] if "items" in used else [[]],
        x=[0, 1] if "x" in used and not used & {"a", "b", "items"} else [0],
    )


def run_task(task):
    if task[0] == "long":
        return run_long(task)
    container, alphabet, first, n = task
    make_module()
    interpreter = Interpreter(KINDS)
    res = Result()
    gc.disable()
    for rest in sequences_after(alphabet, first, n):
        watchdog()
        t = template(container, rest)
        session = Session(t, interpreter, IMPORTS)
        states = states_for(session.source)
        res.transitions += session.explore(states)
        res.states += len(states)
        res.validated += 1
        res.notes["templates"] = res.notes.get("templates", 0) + 1
        res.sample(session.source)
    gc.collect()
    return res


def sequences_after(alphabet, first, n):
    if n == 2 or n == 3:
        # Also the shorter one
        yield first
    for rest in itertools.product(alphabet, repeat=n - len(first)):
        seq = first + "".join(rest)
        if valid(seq):
            yield seq
