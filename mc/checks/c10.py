"""Slots"""
import gc
import itertools
import sys
import types

import collagraph as cg
from collagraph.cgx import cgx

from mc import suites
from mc.cgxlib import Cmt, Interpreter, Kind, R, Session, Txt, X, product_states, source_of
from mc.engine import Result, watchdog
from mc.scenarios import run_windows

ID = "C10"
LEVEL = "model_checking"
RULE = """All sequences of states of the given length are executed for components with
slots: given or not, without content, one or more nodes, content that depends on data of
the definer, content that has slots itself. The tree of elements is compared with the one
of the reference model after each step. The same is done for templates: all definers with
(sequences of bounded length of) slots, with and without name and fallback content, within
elements, branches and loops, are combined with all users with (sequences of bounded
length of) contents, and compared with a reference interpreter of templates for all pairs
of states of the data of both."""

PROPS = [(":n", "props.get('n')")]
A = ("v-if", "props.get('n')")


def slot(name=None, ch=(), *attrs):
    return X("slot", [*attrs, *([("name", name)] if name else [])], ch)


# Parts of the template of the definer
PARTS = {
    "d": lambda: slot(),
    "D": lambda: slot("default", [X("fb", PROPS), Txt("fb")]),
    "h": lambda: slot("head"),
    "H": lambda: slot("head", [Txt("f ", ("x", "props.get('n')"))]),
    "o": lambda: slot("a:b", [X("fo")]),
    "p": lambda: slot("a-b.c", [X("fp")]),
    "w": lambda: X("w", [], [Cmt(), slot("head", [X("f1"), X("f2")]), X("y")]),
    "i": lambda: X("template", [A], [slot("head", [X("fi")]), X("y")]),
    "I": lambda: slot("head", [X("fi", PROPS)], A),
    "e": lambda: X("template", [], [X("y", [A]), slot(None, [X("fe")], ("v-else", None))]),
    "f": lambda: X("g", [("v-for", "j in range(2)")], [slot(None, [Txt(("x", "j"))])]),
    "F": lambda: slot("head", [X("ff", [(":j", "j")])], ("v-for", "j in range(2)")),
    "n": lambda: slot("head", [slot(None, [X("fn")])]),
    "k": lambda: X("Inner", PROPS, [slot(None, [X("fk")])]),
    "K": lambda: X("Inner", [], [slot("head", [X("fk")], ("#head", None)), X("y")]),
    "y": lambda: X("y", PROPS),
}
# Parts of the content that is given by the user
CONTENTS = {
    "x": lambda: X("x", [(":v", "v"), ("@ev", "lambda e: log(v, e)")]),
    "t": lambda: Txt("t ", ("x", "v")),
    "i": lambda: X("x", [("v-if", "v")]),
    "f": lambda: X("x", [("v-for", "j in range(v + 1)"), (":j", "j")]),
    "k": lambda: X("Inner", [(":n", "v")], [X("z", [(":v", "v")])]),
    "c": lambda: Cmt(),
    "E": lambda: X("template", [("#default", None)], []),
    "D": lambda: X("template", [("v-slot", None)], [X("x1"), Txt("x2")]),
    "h": lambda: X("template", [("#head", None)], [X("x", [(":v", "v")]), X("x2")]),
    "H": lambda: X("x", [("v-slot:head", None), (":v", "v")]),
    "e": lambda: X("template", [("#head", None)], []),
    "K": lambda: X("Inner", [("#head", None), (":n", "v")], [X("z", [("v-if", "v")])]),
    "V": lambda: X("template", [("#head", None)], [X("x", [("v-if", "v")])]),
    "o": lambda: X("x", [("#a:b", None), (":v", "v")]),
    "O": lambda: X("x", [("v-slot:a:b", None)], [Txt(("x", "v"))]),
    "p": lambda: X("x", [("#a-b.c", None), (":v", "v")]),
}
DEFAULTS = set("xtifk")
SLOTS = {"E": "default", "D": "default", "o": "o", "O": "o", "p": "p", "c": None}
TOPS = {
    # A slot itself can be the root
    "root": lambda parts: X("def", PROPS, parts),
    "virtual": lambda parts: X("template", [], parts),
}
CORE_PARTS = "dHoieFnk"
CORE_CONTENTS = "xtifkDHVo"

INNER = Kind(
    "Inner", (),
    X("inner", PROPS, [slot("head"), slot(None, [X("none")])]),
)


def distinct(seq):
    """No two contents for the same slot, or texts that are one text"""
    names = [SLOTS.get(c, "head") for c in seq if c not in DEFAULTS]
    if any(c in DEFAULTS for c in seq):
        names.append("default")
    names = [n for n in names if n]
    return len(set(names)) == len(names) and "tt" not in seq and "tct" not in seq


def contents(alphabet, n):
    for r in range(n + 1):
        for seq in itertools.product(alphabet, repeat=r):
            if distinct("".join(seq)):
                yield "".join(seq)


def tasks(tier):
    result = suites.tasks(suites.slots(tier))
    quick = tier == "quick"
    for top in TOPS:
        for first in PARTS:
            # With at most one other part or content
            result.append(["cgx", top, first, "".join(PARTS), 0, "".join(CONTENTS), 2])
            more = CORE_PARTS if quick and top == "virtual" else "".join(PARTS)
            result.append(["cgx", top, first, more, 1, "".join(CONTENTS), 1])
            if not quick:
                for second in PARTS:
                    result.append(
                        ["cgx", top, first + second, "", 0, "".join(CONTENTS), 2]
                    )
                    result.append(
                        ["cgx", top, first + second, CORE_PARTS, 1, CORE_CONTENTS, 2]
                    )
    for first in "dHiek" if quick else CORE_PARTS:
        few = "dHiek" if quick else CORE_PARTS
        result.append(["cgx", "root", first, few, 1, "xfkHVo" if quick else CORE_CONTENTS, 2])
    for top in TOPS:
        for first in PARTS:
            result.append(["program", top, first, "dDHI" if quick else "".join(PARTS)])
    for name in "dDhHopn":
        result.append(["cgx", "slot", name, "", 0, "".join(CONTENTS), 2 if quick else 3])
    return result


def run_templates(task):
    _, top, first, parts, n, alphabet, depth = task
    res = Result()
    gc.disable()
    module = types.ModuleType("mc_kinds")
    sys.modules["mc_kinds"] = module
    imports = "from mc_kinds import Inner, Def"

    def define(kind):
        script = (
            "import collagraph as cg\nfrom mc_kinds import Inner\n"
            f"class {kind.name}(cg.Component):\n    pass"
        )
        if kind is INNER:
            script = script.replace("from mc_kinds import Inner\n", "")
        cls, _ = cgx.load_from_string(source_of(kind.template, script))
        setattr(module, kind.name, cls)

    define(INNER)
    rests = ["".join(r) for k in range(n + 1) for r in itertools.product(parts, repeat=k)]
    for rest in rests:
        seq = first + rest
        nodes = [PARTS[c]() for c in seq]
        template = nodes[0] if top == "slot" else TOPS[top](nodes)
        kind = Kind("Def", (), template)
        define(kind)
        interpreter = Interpreter([INNER, kind])
        for given in contents(alphabet, depth):
            watchdog()
            user = X(
                "root", [], [
                    X("Def", [(":n", "n")], [CONTENTS[c]() for c in given]),
                    X("last"),
                ],
            )
            session = Session(user, interpreter, imports)
            session.source += "\n\nDef:\n" + template.source()
            states = product_states(n=[0, 1], v=[0, 1] if set(given) - set("cEDe") else [0])
            res.transitions += session.explore(states)
            res.states += len(states)
            res.validated += 1
            res.notes["templates"] = res.notes.get("templates", 0) + 1
            res.sample(session.source)
    gc.collect()
    return res


# Content that is given by a component which is written in Python
FORMS = {
    "list": lambda v: [],
    "tuple": lambda v: (),
    "none": lambda v: (cg.h("x", {"v": v}) for _ in ()),
    "node": lambda v: cg.h("x", {"v": v}),
    "nodes": lambda v: [cg.h("x", {"v": v}), cg.h("z")],
    "iter": lambda v: (cg.h("x", {"v": i}) for i in range(v + 1)),
    "virtual": lambda v: cg.h("template"),
    "some": lambda v: [cg.h("x", {"v": v})] * v,
    "text": lambda v: [f"text {v}"],
}


def expected_of(form, v):
    return {
        "node": [R("x", {"v": v})],
        "nodes": [R("x", {"v": v}), R("z")],
        "iter": [R("x", {"v": i}) for i in range(v + 1)],
        "some": [R("x", {"v": v})] * v,
        "text": [R("TEXT_ELEMENT", text=f"text {v}")],
    }.get(form, [])


class Program(Session):
    """User of a component with slots, which is written in Python"""

    def __init__(self, definer, kind, interpreter, forms, single=False):
        class Top(cg.Component):
            instances = []

            def __init__(self, props, parent=None):
                super().__init__(props, parent)
                Top.instances.append(self)
                self.state.update(Top.initial)

            def render(self):
                slots = {
                    name: lambda props, form=form: FORMS[form](self.state["v"])
                    for name, form in forms.items()
                }
                if single:
                    slots = slots["default"]
                props = {"n": self.state["n"]}
                return cg.h("root", {}, cg.h(definer, props, slots), cg.h("last"))

        self.cls = Top
        self.kind = kind
        self.interpreter = interpreter
        self.forms = forms
        self.source = f"{kind.template.source()}\n\nslots: {forms}{' (function)' * single}"
        self.trace = []

    def expected(self, state):
        slots = {
            name: lambda form=form: expected_of(form, state["v"])
            for name, form in self.forms.items()
        }
        props = {"n": state["n"]}
        content = self.interpreter.one(self.kind.template, {"props": props}, slots)
        return [R("root", {}, {}, [*content, R("last")])]


def run_program(task):
    _, top, first, parts = task
    res = Result()
    gc.disable()
    module = types.ModuleType("mc_kinds")
    sys.modules["mc_kinds"] = module

    def define(kind):
        script = f"import collagraph as cg\nclass {kind.name}(cg.Component):\n    pass"
        if kind is not INNER:
            script = "from mc_kinds import Inner\n" + script
        cls, _ = cgx.load_from_string(source_of(kind.template, script))
        setattr(module, kind.name, cls)
        return cls

    define(INNER)
    for seq in [first, *(first + p for p in parts)]:
        kind = Kind("Def", (), TOPS[top]([PARTS[c]() for c in seq]))
        definer = define(kind)
        interpreter = Interpreter([INNER, kind])
        for a, b in itertools.product([None, *FORMS], repeat=2):
            watchdog()
            forms = {k: v for k, v in (("default", a), ("head", b)) if v}
            for single in [False, True] if set(forms) == {"default"} else [False]:
                session = Program(definer, kind, interpreter, forms, single)
                states = product_states(n=[0, 1], v=[0, 1])
                res.transitions += session.explore(states)
                res.states += len(states)
                res.validated += 1
                res.notes["programs"] = res.notes.get("programs", 0) + 1
                res.sample(session.source)
    gc.collect()
    return res


def run_task(task):
    if task[0] == "program":
        return run_program(task)
    if task[0] == "cgx":
        return run_templates(task)
    return run_windows(task, frozenset(["tree", "identity"]))
