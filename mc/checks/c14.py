"""Resolution of names in templates"""
import contextlib
import gc
import importlib
import itertools
import re
import sys
import types
import warnings

import collagraph as cg
from collagraph.cgx import cgx
from observ import reactive, to_raw
from observ.proxy_db import proxy_db

from mc.cgxlib import LOG, source_of
from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C14"
LEVEL = "model_checking"
RULE = """For all subsets of places that define a name (props, state, attribute of the
instance, attribute or property of the class, global, import) and all positions in
which a name can be used (bindings, text, directives, handlers, lambdas, comprehensions,
slots...) the template is compiled and rendered; then the name is added to or removed from
these places, in all sequences of a bounded length. What is rendered is compared with
Python's own evaluation of the expression for the value that should be found. A state is a
position with the places that define the name; transitions are changes of those places."""

# Position: (template, expression, kind). In the expression n is what is found
ATTR, TEXT, EVENT = "attr", "text", "event"


def attr(expr):
    return (f'<x :v="{expr}" />', expr, ATTR)


EXPRESSIONS = [
    "n",
    "(n, 1)",
    "[n][0]",
    "{'n': n}['n']",
    "dict(n=n)['n']",
    "f'{n}'",
    "f'{n!r:>{len(str(n))}}'",
    "'n'",
    "n if n == n else 'n'",
    "not n",
    "str(n).upper()",
    "str(n)[0:1]",
    "[m for m in [n]]",
    "[n for n in ['local']]",
    "[n for m in [n] for n in [m, 'local']]",
    "[n for n in [n]]",
    "[(n, m) for m in [n] if m == n]",
    "[m for m in [1, 2] if n]",
    "{n for n in ['local']}",
    "{k: n for k, n in [(1, 'local')]}",
    "{n: k for k in [n]}",
    "list(n for n in ['local'])",
    "list(m for m in [n])",
    "[[n for n in [n]] for n in [n]]",
    "[[m for m in [n]] for n in ['local']]",
    "[n for (n, m) in [('local', n)]]",
    "[n for m, *n in [('local', n)]]",
    "([n for n in ['local']], n)",
    "(n, [n for n in ['local']], n)",
    "(lambda: n)()",
    "(lambda n: n)('local')",
    "(lambda n=n: n)()",
    "(lambda m=n: m)()",
    "(lambda *, m=n: m)()",
    "(lambda *, n=n: n)()",
    "(lambda *n: n)('local')",
    "(lambda **n: n)(a='local')",
    "(lambda n, /: n)('local')",
    "(lambda n: (lambda: n)())('local')",
    "(lambda m: (lambda n: n)(m))(n)",
    "((lambda n: n)('local'), n)",
    "[(lambda: n)() for n in ['local']]",
    "(lambda n: [n for _ in [0]])('local')",
    "[m for m in (lambda n: [n])('local')]",
    "(lambda: [n for _ in [0]])()",
    "sorted([1, 2], key=lambda n: -n)",
    "max([n, n], key=lambda m: n == n)",
]

POSITIONS = [attr(e) for e in EXPRESSIONS] + [
    ("<x>{{ n }}</x>", "str(n)", TEXT),
    ("<x>a{{n}}b{{ [n for n in 'cd'] }}{{ n }}</x>", "f\"a{n}b{list('cd')}{n}\"", TEXT),
    ("<x v-bind=\"{'v': n}\" />", "n", ATTR),
    ('<x v-bind:v="n" />', "n", ATTR),
    ('<x v-for="c in [n]" :v="c" />', "n", ATTR),
    ('<x v-for="n in [\'local\']" :v="n" />', "'local'", ATTR),
    ('<x v-for="n in [n]" :v="n" />', "n", ATTR),
    ('<x v-for="n in [n]" :v="(lambda: n)()" />', "n", ATTR),
    ('<x v-for="c, n in enumerate([n])" :v="(c, n)" />', "(0, n)", ATTR),
    ('<x v-for="c in [1] for n in [c, 2][:1]" :v="n" />', "1", ATTR),
    ('<x v-for="c in [n] for n in [c, 2][:1]" :v="(c, n)" />', "(n, n)", ATTR),
    ('<x v-for="c in [1, 2] if n and c == 1 or not n and c == 2" :v="n" />', "n", ATTR),
    (
        '<template v-for="n in [\'local\']"><x v-for="m in [n]" :v="m" /></template>',
        "'local'", ATTR,
    ),
    (
        '<template v-for="m in [n]"><x v-for="n in [m]" :v="(m, n)" /></template>',
        "(n, n)", ATTR,
    ),
    (
        '<template><template v-for="n in [\'local\']"><y :w="n" /></template>'
        '<x :v="n" /></template>',
        "n", ATTR,
    ),
    ('<Kid><x :v="n" /></Kid>', "n", ATTR),
    ('<Kid><template #default><x :v="n" /></template></Kid>', "n", ATTR),
    ('<Kid v-for="n in [\'local\']"><x :v="n" /></Kid>', "'local'", ATTR),
    ('<Kid v-for="m in [n]"><x :v="(m, n)" /></Kid>', "(n, n)", ATTR),
    ('<Kid :n="\'kid\'"><x :v="n" /></Kid>', "n", ATTR),
    ('<Show :v="n" />', "n", ATTR),
    ('<x :v="1" v-if="n" /><x :v="2" v-else />', "1 if n else 2", ATTR),
    ('<x :v="1" v-if="False" /><x :v="3" v-else-if="not n" /><x :v="2" v-else />',
     "2 if n else 3", ATTR),
    ('<x @ev="lambda e: log(n)" />', "n", EVENT),
    ('<x v-on:ev="lambda e: log(n)" />', "n", EVENT),
    ('<x @ev="lambda e, m=n: log(m)" />', "n", EVENT),
    ('<x @ev="lambda n: log(n)" />', "'arg'", EVENT),
    ('<x v-for="n in [\'local\', 2][:1]" @ev="lambda e: log(n)" />', "'local'", EVENT),
    ('<x v-for="m in [n]" @ev="lambda e: log((m, n))" />', "(n, n)", EVENT),
]

PLACES = ["props", "state", "inst", "cls", "prop", "global", "import"]
ORDER = ["import", "props", "state", "prop", "inst", "cls", "global"]
CHANGES = ["props", "state", "inst"]
VALUESETS = {
    "names": {p: p for p in PLACES},
    "falsy": {
        "props": 0, "state": "", "inst": (), "cls": None, "prop": b"",
        "global": frozenset(), "import": range(0),
    },
}

SCRIPT = """
import collagraph as cg
from mc_names import Kid, Show
{imports}
from mc.cgxlib import log
{globals}

class Top(cg.Component):
    instances = []
    {cls}

    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        setup(self)
"""


# Other names than n (those that start with __ are mangled by Python)
NAMES = ["_n", "_", "n_", "n1", "x", "y", "ñ", "nn", "match", "selfish", "_ast", "cg_"]


def renamed(text, name):
    return re.sub(r"\bn\b", name, text)


def make_module(value, n="n"):
    module = types.ModuleType("mc_names")
    script = f"import collagraph as cg\nclass Kid(cg.Component):\n    {n} = 'kidattr'"
    cls, _ = cgx.load_from_string(
        source_of("<template><kid /><slot /></template>", script)
    )
    module.Kid = cls
    script = f"import collagraph as cg\nclass Show(cg.Component):\n    {n} = 'show'"
    cls, _ = cgx.load_from_string(source_of('<x :v="v" />', script))
    module.Show = cls
    setattr(module, n, value)
    module.m_n = value
    sys.modules["mc_names"] = module
    # Module with the name itself, and modules in it
    for name in ("n", "m_n", "n.n", "n.m"):
        sys.modules[name] = other = types.ModuleType(name)
        other.__path__ = []
        other.n = other.m_n = types.SimpleNamespace(value="other")
    sys.modules["n"].n = sys.modules["n.n"]
    sys.modules["n"].m = sys.modules["n.m"]
    module.os = sys
    sys.modules["mc_kinds_n"] = other = types.ModuleType("mc_kinds_n")
    other.other = types.SimpleNamespace()


def find(places, values):
    for place in ORDER:
        if place in places:
            return values[place]
    raise KeyError


class World:
    def __init__(
        self, position, places, values, how="from mc_names import n", extra=False, name="n"
    ):
        self.name = name
        position = (renamed(position[0], name), renamed(position[1], name), position[2])
        self.position = position
        self.values = values
        template, self.expr, self.kind = position
        cls = ""
        if "cls" in places:
            cls = f"{name} = {values['cls']!r}"
        if "prop" in places:
            cls = f"{name} = property(lambda self: {values['prop']!r})"
        make_module(values["import"], name)
        script = SCRIPT.format(
            imports=renamed(how, name) if "import" in places or extra else "",
            globals=f"{name} = {values['global']!r}" if "global" in places else "",
            cls=cls,
        )
        self.source = source_of(f'<root :tick="tick">{template}</root>', script)
        self.static = set(places) & {"cls", "prop", "global", "import"}
        self.trace = []
        try:
            self.cls, self.ns = cgx.load_from_string(self.source)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the template: {e}")
        self.ns["setup"] = self.setup
        self.items = []

    def fail(self, msg):
        e = Violation(f"{msg}\n{self.source}\n  " + "\n  ".join(map(str, self.trace)))
        e.signature = msg
        e.trace = [self.source, *self.trace]
        raise e

    def setup(self, comp):
        places = self.dynamic[len(self.items)]
        comp.state["tick"] = 0
        if "state" in places:
            comp.state[self.name] = self.values["state"]
        if "inst" in places:
            setattr(comp, self.name, self.values["inst"])
        self.items.append(comp)

    def mount(self, *dynamic):
        """dynamic: for each of the instances the places that define the name"""
        proxy_db.db.clear()
        self.dynamic = [set(d) for d in dynamic]
        self.trace.append(f"defined in {dynamic} and {sorted(self.static)}")
        self.items.clear()
        self.props = [
            reactive({self.name: self.values["props"]} if "props" in d else {}) for d in dynamic
        ]
        self.container = El("container")
        self.gui = cg.Collagraph(
            renderer=RecRenderer(), event_loop_type=cg.EventLoopType.SYNC
        )
        self.gui.render(
            cg.h("app", {}, *(cg.h(self.cls, p) for p in self.props)), self.container
        )

    def toggle(self, place, index=0):
        comp = self.items[index]
        places = self.dynamic[index]
        places ^= {place}
        self.trace.append(f"now defined in {sorted(places)}")
        add = place in places
        value = self.values[place]
        if place == "props":
            if add:
                self.props[index][self.name] = value
            else:
                del self.props[index][self.name]
        elif place == "state":
            if add:
                comp.state[self.name] = value
            else:
                del comp.state[self.name]
        elif add:
            setattr(comp, self.name, value)
        else:
            delattr(comp, self.name)
        # Attributes are not reactive, and neither are (for observ) keys that are added
        # again after they are deleted, so make sure that something else changes as well
        comp.state["tick"] += 1

    def check(self):
        roots = self.container.children[0].children
        for places, root in zip(self.dynamic, roots):
            places = places | self.static
            value = eval(self.expr, {self.name: find(places, self.values)})
            xs = []
            stack = [root]
            while stack:
                el = stack.pop()
                if el.type == "x":
                    xs.append(el)
                stack.extend(el.children)
            if len(xs) != 1:
                self.fail(f"{len(xs)} elements in {root}")
            if self.kind == ATTR:
                actual = to_raw(xs[0].attrs.get("v"))
            elif self.kind == TEXT:
                actual = "".join(c.text for c in xs[0].children)
            else:
                LOG.clear()
                for handler in xs[0].on["ev"]:
                    handler("arg")
                actual = LOG[0][0] if len(LOG) == 1 else tuple(LOG)
            if type(actual) is not type(value) or actual != value:
                self.fail(
                    f"{self.position[0]}: found {actual!r} instead of {value!r}, "
                    f"defined in {sorted(places)}"
                )


def tasks(tier):
    result = []
    for i in range(len(POSITIONS)):
        for values in VALUESETS:
            result.append(["position", i, values, 2 if tier == "quick" else 4])
    for i in (0, 47) if tier == "quick" else range(len(POSITIONS)):
        result.append(["instances", i, "names", 1])
    result.append(["imports", 0, "names", 0])
    result.append(["missing", 0, "names", 0])
    result.append(["modules", 0, "names", 0])
    for i in range(0, len(POSITIONS), 6 if tier == "quick" else 1):
        result.append(["warnings", i, "names", 0])
    for i in range(0, len(POSITIONS), 4 if tier == "quick" else 1):
        result.append(["others", i, "names", 1])
    for i, name in enumerate(NAMES):
        result.append(["spelled", i, "names", 0])
    return result


IMPORTS = [
    "from mc_names import n",
    "from mc_names import m_n as n",
    "import mc_names; n = mc_names.n; import mc_names as n; n = n.n",
    "from mc_names import *; from mc_names import n",
]


# Statements with the name that don't define it for the template
OTHERS = [
    "from mc_names import n as other",
    "import n as other",
    "from n import m_n",
    "from m_n import m_n as m_n, n as other",
    "def fn():\n    from mc_names import n\n    return n",
    "def fn():\n    import n\n    return n",
    "async def fn():\n    import n.n as n",
    "class Other:\n    from mc_names import n",
    "class Other:\n    def n(self, n=1):\n        from mc_names import n",
    "from mc_kinds_n import other\nother.n = 1",
    "def fn(n):\n    return [n for n in n]",
    "other = lambda n: n",
    "other = [n for n in [3]]",
]
# Statements that import the name
NESTED = [
    "if True:\n    from mc_names import n",
    "try:\n    from mc_names import missing\nexcept ImportError:\n    from mc_names import n",
    "try:\n    from mc_names import n\nfinally:\n    pass",
    "import os; from mc_names import os, n, Kid",
    "from mc_names import (os,\n    n)",
]


def warned(fn):
    """The number of different warnings about imports (when fn is called)"""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        fn()
    return len({str(w.message) for w in log if "import" in str(w.message)})


@contextlib.contextmanager
def loaded(frozen):
    """The compiler as it is loaded by a frozen application (or not)"""
    global cgx
    before = cgx
    prefix = "collagraph.cgx"
    modules = {k: m for k, m in sys.modules.items() if k == prefix or k.startswith(prefix + ".")}
    finders = sys.meta_path[:]
    package = sys.modules["collagraph"].cgx
    for name in modules:
        del sys.modules[name]
    if frozen:
        sys.frozen = True
    try:
        cgx = importlib.import_module("collagraph.cgx.cgx")
        assert cgx is not before
        yield
    finally:
        cgx = before
        sys.meta_path[:] = finders
        sys.modules.update(modules)
        sys.modules["collagraph"].cgx = package
        if frozen:
            del sys.frozen


def check_warnings(res, position, values, statics, dynamics):
    """There are warnings for places that are hidden by an import (unless the application
    is frozen), and those make no difference otherwise"""
    for frozen in (False, True):
        with loaded(frozen):
            frozen_warnings(res, position, values, statics, dynamics, frozen)


def frozen_warnings(res, position, values, statics, dynamics, frozen):
    imports = [*IMPORTS[:2], NESTED[0], NESTED[3]]
    others = ["", *OTHERS[:8]]

    def count_hidden(*places):
        """The number of places (of which the name is hidden by the import)"""
        if frozen or how in others:
            return 0
        places = {"inst" if p in ("cls", "prop") else p for p in itertools.chain(*places)}
        return len(places & {"inst", "state", "props"})

    for how, static in itertools.product([*imports, *others], statics):
        if how in others and (not static or "n as n" in how or "import" in static):
            continue
        if how in imports and "import" not in static:
            continue
        watchdog()
        world = World(position, static, values, how, extra=True)
        for dynamic in dynamics:
            if "prop" in static and "inst" in dynamic:
                continue
            world.trace.clear()
            actual = warned(lambda: world.mount(dynamic))
            world.check()
            expected = count_hidden(static, dynamic)
            if actual != expected:
                world.fail(f"{actual} warnings instead of {expected}")
            res.states += 1
            res.validated += 1
            for op in CHANGES:
                if "prop" in static and op == "inst":
                    continue
                actual = warned(lambda: world.toggle(op))
                world.check()
                expected = count_hidden(static, world.dynamic[0])
                # (there can be renderings in between, for other places)
                if actual < expected or actual and (frozen or how in others):
                    world.fail(f"{actual} warnings instead of {expected}")
                res.transitions += 1


def run_task(task):
    what, index, values, depth = task
    values = VALUESETS[values]
    position = POSITIONS[index]
    res = Result()
    gc.disable()
    warnings.simplefilter("ignore")
    statics = [[], ["cls"], ["prop"], ["global"], ["cls", "global"], ["import"],
               ["import", "cls"]]
    dynamics = [
        list(c) for r in range(4) for c in itertools.combinations(CHANGES, r)
    ]
    if what == "imports":
        for how in [*IMPORTS, *NESTED]:
            for position in POSITIONS:
                world = World(position, ["import"], values, how)
                world.mount(["props", "state", "inst"])
                world.check()
                res.states += 1
                res.transitions += 1
                res.validated += 1
    elif what == "modules":
        values = {**values, "import": "Module"}
        position = ('<x :v="type(n).__name__.capitalize()" />', "n", ATTR)
        for how in ["import n.n", "import n", "import n.m, n.n", "import m_n as n"]:
            world = World(position, ["import"], values, how)
            for dynamic in dynamics:
                world.mount(dynamic)
                world.check()
                res.states += 1
                res.transitions += 1
                res.validated += 1
    elif what == "others":
        for how in OTHERS:
            for static in statics[:5]:
                if "import" in static or "global" in static and "n as n" in how:
                    continue
                watchdog()
                world = World(position, static, values, how, extra=True)
                for dynamic in dynamics:
                    if "prop" in static and "inst" in dynamic or not (static or dynamic):
                        continue
                    world.trace.clear()
                    world.mount(dynamic)
                    world.check()
                    res.states += 1
                    res.validated += 1
                    for op in CHANGES:
                        if "prop" in static and "inst" == op:
                            continue
                        if not static and not world.dynamic[0] ^ {op}:
                            break
                        world.toggle(op)
                        world.check()
                        res.transitions += 1
    elif what == "warnings":
        check_warnings(res, position, values, statics, dynamics)
    elif what == "missing":
        for position in POSITIONS:
            names = {c for c in compile(position[1], "", "eval").co_names}
            watchdog()
            world = World(position, [], values)
            try:
                world.mount([])
                if position[2] == EVENT:
                    world.check()
                raised = False
            except NameError as e:
                raised = True
                if "'n'" not in str(e):
                    world.fail(f"misleading error: {e}")
            except (KeyError, AttributeError) as e:
                if not isinstance(e, KeyError) or e.args:
                    world.fail(f"{type(e).__name__} instead of NameError: {e}")
                raised = None
            if "n" in names and raised is False:
                world.fail("no error for a name that is not defined")
            res.states += 1
            res.transitions += 1
            res.validated += 1
    elif what == "spelled":
        for position in POSITIONS:
            for static in statics:
                if len(static) > 1 and static not in statics[-2:]:
                    continue
                watchdog()
                world = World(position, static, values, name=NAMES[index])
                for dynamic in dynamics:
                    if not static and not dynamic or "prop" in static and "inst" in dynamic:
                        continue
                    world.trace.clear()
                    world.mount(dynamic)
                    world.check()
                    res.states += 1
                    res.transitions += 1
                    res.validated += 1
    elif what == "instances":
        for static in statics[:5]:
            world = World(position, static, values)
            for a, b in itertools.product(dynamics, repeat=2):
                if not (static or a and b) or "prop" in static and "inst" in a + b:
                    continue  # (a property can't be set)
                watchdog()
                world.trace.clear()
                world.mount(a, b)
                world.check()
                for i in (0, 1):
                    for place in CHANGES:
                        if place == "inst" and "prop" in static:
                            continue
                        if world.dynamic[i] ^ {place} or static:
                            world.toggle(place, i)
                            world.check()
                            res.transitions += 1
                res.states += 1
                res.validated += 1
    else:
        for static in statics:
            world = World(position, static, values)
            for dynamic in dynamics:
                if "prop" in static and "inst" in dynamic:
                    continue  # The property can't be set
                if not static and not dynamic:
                    continue
                for ops in itertools.product(CHANGES, repeat=depth):
                    if "prop" in static and "inst" in ops:
                        continue
                    watchdog()
                    world.trace.clear()
                    world.mount(dynamic)
                    world.check()
                    res.states += 1
                    res.validated += 1
                    for op in ops:
                        if not static and not world.dynamic[0] ^ {op}:
                            break
                        world.toggle(op)
                        world.check()
                        res.transitions += 1
        res.sample(world.trace)
    gc.collect()
    return res
