"""Event handlers that look alike but behave differently are told apart"""
import collections
import datetime
import decimal
import enum
import fractions
import functools
import gc
import itertools
import types

import collagraph as cg
from observ import reactive
from observ.proxy_db import proxy_db

from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C11"
LEVEL = "model_checking"
RULE = """All ordered pairs (and triples in the thorough check) of event handlers of a
family: the product of values (equal or not, of various types, mutable or not) and ways in
which a handler carries such a value (closure, default, partial, bound method, constant of
the code, global, callable object etc). The handlers follow each other in an element and in
a component; after each rendering and after a change of the carried value in place, the
event has to have the same effect as a call of the current handler. A state is a sequence
of handlers; transitions are renderings."""

LOG = []


class StrSub(str):
    def __repr__(self):
        return "sub"


class IntSub(int):
    def __repr__(self):
        return "isub"


class Color(enum.IntEnum):
    ONE = 1


class Same:
    """Equal to any other instance, with its own identity"""

    count = 0

    def __init__(self):
        Same.count += 1
        self.n = Same.count

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"same{self.n}"

    def method(self, *args):
        LOG.append(("method", self.n, args))

    def method2(self, *args):
        LOG.append(("method2", self.n, args))

    @classmethod
    def clsmethod(cls, *args):
        LOG.append(("cls", cls.__name__, args))

    def __call__(self, *args):
        LOG.append(("called", self.n, args))


class SameSub(Same):
    pass


class Mutable:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Mutable) and self.n == other.n

    __hash__ = None

    def __repr__(self):
        return f"mutable{self.n}"


Point = collections.namedtuple("Point", "x")
Point2 = collections.namedtuple("Point2", "x")


def chg_list(value):
    value.append("changed")


def chg_dict(value):
    value["changed"] = 1


def chg_tuple(value):
    value[0].append("changed")


def chg_obj(value):
    value.n += 100


def closure_of(value):
    return lambda: value


# name -> (maker, function that changes the value in place)
VALUES = {
    "None": (lambda: None, None),
    "False": (lambda: False, None),
    "True": (lambda: True, None),
    "0": (lambda: 0, None),
    "1": (lambda: 1, None),
    "1.0": (lambda: 1.0, None),
    "0.0": (lambda: 0.0, None),
    "-0.0": (lambda: -0.0, None),
    "0j": (lambda: 0j, None),
    "-0j": (lambda: -0j, None),
    "nan": (lambda: float("nan"), None),
    "isub": (lambda: IntSub(1), None),
    "enum": (lambda: Color.ONE, None),
    "decimal": (lambda: decimal.Decimal("1.0"), None),
    "decimal2": (lambda: decimal.Decimal("1.00"), None),
    "fraction": (lambda: fractions.Fraction(1), None),
    "str": (lambda: "".join(["s", "ub"]), None),
    "strsub": (lambda: StrSub("sub"), None),
    "bytes": (lambda: b"sub", None),
    "bytearray": (lambda: bytearray(b"sub"), lambda v: v.append(1)),
    "()": (lambda: (), None),
    "(1,)": (lambda: (1,), None),
    "(True,)": (lambda: (True,), None),
    "(1.0,)": (lambda: (1.0,), None),
    "((),)": (lambda: ((),), None),
    "([],)": (lambda: ([],), chg_tuple),
    "point": (lambda: Point(1), None),
    "point2": (lambda: Point2(1), None),
    "frozenset": (lambda: frozenset([1]), None),
    "frozenset2": (lambda: frozenset([True]), None),
    "set": (lambda: {1}, lambda v: v.add("changed")),
    "[]": (lambda: [], chg_list),
    "[1]": (lambda: [1], chg_list),
    "[[]]": (lambda: [[]], chg_tuple),
    "{}": (lambda: {}, chg_dict),
    "{1}": (lambda: {"a": 1}, chg_dict),
    "deque": (lambda: collections.deque(), chg_list),
    "date": (lambda: datetime.timezone(datetime.timedelta(0)), None),
    "date2": (lambda: datetime.timezone(datetime.timedelta(0), "other"), None),
    "same": (Same, chg_obj),
    "mutable": (lambda: Mutable(1), chg_obj),
    "mutable2": (lambda: Mutable(2), chg_obj),
    "range": (lambda: range(0), None),
    "range2": (lambda: range(1, 1), None),
    "class": (lambda: int, None),
    "newclass": (lambda: type("New", (), {"n": 1}), lambda v: setattr(v, "n", 2)),
    "builtin": (lambda: len, None),
    "function": (lambda: closure_of(1), None),
    "function2": (lambda: closure_of(True), None),
    "function3": (lambda: closure_of([]), lambda v: v().append("changed")),
    "proxy": (lambda: reactive([1]), chg_list),
    "method": (lambda: [1].__len__, None),
    "simple": (lambda: types.SimpleNamespace(n=1), chg_obj),
}


def show(value):
    """What can be observed of the value"""
    kind = type(value).__name__
    if isinstance(value, types.FunctionType):
        return kind, show(value())
    if isinstance(value, type):
        return kind, value.__name__, getattr(value, "n", None)
    if isinstance(value, (types.BuiltinFunctionType, types.MethodWrapperType)):
        return kind, value.__name__
    if isinstance(value, tuple):
        return kind, tuple(map(show, value))
    if isinstance(value, frozenset):
        return kind, tuple(map(show, value))
    if isinstance(value, datetime.tzinfo):
        return kind, value.tzname(None)
    return kind, repr(value)


def log(value, args):
    LOG.append((show(value), args))


def closure(value):
    return lambda *args: log(value, args)


def default(value):
    return lambda *args, v=value: log(v, args)


def positional_default(value):
    def fn(a=0, v=value):
        log(v, (a,))

    return fn


def nested(value):
    def inner(args):
        log(value, args)

    return lambda *args: inner(args)


def inner_default(value):
    def outer(*args, fn=lambda a, v=value: log(v, a)):
        fn(args)

    return outer


def part(value):
    return functools.partial(log_first, value)


def log_first(value, *args):
    log(value, args)


def part_keyword(value):
    return functools.partial(log_keyword, value=value)


def log_keyword(*args, value):
    log(value, args)


def part_nested(value):
    return functools.partial(functools.partial(log_first, value), 7)


def part_of_closure(value):
    return functools.partial(closure(value), 7)


class Holder:
    def __init__(self, value):
        self.value = value

    def method(self, *args):
        log(self.value, args)

    def __call__(self, *args):
        log(self.value, args)


class EqualHolder(Holder):
    def __eq__(self, other):
        return isinstance(other, EqualHolder)

    def __hash__(self):
        return 1


def method(value):
    return Holder(value).method


def equal_method(value):
    return EqualHolder(value).method


def callable_object(value):
    return Holder(value)


def equal_callable(value):
    return EqualHolder(value)


def other_globals(value):
    ns = {"log": log, "value": value}
    exec("def fn(*args): log(value, args)", ns)
    return ns["fn"]


def recursive(value):
    def fn(*args, depth=1):
        if depth:
            fn(*args, depth=depth - 1)
        else:
            log(value, args)

    return fn


def chain(value, last):
    """Function that refers to itself, or else to another function"""

    def fn(*args, depth=1):
        if depth:
            other(*args, depth=depth - 1)
        else:
            log(value, args)

    other = last or fn
    return fn


def itself(value):
    return chain(value, None)


def not_itself(value):
    def last(*args, depth=0):
        log("last", args)
        log(value, args)

    return chain(value, last)


def through_itself(value):
    return chain(value, chain(value, None))


def twice_not_itself(value):
    return chain(value, not_itself(value))


def mutual(value):
    def a(*args):
        b(*args)

    def b(*args, again=True):
        if again:
            b(*args, again=False)
        else:
            log(value, args)

    return a


def two_cells(value):
    other = 1
    return lambda *args: (log(value, args), log(other, args))


def wrapped(value):
    @functools.wraps(log_first)
    def fn(*args):
        log_first(value, *args)

    return fn


def function_type(value):
    fn = closure(value)
    return types.FunctionType(
        fn.__code__, fn.__globals__, "renamed", fn.__defaults__, fn.__closure__
    )


def bound_closure(value):
    return types.MethodType(lambda self, *args: log(value, args), log_first)


def static(value):
    class Local:
        @staticmethod
        def fn(*args):
            log(value, args)

    return Local.fn


def generated_class(value):
    class Local:
        @classmethod
        def fn(cls, *args):
            log(cls.value, args)

    Local.value = value
    return Local.fn


CARRIERS = {
    fn.__name__: fn
    for fn in (
        closure, default, positional_default, nested, inner_default, part,
        part_keyword, part_nested, part_of_closure, method, equal_method,
        callable_object, equal_callable, other_globals, recursive, mutual, two_cells,
        itself, not_itself, through_itself, twice_not_itself,
        wrapped, function_type, bound_closure, static, generated_class,
    )
}


# Handlers with values in their code or with an other structure
def compiled(source):
    def make():
        ns = {"log": log, "LOG": LOG, "one": 1, "two": 2, "functools": functools}
        exec(compile(source, "<same>", "exec"), GLOBALS, ns)
        return ns["fn"]

    return make


GLOBALS = {"log": log, "LOG": LOG, "one": 1, "two": 2, "functools": functools}
SOURCES = [
    "fn = lambda *args: log(1, args)",
    "fn = lambda *args: log(2, args)",
    "fn = lambda *args: log(True, args)",
    "fn = lambda *args: log(1.0, args)",
    "fn = lambda *args: log(0.0, args)",
    "fn = lambda *args: log(-0.0, args)",
    "fn = lambda *args: log((1, 2), args)",
    "fn = lambda *args: log((1, 2.0), args)",
    "fn = lambda *args: log((1,), args)",
    "fn = lambda *args: log((1, 2, 3), args)",
    "fn = lambda *args: log((), args)",
    "fn = lambda *args: log((1, (True, 0.0)), args)",
    "fn = lambda *args: log((1, (True, -0.0)), args)",
    "fn = lambda *args: log((1, (1, -0.0)), args)",
    "fn = lambda *args: log(0j, args)",
    "fn = lambda *args: log(-0j, args)",
    "fn = lambda *args: log('1', args)",
    "fn = lambda *args: log(b'1', args)",
    "fn = lambda *args: log(None, args)",
    "fn = lambda *args: log(..., args)",
    "fn = lambda *args: log(one, args)",
    "fn = lambda *args: log(two, args)",
    "fn = lambda *args: log(args in {1, 2}, args)",
    "fn = lambda *args: log(args in {1.0, 2}, args)",
    "fn = lambda *args: (lambda x: log(1, x))(args)",
    "fn = lambda *args: (lambda x: log(2, x))(args)",
    "fn = lambda *args: (lambda x: log(1.0, x))(args)",
    "fn = lambda *args: (lambda x, y=1: log(y, x))(args)",
    "fn = lambda *args: (lambda x, y=2: log(y, x))(args)",
    "fn = lambda *args: (lambda x: (lambda y: log(1, y))(x))(args)",
    "fn = lambda *args: (lambda x: (lambda y: log(2, y))(x))(args)",
    "fn = lambda *args: [log(i, args) for i in (1, 2)]",
    "fn = lambda *args: [log(i, args) for i in (1, True)]",
    "fn = lambda *args: [log(one, args) for i in (1, 2)]",
    "fn = lambda a=1, b=2: log(a, (b,))",
    "fn = lambda b=1, a=2: log(a, (b,))",
    "fn = lambda a=1, *b: log(a, b)",
    "fn = lambda *a, b=1: log(b, a)",
    "fn = lambda *a, b=True: log(b, a)",
    "fn = lambda *a, c=1: log(c, a)",
    "fn = lambda *a, **b: log(1, (a, sorted(b)))",
    "fn = lambda *args: log(len(args), args)",
    "fn = lambda *args: log(len(args) + 1, args)",
    "fn = lambda *args: log(len(args) - 1, args)",
    "fn = lambda *args: log(args[:1], args)",
    "fn = lambda *args: log(f'{one}', args)",
    "fn = lambda *args: log(f'{one!r:>3}', args)",
    "def fn(*args):\n  try:\n    1 / 0\n  except ZeroDivisionError:\n    log(1, args)",
    "def fn(*args):\n  try:\n    log(0, args)\n  finally:\n    log(1, args)",
    "def fn(*args):\n  log(0, args)\n  log(1, args)",
    "fn = functools.partial(log, 1)",
    "fn = functools.partial(log, True)",
    "fn = functools.partial(log, args=1)",
    "fn = functools.partial(log)",
]

SPECIAL = {
    "Same.method": lambda: Same().method,
    "Same.method2": lambda: Same().method2,
    "Same": Same,
    "SameSub": SameSub,
    "Same.clsmethod": lambda: Same.clsmethod,
    "SameSub.clsmethod": lambda: SameSub.clsmethod,
    "log_append": lambda: LOG.append,
    "log_extend": lambda: LOG.extend,
    "print_like": lambda: functools.partial(LOG.append, "x"),
}


class Item:
    """An event handler, together with a change of the value that it carries"""

    def __init__(self, fn, change=None):
        self.fn = fn
        self.change = change


def make(spec):
    kind, *args = spec
    if kind == "carried":
        carrier, name = args
        maker, change = VALUES[name]
        value = maker()
        fn = CARRIERS[carrier](value)
        return Item(fn, change and (lambda: change(value)))
    if kind == "source":
        return Item(compiled(SOURCES[args[0]])())
    return Item(SPECIAL[args[0]]())


class Emitter(cg.Component):
    def render(self):
        return cg.h("x")

    def mounted(self):
        Emitter.current = self


class Top(cg.Component):
    def render(self):
        fn = HANDLERS[self.props["data"]["i"]].fn
        if self.props["how"] == "el":
            return cg.h("el", {"on_event": fn})
        return cg.h("el", {}, cg.h(Emitter, {"on_event": fn}))


HANDLERS = []


def run(specs, how):
    proxy_db.db.clear()
    HANDLERS[:] = [make(spec) for spec in specs]
    state = reactive({"i": 0})
    renderer = RecRenderer()
    gui = cg.Collagraph(renderer=renderer, event_loop_type=cg.EventLoopType.SYNC)
    container = El("container")

    def trigger(*args):
        if how == "el":
            for handler in list(container.children[0].on.get("event", ())):
                handler(*args)
        else:
            Emitter.current.emit("event", *args)

    def outcome(fn):
        LOG.clear()
        try:
            fn(1)
        except TypeError:
            LOG.append("TypeError")
        return list(LOG)

    def check(when):
        actual = outcome(trigger)
        expected = outcome(HANDLERS[state["i"]].fn)
        if actual != expected:
            trace = [f"handlers {specs} for {how}", when]
            e = Violation(
                f"handlers {specs} of {how}: {when}: the event results in {actual} "
                f"instead of {expected}"
            )
            e.trace = trace
            e.signature = f"{how} {specs}"
            raise e
        if renderer.errors:
            raise Violation(f"handlers {specs} of {how}: {renderer.errors[0]}")

    gui.render(cg.h(Top, {"data": state, "how": how}), container)
    check("first rendering")
    for i in range(1, len(specs)):
        state["i"] = i
        check(f"handler {i} is rendered")
        # Distinct objects can be changed independently
        for j in (i - 1, i):
            if HANDLERS[j].change:
                HANDLERS[j].change()
                check(f"handler {i} is rendered and the value of {j} is changed")


def families():
    result = [[["carried", c, v] for v in VALUES] for c in CARRIERS]
    result.append([["carried", c, v] for c in CARRIERS for v in ("1", "[1]")])
    result.append(
        [["source", i] for i in range(len(SOURCES))] + [["special", n] for n in SPECIAL]
    )
    return result


def tasks(tier):
    result = []
    for i, family in enumerate(families()):
        for j in range(len(family)):
            result.append([i, j, 2 if tier == "quick" else 3])
    return result


def run_task(task):
    i, first, length = task
    family = families()[i]
    res = Result()
    gc.disable()
    for rest in itertools.product(family, repeat=length - 1):
        watchdog()
        specs = [family[first], *rest]
        for how in ("el", "comp"):
            run(specs, how)
            res.states += 1
            res.transitions += length
            res.validated += 1
    res.sample(specs)
    gc.collect()
    return res
