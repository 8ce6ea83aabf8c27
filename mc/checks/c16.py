"""Text and interpolation in templates"""
import gc
import html
import itertools

import collagraph as cg
from collagraph.cgx import cgx
from observ.proxy_db import proxy_db

from mc.cgxlib import source_of
from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C16"
LEVEL = "model_checking"
RULE = """All texts that consist of a bounded number of tokens (plain text, white space,
entities, special characters, comments, elements and moustaches with all kinds of
expressions) in all kinds of containers are compiled, rendered and updated for a sequence
of values that contains all pairs, and compared with a scanner of the text. A state is a
text with a value; transitions are changes of the value."""

PLAIN = ["a", " ", "\n  ", "&lt;", "&amp;", "&eacute;", "&#123;", "{", "}", "< 1", "\u20ac",
         "'", '"', "\\n", "%s", "a & b", ">", "\n", "b\n", "\t"]
MOUSTACHES = [
    "{{ n }}", "{{n}}", "{{ n\n }}", "{{ (n,\n 1) }}", "{{ d['k'] }}", "{{ {1: n} }}",
    "{{ 'a' \"b\" }}", "{{ n == 1 }}", "{{ len(str(n)) < 2 }}", "{{ f'{n}' }}",
    "{{ '&lt;' }}", "{{ n if n else '' }}", "{{ None }}", "{{ '{}'.format(n) }}",
    "{{ n, 1 }}", "{{ [x for x in [n]] }}", "{{ (lambda: n)() }}", "{{ '\\n' }}",
    "{{ n &gt; 0 if n == 1 else n }}", "{{ y }}", "{{ x }}", "{{ s }}",
]
BREAKS = ["<!-- c {{ n }} -->", "<y />", "<y>{{ n }}</y>"]
TOKENS = PLAIN + MOUSTACHES + BREAKS
CORE = ["a", " ", "\n", "\n  ", "&lt;", "< 1", "}", "{", "{{ n }}", "{{n}}", "{{ n\n }}",
        "{{ x }}", "{{ d['k'] }}", "<!-- c {{ n }} -->", "<y />"]
CONTAINERS = {
    "root": "<x>{}</x>",
    "child": "<root><x>{}</x></root>",
    "template": "<root><x><template>{}</template></x></root>",
    "for": '<root><x v-for="i in [0]">{}</x></root>',
    "names": '<root><x v-for="x, y in [(n, s)]">{}</x></root>',
    "tfor": '<root><x><template v-for="i in [0]">{}</template></x></root>',
    "if": '<root><x v-if="True">{}</x></root>',
    "slot": "<root><Kid>{}</Kid></root>",
    "named": "<root><Kid><template #default>{}</template></Kid></root>",
    "fallback": "<root><x><slot>{}</slot></x></root>",
    "second": "<root><x><z />{}<z /></x></root>",
}


class Odd(str):
    """Each way to convert it to a string gives something else"""

    def __new__(cls, text):
        return super().__new__(cls, f"value {text}")

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return f"repr {self.text}"

    def __format__(self, spec):
        return f"format {self.text}"


class Falsy:
    def __bool__(self):
        return False

    def __str__(self):
        return "falsy"

    def __format__(self, spec):
        return "format"


VALUES = [0, 1, "", "<b>&amp;", None, "{{ d }}", 1.5, Odd("o"), Falsy(), 0]

SCRIPT = """
import collagraph as cg

class Kid(cg.Component):
    def render(self):
        return cg.h("x", {}, *self.render_slot("default"))

class Top(cg.Component):
    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        self.state.update({"n": INITIAL, "d": {"k": INITIAL}, "x": 3, "y": "Y", "s": "S"})
        init(self)
"""


def scan(tokens):
    """Content: strings, ('expr', code) and elements"""
    runs = []  # texts and elements
    for token in tokens:
        if token in BREAKS:
            runs.append(token)
        elif runs and runs[-1] not in BREAKS:
            runs[-1] += token
        else:
            runs.append(token)
    result = []
    for run in runs:
        if run == "<y />":
            result.append([])
        elif run == "<y>{{ n }}</y>":
            result.append([["", compile("n", "", "eval"), ""]])
        elif run not in BREAKS:
            text = html.unescape(run)
            parts = []
            while True:
                before, start, rest = text.partition("{{")
                expr, end, after = rest.partition("}}")
                if not start or not end:
                    parts.append(text)
                    break
                parts.append(before)
                parts.append(compile(f"({expr.strip()})", "", "eval"))
                text = after
            if len(parts) > 1 or text.strip():
                result.append(("text", parts))
    return result


def valid(tokens):
    for a, b in zip(tokens, tokens[1:]):
        if a in ("{", "&#123;") and b.startswith(("{", "&#123;")):
            return False
        if a.endswith("}") and b.startswith("}"):
            return False
        if a in ("< 1", "a & b") and b in ("&lt;",):
            continue
    # The white space before a '<' is not considered to be part of the text
    for i, t in enumerate(tokens):
        if t == "< 1":
            run = list(
                itertools.takewhile(lambda t: t not in BREAKS, reversed(tokens[:i]))
            )
            if run and not "".join(run).strip():
                return False
    return True


def text_of(parts, scope):
    return "".join(p if isinstance(p, str) else str(eval(p, dict(scope))) for p in parts)


class World:
    def __init__(self, container, tokens):
        self.container_name = container
        self.tokens = tokens
        self.runs = scan(tokens)
        self.source = source_of(CONTAINERS[container].format("".join(tokens)), SCRIPT)
        self.trace = []
        try:
            self.cls, self.ns = cgx.load_from_string(self.source)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the template: {e}")

    def fail(self, msg):
        e = Violation(f"{msg}\n{self.source}\n  values: {self.trace}")
        e.signature = msg
        e.trace = [self.source, *self.trace]
        raise e

    def run(self, values):
        proxy_db.db.clear()
        items = []
        self.ns["INITIAL"] = values[0]
        self.ns["init"] = items.append
        self.container = El("container")
        self.renderer = RecRenderer()
        gui = cg.Collagraph(
            renderer=self.renderer, event_loop_type=cg.EventLoopType.SYNC
        )
        self.trace = [values[0]]
        try:
            gui.render(cg.h(self.cls, {}), self.container)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the first rendering: {e}")
        self.check(values[0])
        for value in values[1:]:
            self.trace.append(value)
            try:
                items[0].state["n"] = value
                items[0].state["d"]["k"] = value
            except Exception as e:
                self.fail(f"{type(e).__name__} for an update: {e}")
            self.check(value)

    def check(self, value):
        root = self.container.children[0]
        x = root if self.container_name == "root" else root.children[0]
        children = x.children
        if self.container_name == "second":
            if [c.type for c in (children[0], children[-1])] != ["z", "z"]:
                self.fail(f"rendered {children}")
            children = children[1:-1]
        scope = {"n": value, "d": {"k": value}, "x": 3, "y": "Y", "s": "S"}
        if self.container_name == "names":
            scope.update(x=value, y="S")
        if len(children) != len(self.runs):
            self.fail(f"rendered {children} for n = {value!r}")
        for run, el in zip(self.runs, children):
            if isinstance(run, tuple):
                expected = text_of(run[1], scope)
                if el.type != "TEXT_ELEMENT" or el.text != expected:
                    self.fail(f"rendered {el} instead of {expected!r}")
            else:
                texts = [c.text for c in el.children]
                if el.type != "y" or texts != [text_of(r, scope) for r in run]:
                    self.fail(f"rendered {el} ({texts}) for n = {value!r}")
        if self.renderer.errors:
            self.fail(f"renderer: {self.renderer.errors[0]}")


def tasks(tier):
    result = []
    for container in CONTAINERS:
        for first in range(len(TOKENS)):
            result.append([container, "TOKENS", [first], 2 if tier == "quick" else 3])
    for first in range(len(CORE)):
        for container in ("child", "second"):
            if tier == "quick":
                result.append([container, "CORE", [first], 3])
            else:
                for second in range(len(CORE)):
                    result.append([container, "CORE", [first, second], 5])
    return result


def run_task(task):
    container, alphabet, prefix, n = task
    alphabet = globals()[alphabet]
    res = Result()
    gc.disable()
    prefix = [alphabet[i] for i in prefix]
    for r in range(n - len(prefix) + 1):
        for rest in itertools.product(alphabet, repeat=r):
            tokens = prefix + list(rest)
            if not valid(tokens):
                continue
            watchdog()
            world = World(container, tokens)
            dynamic = "{{" in "".join(tokens)
            values = VALUES if dynamic else VALUES[:1]
            world.run(values)
            res.states += len(values)
            res.transitions += len(values) - 1
            res.validated += len(values)
    res.sample([world.source, *world.trace])
    gc.collect()
    return res
