"""Templates of cgx files: a small syntax tree, its source and a reference interpreter."""
import copy
import html
import itertools

import collagraph as cg
from collagraph.cgx import cgx
from observ.proxy_db import proxy_db

from mc.engine import Violation
from mc.ui import El, RecRenderer, windows

LOG = []


def log(*args):
    LOG.append(args)


class X:
    """Element of a template. attrs: list of (name, value); value None: no value"""

    def __init__(self, tag, attrs=(), ch=()):
        self.tag = tag
        self.attrs = list(attrs)
        self.ch = list(ch)

    def get(self, name):
        for key, val in self.attrs:
            if key == name:
                return val

    def has(self, name):
        return any(key == name for key, _ in self.attrs)

    def source(self):
        attrs = ""
        for key, val in self.attrs:
            if val is None:
                attrs += f" {key}"
            else:
                attrs += f' {key}="{html.escape(val)}"'
        if not self.ch:
            return f"<{self.tag}{attrs} />"
        inner = "".join(c.source() for c in self.ch)
        return f"<{self.tag}{attrs}>{inner}</{self.tag}>"

    def directive(self):
        for key in ("v-if", "v-else-if", "v-else"):
            if self.has(key):
                return key


class Txt:
    """Text as list of strings and ('x', expression) parts"""

    def __init__(self, *parts):
        self.parts = parts

    def source(self):
        return "".join(
            html.escape(p, quote=False) if isinstance(p, str) else "{{ %s }}" % p[1]
            for p in self.parts
        )


class Cmt:
    def source(self):
        return "<!-- comment <b> {{ x }} -->"


class Kind:
    """Component that is available to the templates"""

    def __init__(self, name, props, template):
        self.name = name
        self.props = props
        self.template = template


def source_of(template, script):
    if not isinstance(template, str):
        template = template.source()
    return f"<template>\n  {template}\n</template>\n\n<script>\n{script}\n</script>\n"


# -------------------------------------------------------------------- interpreter
class R:
    """Expected element (or text)"""

    __slots__ = ("type", "attrs", "on", "ch", "text")

    def __init__(self, type, attrs=None, on=None, ch=(), text=None):
        self.type = type
        self.attrs = attrs or {}
        self.on = on or {}
        self.ch = ch
        self.text = text

    def __repr__(self):
        if self.type == "TEXT_ELEMENT":
            return repr(self.text)
        attrs = "".join(
            f" {k}={v!r}" for k, v in sorted(self.attrs.items()) if v is not None
        )
        on = "".join(f" @{k}" for k in sorted(self.on))
        return f"<{self.type}{attrs}{on}>{''.join(map(repr, self.ch))}</>"


class Interpreter:
    def __init__(self, kinds=()):
        self.kinds = {k.name: k for k in kinds}
        self.codes = {}

    def eval(self, expr, env):
        code = self.codes.get(expr)
        if code is None:
            code = self.codes[expr] = compile(expr.strip(), "<expr>", "eval")
        # A scope of its own for each evaluation, also for lambdas
        return eval(code, {"log": log, **env})

    def children(self, ch, env, slots):
        result = []
        chain = None  # None: no chain; False: not found yet; True: found
        for c in ch:
            if isinstance(c, Cmt):
                continue
            if isinstance(c, Txt):
                chain = None
                text = "".join(
                    p if isinstance(p, str) else str(self.eval(p[1], env))
                    for p in c.parts
                )
                if c.source().strip():
                    result.append(R("TEXT_ELEMENT", text=text))
                continue
            if c.has("v-for"):
                chain = None
                target, _, iterable = c.get("v-for").partition(" in ")
                names = [n.strip(" ()") for n in target.split(",")]
                pairs = ", ".join(f"{n!r}: {n}" for n in names)
                scopes = self.eval(f"[{{{pairs}}} for {target} in {iterable}]", env)
                for scope in scopes:
                    result.extend(self.one(c, {**env, **scope}, slots))
                continue
            directive = c.directive()
            if directive == "v-if":
                chain = bool(self.eval(c.get("v-if"), env))
                if not chain:
                    continue
            elif directive:
                if chain:
                    continue
                if directive == "v-else-if":
                    chain = bool(self.eval(c.get(directive), env))
                    if not chain:
                        continue
                else:
                    chain = None
            else:
                chain = None
            result.extend(self.one(c, env, slots))
        return result

    def one(self, node, env, slots):
        if node.tag == "template":
            return self.children(node.ch, env, slots)
        if node.tag == "slot":
            name = node.get("name") or "default"
            if name in slots:
                return slots[name]()
            return self.children(node.ch, env, slots)
        attrs, on = self.attributes(node, env)
        kind = self.kinds.get(node.tag.split(".")[-1])
        if kind:
            return self.component(kind, node, attrs, env, slots)
        return [R(node.tag, attrs, on, self.children(node.ch, env, slots))]

    def attributes(self, node, env):
        attrs, on = {}, {}
        for key, val in node.attrs:
            if key == "v-bind":
                for k, v in self.eval(val, env).items():
                    attrs[k.lower() if False else k] = v
            elif key.startswith((":", "v-bind:")):
                attrs[key.split(":")[1].lower()] = self.eval(val, env)
            elif key.startswith(("@", "v-on:")):
                name = key.split("@")[-1].split(":")[-1].lower()
                on[name] = self.eval(val, env)
            elif key.startswith(("v-", "#")):
                continue
            else:
                attrs[key.lower()] = True if val is None else val
        for k in list(attrs):
            if k.startswith("on_"):
                on[k[3:].lower()] = attrs.pop(k)
        return attrs, on

    def component(self, kind, node, attrs, env, slots):
        own = {}
        default = []
        for c in node.ch:
            name = None
            for key, _ in getattr(c, "attrs", ()):
                if key.startswith("#"):
                    name = key[1:]
                elif key.startswith("v-slot"):
                    name = key.partition(":")[2] or "default"
            if name is None:
                default.append(c)
            else:
                own[name] = lambda c=c: self.one(c, env, slots)
        if any(not isinstance(c, Cmt) for c in default):
            own["default"] = lambda: self.children(default, env, slots)
        props = {name: attrs.get(name) for name in kind.props}
        return self.one(kind.template, {**props, "props": attrs}, own)


# ------------------------------------------------------------------------ sessions
def matches(expected, el):
    if expected.type != el.type:
        return False
    if expected.type == "TEXT_ELEMENT":
        return expected.text == el.text
    if len(expected.ch) != len(el.children):
        return False
    attrs = {k: v for k, v in expected.attrs.items() if v is not None and k != "key"}
    actual = {k: v for k, v in el.attrs.items() if v is not None and k != "key"}
    if attrs.keys() != actual.keys():
        return False
    for key, val in attrs.items():
        if type(val) is not type(actual[key]) or val != actual[key]:
            return False
    return all(map(matches, expected.ch, el.children))


def probe(expected, el, path, fail):
    """All events result in the calls of exactly the expected handler"""
    registered = {k for k, v in el.on.items() if v}
    if registered != set(expected.on):
        fail(f"listeners of {path}: {sorted(registered)}, not {sorted(expected.on)}")
    for name, handler in expected.on.items():
        LOG.clear()
        for fn in list(el.on[name]):
            fn(5)
        actual = list(LOG)
        LOG.clear()
        handler(5)
        if actual != LOG:
            fail(f"event {name} of {path}: {actual}, expected {LOG}")
    for i, (a, b) in enumerate(zip(expected.ch, el.children)):
        probe(a, b, f"{path}/{a.type}[{i}]", fail)


SCRIPT = """
import collagraph as cg
from mc.cgxlib import log
{imports}


class Top(cg.Component):
    instances = []

    def __init__(self, props, parent=None):
        super().__init__(props, parent)
        Top.instances.append(self)
        self.state.update(Top.initial)
"""


class Session:
    """A compiled template which is rendered for a history of states"""

    def __init__(self, template, interpreter, imports="", script=None):
        self.template = template
        self.interpreter = interpreter
        self.source = source_of(template, script or SCRIPT.format(imports=imports))
        self.trace = []
        try:
            self.cls, self.module = cgx.load_from_string(self.source)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the template: {e}")

    def fail(self, msg):
        e = Violation(
            f"{msg}\ntemplate:\n{self.source}\nstates:\n  "
            + "\n  ".join(map(str, self.trace[-6:]))
        )
        e.signature = msg
        e.trace = [self.source, *self.trace]
        raise e

    def start(self, state):
        proxy_db.db.clear()
        self.renderer = RecRenderer()
        self.container = El("container")
        self.gui = cg.Collagraph(
            renderer=self.renderer, event_loop_type=cg.EventLoopType.SYNC
        )
        self.cls.initial = copy.deepcopy(state)
        self.cls.instances.clear()
        self.trace = [state]
        try:
            self.gui.render(cg.h(self.cls), self.container)
        except Exception as e:
            self.fail(f"{type(e).__name__} for the first rendering: {e}")
        self.check(state)

    def change(self, state):
        self.trace.append(state)
        comp = self.cls.instances[0]
        for key, val in state.items():
            if comp.state[key] != val:
                try:
                    comp.state[key] = copy.deepcopy(val)
                except Exception as e:
                    self.fail(f"{type(e).__name__} for an update: {e}")
        self.check(state)

    def expected(self, state):
        return self.interpreter.one(self.template, copy.deepcopy(state), {})

    def check(self, state):
        expected = self.expected(state)
        actual = self.container.children
        if len(actual) != len(expected) or not all(map(matches, expected, actual)):
            self.fail(f"rendered {actual}, expected {expected}")
        for a, b in zip(expected, actual):
            probe(a, b, a.type, self.fail)
        if self.renderer.errors:
            self.fail(f"renderer: {self.renderer.errors[0]}")

    def explore(self, states, k=2):
        """All sequences of k states"""
        steps = 0
        for history in windows(len(states), k, 50):
            self.start(states[history[0]])
            for i in history[1:]:
                self.change(states[i])
            steps += len(history)
        return steps


def product_states(**domains):
    return [
        dict(zip(domains, values)) for values in itertools.product(*domains.values())
    ]
