"""From the source of a cgx file to a component"""
import ast
import gc
import itertools
from pathlib import Path
import sys
import tempfile
import traceback
import types

import collagraph as cg
from collagraph.cgx import cgx
from observ.proxy_db import proxy_db

from mc.engine import Result, Violation, watchdog
from mc.ui import El, RecRenderer

ID = "C17"
LEVEL = "model_checking"
RULE = """All trees (of bounded size) of all kinds of tags are written down in all formats
(self closing, white space, comments, quotes, case) and all kinds of layouts of the
sections; the result of loading and rendering is compared with the tree, and the line
numbers of all statements of the script with the lines of the file. A state is a source
text; a transition is loading and rendering it."""

SCRIPT = """import collagraph as cg
import mc_tags as m
from mc_tags import Kid, Fn, X, low as kid


class Top(cg.Component):
    pass
"""


def fail(msg, source):
    e = Violation(f"{msg}\n{source}")
    e.signature = msg
    e.trace = [source]
    raise e


def kid(name):
    class Comp(cg.Component):
        def render(self):
            slot = self._slots.get("default")
            return cg.h(name, self.props, *(self.render_slot("default") if slot else ()))

    Comp.__name__ = name
    return Comp


def make_module():
    module = types.ModuleType("mc_tags")
    module.Kid = kid("r-kid")
    module.Kid.Sub = kid("r-sub")
    module.n = types.SimpleNamespace(Kid=kid("r-nkid"), low=kid("r-low"))
    module.X = kid("r-x")
    module.low = types.SimpleNamespace(Sub=kid("r-lowsub"))
    module.Kid.n = types.SimpleNamespace(Deep=kid("r-deep"))

    def fn(props, slots=None):
        slot = (slots or {}).get("default")
        return cg.h("r-fn", props, *(cg.render_slot("default", None, slots) if slot else ()))

    module.Fn = fn
    sys.modules["mc_tags"] = module


# Tag in the source -> type of the element
TAGS = {
    "x": "x",
    "my-el": "my-el",
    "xA": "xA",
    "slots": "slots",
    "Kid": "r-kid",
    "Kid.Sub": "r-sub",
    "Kid.n.Deep": "r-deep",
    "m.Kid": "r-kid",
    "m.n.Kid": "r-nkid",
    "m.n.low": "r-low",
    "Fn": "r-fn",
    # Tags that only differ in case
    "X": "r-x",
    "kid": "kid",
    "kid.Sub": "r-lowsub",
}
# Attribute in the source -> name and value
ATTRS = [
    ('a="1"', "a", "1"),
    ('a="x y"', "a", "x y"),
    ("a='1'", "a", "1"),
    ("a=1", "a", "1"),
    ('a = "1"', "a", "1"),
    ('a=""', "a", ""),
    ("a", "a", True),
    ("A", "a", True),
    ('aB="Cd"', "ab", "Cd"),
    ('data-a="1"', "data-a", "1"),
    ('a_b="1"', "a_b", "1"),
    ('a="&lt;b&gt; &amp; &quot;"', "a", '<b> & "'),
    ('a="it\'s"', "a", "it's"),
    ("a='\"q\"'", "a", '"q"'),
    ('a="<b />"', "a", "<b />"),
    ('a="1 > 0"', "a", "1 > 0"),
    ('a="{{ n }}"', "a", "{{ n }}"),
    ('a="b\n  c"', "a", "b\n  c"),
    ('a="x" b=\'y\'', ("a", "b"), ("x", "y")),
    ('a="x"\n  b="y"', ("a", "b"), ("x", "y")),
    ('a\n  b', ("a", "b"), (True, True)),
    (':a="1 > 0"', "a", True),
    (':a="1 < 0"', "a", False),
    (":a=\"'x'\"", "a", "x"),
    (":a='\"x\"'", "a", "x"),
    (':a="&quot;x&quot;"', "a", "x"),
    (':a=1', "a", 1),
    (':A="1"', "a", 1),
    (':a-b="1"', "a-b", 1),
    (':a="(1,\n  2)"', "a", (1, 2)),
    (':a="{\'k\': {1: 2}}"', "a", {"k": {1: 2}}),
    ('v-bind:a="None"', "a", None),
    ("v-bind=\"{'aB': 1}\"", "aB", 1),
]


def trees(size):
    """Shapes of ordered trees as nested tuples, for the given number of nodes"""
    if size == 1:
        yield ()
        return
    for forest in forests(size - 1):
        yield forest


def forests(size):
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        for tree in trees(first):
            for rest in forests(size - first):
                yield (tree, *rest)


def count(shape):
    return 1 + sum(map(count, shape))


def label(shape, tags):
    """Returns (tag, children)"""
    tag = next(tags)
    return (tag, [label(c, tags) for c in shape])


FORMATS = list(
    itertools.product(
        ("<{0}{1}></{0}>", "<{0}{1}/>", "<{0}{1} />", "<{0}{1}\n></{0}\n>", "<{0}{1}></{2}>"),
        ("", "\n  ", "\r\n\t"),
        ("", "<!-- c --->", "<!-- <y a='>'> {{ n }}\n -->", "<!---->"),
    )
)


def write(node, fmt, attrs=""):
    tag, ch = node
    leaf, space, comment = fmt
    pad = space + comment + space
    if not ch and not comment:
        return leaf.format(tag, attrs, tag.upper())
    inner = pad.join(write(c, fmt) for c in ch)
    return f"<{tag}{attrs}>{pad}{inner}{pad}</{tag}>"


def expect(node, el, source):
    tag, ch = node
    if el.type != TAGS[tag] or len(el.children) != len(ch):
        fail(f"rendered {el} for {tag}", source)
    for c, e in zip(ch, el.children):
        expect(c, e, source)


def render(source):
    proxy_db.db.clear()
    try:
        cls, _ = cgx.load_from_string(source)
        container = El("container")
        renderer = RecRenderer()
        cg.Collagraph(renderer=renderer, event_loop_type=cg.EventLoopType.SYNC).render(
            cg.h(cls), container
        )
    except Exception as e:
        fail(f"{type(e).__name__}: {e}", source)
    if renderer.errors or len(container.children) != 1:
        fail(f"rendered {container.children} {renderer.errors[:1]}", source)
    return cls, container.children[0]


SECTIONS = [
    "<template>{0}</template><script>\n{1}</script>",
    "<template>{0}</template>\n<script>\n{1}</script>\n",
    "\n\n<template>\n  {0}\n</template>\n\n\n<script>\n{1}\n</script>",
    "<script>\n{1}</script>\n<template>{0}</template>\n",
    "<!-- head -->\n<template>{0}</template>\n<!-- mid\n -->\n<script>\n{1}</script>\n<!-- end -->",
    "<!-- <script>raise</script> -->\n<script>\n{1}</script><template>{0}</template>",
    "<template lang='x'>{0}</template>\n<script lang='y'>\n{1}</script>\n",
    "<template>{0}</template>\n<script\n  lang='y'\n>\n{1}</script>\n",
    "<template>{0}</template>\n<script>{1}</script>\n",
    "<template>{0}</template>\n<script>\n\n\n{1}</script>\n",
    "<style>\n x {{ color: red }}\n</style>\n<template>{0}</template>\n<script>\n{1}</script>",
    "<docs><template><y /></template></docs><template>{0}</template>\n<script>\n{1}</script>",
    "text\n<template>{0}</template>\n<script>\n{1}</script>",
]
CLASSES = [
    "class Top(cg.Component):\n    pass\n",
    "class Top(Base):\n    pass\n",
    "class Other: pass\n\nclass Top(cg.Component):\n    pass\n",
    "class Top(cg.Component):\n    'doc'\n    def render(self):\n        return None\n",
    "class Top(cg.Component):\n    pass\n\nvalue = Top\n",
    "class Top(cg.Component):\n    class Inner:\n        pass\n",
    "class Top(cg.Component):\n    pass\n\ndef fn():\n    class Local: pass\n",
    "@deco\nclass Top(cg.Component):\n    pass\n",
    "class Top(Base, metaclass=type(Base)):\n    a: int = 1\n\n    async def foo(self): ...\n",
    "class Top(cg.Component):\n    def foo(self):\n        return '<b>' if 1 < 2 else '&amp;'\n",
    "if True:\n    class Cond: pass\n\nclass Top(cg.Component):\n    x = '''\n\n  a'''\n",
]
HEAD = """import collagraph as cg
import sys

def deco(cls):
    cls.decorated = True
    return cls

class Base(cg.Component):
    pass

def where():
    return sys._getframe(1).f_lineno

LINES = []
"""
TEMPLATES = ["<x />", "<x>\n  <y />\n\n</x>", "<x\n :a=\"(1,\n2)\"\n/>"]


def marks(script):
    """Adds a call to register the line numbers at all possible places of a script"""
    lines = script.split("\n")
    for i in range(len(lines) + 1):
        candidate = "\n".join([*lines[:i], "LINES.append((where(), 'mark'))", *lines[i:]])
        try:
            tree = ast.parse(candidate)
        except SyntaxError:
            continue
        if any(
            isinstance(n, ast.Expr) and n.lineno == i + 1 and n.col_offset == 0
            for n in tree.body
        ):
            yield candidate


def check_layout(layout, cls, template, res):
    full = HEAD + cls
    for script in marks(cls):
        script = HEAD + script
        source = layout.format(template, script)
        watchdog()
        line = source[: source.index("LINES.append")].count("\n") + 1
        try:
            comp, ns = cgx.load_from_string(source)
        except Exception as e:
            fail(f"{type(e).__name__}: {e}", source)
        if ns["LINES"] != [(line, "mark")]:
            fail(f"{ns['LINES']} instead of line {line}", source)
        if comp.__name__ != "Top" or ns["Top"] is not comp:
            fail(f"loaded {comp}", source)
        if not issubclass(comp, ns["Base"]) == ("Top(Base" in cls):
            fail("wrong class", source)
        if ("@deco" in cls) != getattr(comp, "decorated", False):
            fail("decorator is not called once", source)
        if comp({}).render().type != "x":
            fail("render of the template is not used", source)
        res.states += 1
        res.transitions += 1
        res.validated += 1

    # Each of the lines in turn is replaced by one which raises an exception or
    # is not valid
    lines = full.split("\n")
    for i, text in enumerate(lines):
        indent = len(text) - len(text.lstrip())
        for bad, error in (("raise_()", NameError), ("1 +* 2", SyntaxError)):
            script = "\n".join([*lines[:i], " " * indent + bad + "  # mark", *lines[i + 1 :]])
            try:
                ast.parse(script)
                valid = True
            except SyntaxError as e:
                valid = False
                if error is NameError or e.lineno != i + 1:
                    continue
            if valid and error is SyntaxError:
                continue
            source = layout.format(template, script)
            line = source[: source.index("# mark")].count("\n") + 1
            watchdog()
            try:
                cgx.load_from_string(source)
            except SyntaxError as e:
                if valid or e.lineno != line:
                    fail(f"SyntaxError at {e.lineno} instead of {line}", source)
            except NameError as e:
                if "raise_" not in str(e):
                    continue
                at = traceback.extract_tb(e.__traceback__)[-1].lineno
                if at != line:
                    fail(f"error at {at} instead of line {line}", source)
            except ValueError:
                pass
            except Exception as e:
                if "Top" in script or not valid:
                    fail(f"{type(e).__name__}: {e}", source)
            else:
                if not valid:
                    fail("no error", source)
            res.states += 1
            res.transitions += 1
            res.validated += 1


def check_errors(res):
    roots = ["<x />", "<y></y>", "text", "<!-- c -->", " ", "<x v-if='True' />", "<slot />",
             "<template><x /></template>", "{{ n }}", "<Kid />"]
    for n in range(4):
        for items in itertools.product(roots, repeat=n):
            source = f"<template>{''.join(items)}</template><script>\n{SCRIPT}</script>"
            elements = [i for i in items if i.startswith("<") and i != "<!-- c -->"]
            watchdog()
            res.states += 1
            res.transitions += 1
            try:
                cgx.load_from_string(source)
                if len(elements) != 1:
                    fail(f"no error for {len(elements)} elements", source)
            except ValueError as e:
                if len(elements) == 1:
                    fail(f"{type(e).__name__}: {e}", source)
                if str(len(elements)) not in str(e):
                    fail(f"misleading error: {e}", source)
            except Violation:
                raise
            except Exception as e:
                fail(f"{type(e).__name__}: {e}", source)
            res.validated += 1
    defs = {
        "class A(cg.Component): pass": True,
        "class B: pass": False,
        "class C(dict): pass": False,
        "class D(A): pass": True,
        "def f(): pass": None,
        "g = cg.Component": None,
    }
    for n in range(1, 4):
        for items in itertools.permutations(defs, n):
            if any("(A)" in d for d in items) and "class A(cg.Component): pass" not in (
                items[: [("(A)" in d) for d in items].index(True)]
            ):
                continue
            classes = [i for i in items if i.startswith("class")]
            if not classes:
                continue
            script = "import collagraph as cg\n" + "\n".join(items)
            source = f"<template><x /></template><script>\n{script}\n</script>"
            valid = defs[classes[-1]]
            watchdog()
            res.states += 1
            res.transitions += 1
            try:
                cls, ns = cgx.load_from_string(source)
                if not valid:
                    fail("no error for a class that is not a component", source)
                if cls.__name__ != classes[-1][6]:
                    fail(f"loaded {cls}", source)
                if cls({}).render().type != "x":
                    fail("not rendered", source)
                if any("render" in vars(ns[c[6]]) for c in classes[:-1]):
                    fail("template is added to another class", source)
            except ValueError as e:
                if valid:
                    fail(f"{type(e).__name__}: {e}", source)
            except Violation:
                raise
            except Exception as e:
                fail(f"{type(e).__name__}: {e}", source)
            res.validated += 1


def check_files(res):
    """Loading from a file gives the same as loading from a string"""
    with tempfile.TemporaryDirectory() as folder:
        for i, (layout, cls) in enumerate(itertools.product(SECTIONS, CLASSES)):
            for newline in ("\n", "\r\n"):
                watchdog()
                source = layout.format(
                    "<x a='1' :b='FILE'>text {{ len(\"a\") }}</x>", HEAD + cls + "FILE = 1\n"
                )
                path = Path(folder) / f"mod{i}.cgx"
                path.write_bytes(source.replace("\n", newline).encode())
                try:
                    comp, ns = cgx.load(path)
                    el = comp({}).render()
                except Exception as e:
                    fail(f"{type(e).__name__}: {e}", source)
                if el.props != {"a": "1", "b": 1} or comp.__name__ != "Top":
                    fail(f"loaded {comp}: {el.props}", source)
                if [c.props["content"] for c in el.children] != ["text 1"]:
                    fail(f"loaded {el.children}", source)
                if ns["where"].__code__.co_filename != str(path):
                    fail(f"file name {ns['where'].__code__.co_filename}", source)
                if ns["where"].__code__.co_firstlineno != (
                    source[: source.index("def where")].count("\n") + 1
                ):
                    fail("line number", source)
                res.states += 1
                res.transitions += 1
                res.validated += 1


def tasks(tier):
    quick = tier == "quick"
    result = [["errors"], ["files"]]
    result += [["attrs", i] for i in range(len(ATTRS))]
    for i in range(len(SECTIONS)):
        for j in range(len(CLASSES)):
            result.append(["layout", i, j])
    for size in range(1, 4 if quick else 5):
        for shape in trees(size):
            for tag in TAGS:
                result.append(["trees", shape, tag, size, quick])
    return result


def run_task(task):
    what, *args = task
    res = Result()
    gc.disable()
    make_module()
    if what == "errors":
        check_errors(res)
    elif what == "files":
        check_files(res)
    elif what == "layout":
        for template in TEMPLATES:
            check_layout(SECTIONS[args[0]], CLASSES[args[1]], template, res)
    elif what == "attrs":
        text, names, values = ATTRS[args[0]]
        if isinstance(names, str):
            names, values = [names], [values]
        for tag in TAGS:
            for fmt in FORMATS:
                for node in ((tag, []), (tag, [("x", [])])):
                    for space in (" ", "\n    "):
                        watchdog()
                        tail = " " if not text.endswith(("'", '"')) else ""
                        tree = write(node, fmt, space + text + tail)
                        source = (
                            f"<template>{tree}</template>\n<script>\n{SCRIPT}</script>"
                        )
                        _, el = render(source)
                        expect(node, el, source)
                        attrs = {k: v for k, v in zip(names, values) if v is not None}
                        actual = {k: v for k, v in el.attrs.items() if v is not None}
                        if actual != attrs or any(
                            type(actual[k]) is not type(v)
                            for k, v in attrs.items()
                            if not isinstance(v, dict)
                        ):
                            fail(f"attributes {actual} instead of {attrs}", source)
                        res.states += 1
                        res.transitions += 1
                        res.validated += 1
    else:
        shape, first, size, quick = args
        tags = TAGS if size < 3 or not quick else ["x", "X", "kid", "Kid", "m.n.Kid"]
        for rest in itertools.product(tags, repeat=size - 1):
            node = label(shape, iter([first, *rest]))
            for fmt in FORMATS:
                watchdog()
                tree = write(node, fmt)
                source = f"<template>{tree}</template>\n<script>\n{SCRIPT}</script>"
                cls, el = render(source)
                expect(node, el, source)
                res.states += 1
                res.transitions += 1
                res.validated += 1
        res.sample([source])
    gc.collect()
    return res
