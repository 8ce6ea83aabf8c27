"""A small language to describe user interfaces, with two interpretations:

* the real one: every description is turned into virtual nodes and component classes
  that are rendered by collagraph with a recording renderer;
* the reference model: a plain recursive reconciliation that starts from a complete
  evaluation of the description for the current data.

`World` executes the same operations in both and compares the outcome after each step.
"""
import copy
import functools
import gc
import itertools

import collagraph as cg
from observ import reactive, to_raw
from observ.proxy_db import proxy_db

from mc.engine import Violation


# --------------------------------------------------------------------- descriptions
class N:
    __slots__ = ("kind", "type", "attrs", "on", "key", "ch", "slots")

    def __init__(self, kind, type, attrs=None, on=None, key=None, ch=(), slots=None):
        self.kind = kind
        self.type = type
        self.attrs = attrs or {}
        self.on = on or {}
        self.key = key
        self.ch = ch
        self.slots = slots

    def __repr__(self):
        name = getattr(self.type, "name", self.type)
        parts = []
        if self.key is not None:
            parts.append(f"key={self.key!r}")
        if self.attrs:
            parts.append(f"{self.attrs}")
        if self.on:
            parts.append(f"on={self.on}")
        if self.slots:
            parts.append(f"slots={list(self.slots)}")
        if self.ch:
            parts.append(repr(list(self.ch)))
        return f"{name}({', '.join(parts)})"


def E(type, attrs=None, on=None, key=None, ch=()):
    """A host element"""
    return N("E", type, attrs, on, key, ch)


def T(text):
    return N("T", text)


def V(ch=(), key=None, type="template"):
    """A virtual node"""
    return N("V", type, None, None, key, ch)


def C(defn, props=None, on=None, key=None, slots=None):
    """A class component"""
    return N("C", defn, props, on, key, (), slots)


def F(defn, props=None, key=None, slots=None):
    """A function component"""
    return N("F", defn, props, None, key, (), slots)


def S(name="default", fallback=(), props=None):
    """A place where the content of a slot is rendered (as child of E or V)"""
    return N("S", name, props, None, None, fallback)


class Def:
    """Definition of a component. `render` and `init` are called with a context (with
    props, state, iid and d) and are written once for both interpretations."""

    def __init__(self, name, render, init=None, func=False, falsy=False, hooks=None):
        self.name = name
        self.render = render
        self.init = init
        self.func = func
        self.falsy = falsy
        self.hooks = hooks or {}
        self._real = None

    def real(self):
        if self._real is None:
            self._real = make_function(self) if self.func else make_class(self)
        return self._real


class IID(int):
    """Identity of a component instance: compared with a bijection"""


class H:
    """Describes an event handler that logs its tag, value and arguments."""

    __slots__ = ("how", "tag", "val")

    def __init__(self, how, tag, val=None):
        self.how = how
        self.tag = tag
        self.val = val

    def same(self, other):
        return (self.how, self.tag, self.val) == (other.how, other.tag, other.val)

    def __repr__(self):
        return f"H({self.how},{self.tag},{self.val})"


LOG = []


class CallableObject:
    def __init__(self, tag, val):
        self.tag = tag
        self.val = val

    def __call__(self, *args):
        LOG.append((self.tag, self.val, args))


class EqualObject(CallableObject):
    """Equal to the others, although it does something else"""

    def __eq__(self, other):
        return isinstance(other, EqualObject)

    def __hash__(self):
        return 1


def log_call(tag, val, *args):
    LOG.append((tag, val, args))


def real_handler(h, comp):
    tag, val = h.tag, h.val
    if h.how == "lam":
        return lambda *args: LOG.append((tag, val, args))
    if h.how == "def":

        def handler(*args, t=tag, v=val):
            LOG.append((t, v, args))

        return handler
    if h.how == "default":
        return lambda *args, t=tag, v=val: LOG.append((t, v, args))
    if h.how == "partial":
        return functools.partial(log_call, tag, val)
    if h.how == "obj":
        return CallableObject(tag, val)
    if h.how == "equal":
        return EqualObject(tag, val)
    if h.how == "box":
        box = [val]
        return lambda *args: LOG.append((tag, box[0], args))
    if h.how == "meth":
        # val is ignored: logs the state of the instance
        return comp.log_method if tag == "m" else comp.log_method2
    if h.how == "methargs":
        return functools.partial(comp.log_method_args, tag, val)
    if h.how == "state":
        # Reads the value from the state of the component when called
        return lambda *args: LOG.append((tag, comp.state[val], args))
    if h.how == "incr":
        # Changes the local state of the component
        def incr(*args):
            comp.state[val] += 1

        return incr
    if h.how == "call":
        # Calls an arbitrary function with the component
        return lambda *args: tag(comp, *args)
    raise ValueError(h.how)


# -------------------------------------------------------------- real interpretation
def to_vnode(n, comp=None, slots=None):
    kind = n.kind
    if kind == "T":
        return n.type
    attrs = dict(n.attrs)
    if n.key is not None:
        attrs["key"] = n.key
    for event, h in n.on.items():
        attrs[f"on_{event}"] = real_handler(h, comp)
    if "__same__" in attrs and kind == "E":
        # Don't look into the object here: that would be noticed as a use of it
        attrs = n.attrs["__same__"]
    elif kind in "EV" and not attrs:
        attrs = None
    if kind == "E" or kind == "V":
        return cg.h(n.type, attrs, *children_to_vnodes(n.ch, comp, slots))
    if "__same__" in attrs:
        # Hand over the given object itself
        attrs = n.attrs["__same__"]
    type = n.type.real()
    if n.slots is None:
        return cg.h(type, attrs)
    return cg.h(
        type,
        attrs,
        {
            name: (lambda props, fn=fn: slot_to_vnodes(fn(props), comp, slots))
            for name, fn in n.slots.items()
        },
    )


def slot_to_vnodes(result, comp, slots):
    if isinstance(result, N):
        result = to_vnode(result, comp, slots)
        return cg.collagraph.create_text_element(result) if isinstance(result, str) else result
    return children_to_vnodes(result, comp, slots)


def children_to_vnodes(children, comp, slots):
    result = []
    for child in children:
        if child.kind == "S":
            if slots is not None:
                content = cg.render_slot(child.type, child.attrs or None, slots)
                present = child.type in slots
            else:
                content = comp.render_slot(child.type, child.attrs or None)
                present = child.type in comp._slots
            if present:
                result.extend(content)
            else:
                result.extend(children_to_vnodes(child.ch, comp, slots))
        else:
            result.append(to_vnode(child, comp, slots))
    return result


class Ctx:
    __slots__ = ("props", "state", "iid", "d", "comp", "inst")

    def __init__(self, props, state, iid, d, comp=None, inst=None):
        self.props = props
        self.state = state
        self.iid = iid
        self.d = d
        self.comp = comp
        self.inst = inst


class Runtime:
    """What the real components of the history that is being executed refer to."""

    current = None


def make_class(defn):
    def __init__(self, props=None, parent=None):
        cg.Component.__init__(self, props, parent)
        rt = Runtime.current
        self.iid = IID(len(rt.comps))
        self.rt = rt
        rt.comps.append(self)
        self.alive = None  # None: not mounted yet
        if self.element is not None:
            rt.fail(f"element of {defn.name} is {self.element} before it is rendered")
        if self.parent is not parent:
            rt.fail(f"parent of {defn.name} is {self.parent} instead of {parent}")
        if defn.init:
            defn.init(self.ctx())

    def ctx(self):
        return Ctx(self.props, self.state, self.iid, self.rt.data, self)

    def render(self):
        self.rt.renders += 1
        return to_vnode(defn.render(self.ctx()), self)

    def log_method(self, *args):
        LOG.append(("m", self.iid, args))

    def log_method2(self, *args):
        LOG.append(("m2", self.iid, args))

    def log_method_args(self, tag, val, *args):
        LOG.append((tag, self.iid, val, args))

    def hook(name):
        def fn(self):
            self.rt.hook(name, self)
            if name in defn.hooks:
                defn.hooks[name](self.ctx())

        return fn

    attrs = {
        "__init__": __init__,
        "ctx": ctx,
        "render": render,
        "log_method": log_method,
        "log_method2": log_method2,
        "log_method_args": log_method_args,
        "mounted": hook("mounted"),
        "updated": hook("updated"),
        "before_unmount": hook("before_unmount"),
        "defn": defn,
    }
    if defn.falsy:
        attrs["__len__"] = lambda self: 0
    return type(defn.name, (cg.Component,), attrs)


def make_function(defn):
    def fn(props, slots=None):
        rt = Runtime.current
        rt.renders += 1
        return to_vnode(
            defn.render(Ctx(props, None, None, rt.data)), None, slots or {}
        )

    fn.__name__ = defn.name
    return fn


# --------------------------------------------------------------- recording renderer
class ProtocolError(Exception):
    pass


class El:
    def __init__(self, type):
        self.type = type
        self.attrs = {}
        self.on = {}
        self.children = []
        self.parent = None
        self.text = None
        self.m = None  # the node of the model that this element represents

    def __repr__(self):
        return self.dump()

    def dump(self, skip=False):
        if self.type == "TEXT_ELEMENT":
            return repr(self.text)
        attrs = "".join(
            f" {k}={v!r}"
            for k, v in sorted(self.attrs.items())
            if v is not None and not (skip and type(v) is IID)
        )
        on = "".join(f" @{k}" for k, v in sorted(self.on.items()) if v)
        ch = "".join(c.dump(skip) for c in self.children)
        return f"<{self.type}{attrs}{on}>{ch}</>"


class FalsyEl(El):
    """Evaluates to False, as widgets and groups that have a length of 0 do"""

    def __bool__(self):
        return False


class EqualEl(El):
    """Equal to all of the other elements, as dictionaries can be"""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


EL_TYPES = {"plain": El, "falsy": FalsyEl, "equal": EqualEl}


def index_is(items, item):
    for i, x in enumerate(items):
        if x is item:
            return i
    return -1


class RecRenderer(cg.renderers.Renderer):
    """Keeps a tree of elements. Any call that is not legal for that tree is noted."""

    def __init__(self, el_type=El):
        self.el_type = el_type
        self.calls = []
        self.errors = []
        self.notify = None

    def _call(self, *args):
        self.calls.append(args)
        if self.notify:
            self.notify(args)

    def error(self, msg):
        self.errors.append(msg)

    def create_element(self, type):
        if not isinstance(type, str) or type in ("template", "slot"):
            self.error(f"create_element({type!r})")
        el = self.el_type(type)
        self._call("create", el)
        return el

    def create_text_element(self):
        el = self.el_type("TEXT_ELEMENT")
        self._call("create", el)
        return el

    def insert(self, el, parent, anchor=None):
        if not isinstance(el, El) or not isinstance(parent, El):
            self.error(f"insert({el!r}, {parent!r}): not an element")
        if el.parent is not None:
            self.error(f"insert({el!r}): is already inserted")
            old = el.parent.children
            del old[index_is(old, el)]
        if anchor is not None:
            idx = index_is(parent.children, anchor)
            if idx < 0:
                self.error(f"insert({el!r}): anchor {anchor!r} not in {parent!r}")
                idx = len(parent.children)
        else:
            idx = len(parent.children)
        parent.children.insert(idx, el)
        el.parent = parent
        self._call("insert", el, parent, anchor)

    def remove(self, el, parent):
        idx = index_is(parent.children, el)
        if idx < 0:
            self.error(f"remove({el!r}): is not a child of {parent!r}")
        else:
            del parent.children[idx]
        el.parent = None
        self._call("remove", el, parent)

    def set_element_text(self, el, value):
        if el.type != "TEXT_ELEMENT":
            self.error(f"set_element_text({el!r}, {value!r})")
        if el.text is not None and el.text == value:
            self.error(f"set_element_text({el!r}, {value!r}): has that text already")
        el.text = value
        self._call("text", el, value)

    def set_attribute(self, el, attr, value):
        if el.type == "TEXT_ELEMENT" or attr.startswith("on_"):
            self.error(f"set_attribute({el!r}, {attr!r})")
        old = el.attrs.get(attr, El)
        if old is value or (
            type(old) is type(value)
            and isinstance(value, (str, int, float, list, dict, tuple))
            # The texts too, because of 1 == True == 1.0 within those
            and old == value
            and repr(old) == repr(value)
        ):
            self.error(f"set_attribute({el!r}, {attr}, {value!r}): has that value")
        el.attrs[attr] = value
        self._call("attr", el, attr, value)

    def remove_attribute(self, el, attr, value):
        if attr not in el.attrs:
            if value is not None:
                self.error(f"remove_attribute({el!r}, {attr!r}): was not set")
        else:
            if not (el.attrs[attr] is value or el.attrs[attr] == value):
                self.error(f"remove_attribute({el!r}, {attr}, {value!r}): other value")
            del el.attrs[attr]
        self._call("rmattr", el, attr, value)

    def add_event_listener(self, el, event_type, value):
        if not callable(value):
            self.error(f"add_event_listener({event_type}, {value!r})")
        handlers = el.on.setdefault(event_type, [])
        if handlers:
            self.error(f"add_event_listener({event_type}): there is one already")
        handlers.append(value)
        self._call("on", el, event_type, value)

    def remove_event_listener(self, el, event_type, value):
        handlers = el.on.get(event_type, [])
        idx = index_is(handlers, value)
        if idx < 0:
            # Bound methods are created for each access, but are equal
            idx = handlers.index(value) if value in handlers else -1
        if idx < 0:
            self.error(f"remove_event_listener({event_type}): is not registered")
        else:
            del handlers[idx]
        self._call("off", el, event_type, value)


# --------------------------------------------------------------------------- model
SERIAL = itertools.count(1)


class Inst:
    """Component instance of the model"""

    def __init__(self, defn, m):
        self.defn = defn
        self.m = m
        self.props = None
        self.slots = {}
        self.state = {}
        self.props_changed = False
        self.real = None  # the instance of the code it corresponds to
        self.iid = IID(next(SERIAL))


class M:
    """Mounted node of the model"""

    __slots__ = (
        "n", "parent", "children", "inst", "el", "kind", "type", "key", "new", "sn",
    )

    def __init__(self, n, parent):
        self.n = n
        self.parent = parent
        self.children = []
        self.inst = None
        self.el = None
        self.kind = n.kind
        self.type = n.type
        self.key = n.key
        self.new = True
        self.sn = next(SERIAL)


def same_type(m, n):
    if m.kind != n.kind:
        return False
    return m.kind == "T" or m.type is n.type or m.type == n.type


class Model:
    def __init__(self, data):
        self.data = data
        self.root = None
        self.created = []  # instances, in order
        self.removed = []  # instances

    def update(self, n):
        """Update to the new description (for the container) from scratch."""
        self.created = []
        self.removed = []
        self.renders = 0
        if self.root is None:
            self.root = M(N("E", "container"), None)
        self.root.new = False
        self.reconcile(self.root, [n])

    def reconcile(self, parent, nodes):
        old = parent.children
        unused = list(old)
        matches = []
        for n in nodes:
            match = None
            key = n.key
            for i, m in enumerate(unused):
                if m.key == key:
                    match = unused.pop(i)
                    break
            matches.append(match)
        children = []
        for n, match in zip(nodes, matches):
            if match is not None and same_type(match, n):
                match.n = n
                match.type = n.type
                match.new = False
                children.append(match)
            else:
                if match is not None:
                    self.discard(match)
                m = M(n, parent)
                if n.kind == "C":
                    m.inst = Inst(n.type, m)
                children.append(m)
        for m in unused:
            self.discard(m)
        parent.children = children
        for m in children:
            self.expand(m)

    def expand(self, m):
        n = m.n
        if n.kind == "T":
            return
        if n.kind in "EV":
            if "__same__" in n.attrs:
                n.attrs = dict(n.attrs["__same__"])
            nodes = n.ch
            if any(c.kind == "S" for c in nodes):
                nodes = self.fill_slots(nodes, self.slots_of(m))
        elif n.kind == "C":
            inst = m.inst
            inst.props = dict(n.attrs.get("__same__", n.attrs))
            if n.key is not None:
                inst.props["key"] = n.key
            inst.slots = n.slots or {}
            ctx = Ctx(inst.props, inst.state, inst.iid, self.data, None, inst)
            if m.new and n.type.init:
                n.type.init(ctx)
            nodes = [n.type.render(ctx)]
        elif n.kind == "F":
            props = dict(n.attrs.get("__same__", n.attrs))
            nodes = [n.type.render(Ctx(props, None, None, self.data))]
        self.reconcile(m, nodes)
        if m.new and m.inst:
            self.created.append(m.inst)

    def slots_of(self, m):
        """Slots of the nearest component"""
        while m is not None:
            if m.kind == "C":
                return m.inst.slots
            if m.kind == "F":
                return m.n.slots or {}
            m = m.parent
        return {}

    def fill_slots(self, nodes, slots):
        result = []
        for n in nodes:
            if n.kind == "S":
                if n.type in slots:
                    content = slots[n.type](n.attrs or None)
                    content = [content] if isinstance(content, N) else list(content)
                else:
                    content = list(n.ch)
                if any(c.kind == "S" for c in content):
                    content = self.fill_slots(content, slots)
                result.extend(content)
            else:
                result.append(n)
        return result

    def discard(self, m):
        if m.inst:
            self.removed.append(m.inst)
        for c in m.children:
            self.discard(c)

    def instances(self):
        stack = [self.root]
        while stack:
            m = stack.pop()
            if m.inst:
                yield m.inst
            stack.extend(m.children)


def dom_children(m):
    """Nearest descendants that are represented by an element"""
    for c in m.children:
        if c.kind in "ET":
            yield c
        else:
            yield from dom_children(c)


def inner_nodes(m):
    """All descendants in document order, up to and including the elements"""
    for c in m.children:
        yield c
        if c.kind not in "ET":
            yield from inner_nodes(c)


def model_attrs(m):
    attrs = m.n.attrs
    if m.n.key is not None:
        attrs = {**attrs, "key": m.n.key}
    # The value None is the same as no value
    return {key: val for key, val in attrs.items() if val is not None}


def dump(m, skip=False):
    if m.kind == "T":
        return repr(m.n.type)
    attrs = "".join(
        f" {k}={v!r}" for k, v in sorted(model_attrs(m).items())
        if not (skip and type(v) is IID)
    )
    on = "".join(f" @{k}" for k in sorted(m.n.on))
    return f"<{m.type}{attrs}{on}>{''.join(dump(c, skip) for c in dom_children(m))}</>"


def signature(m, own_only, hooks=False):
    """What the user sees of the given node: identity, attributes, text and order"""
    result = []

    def visit(m, top):
        if m.kind == "E":
            attrs = model_attrs(m) if own_only else m.n.attrs
            result.append((m.sn, m.key, tuple(sorted(attrs.items(), key=repr))))
            if not own_only:
                result.append(
                    tuple((e, h.how, repr(h.tag), h.val) for e, h in sorted(m.n.on.items()))
                )
        elif m.kind == "T":
            result.append((m.sn, m.n.type))
        elif m.kind == "C":
            if own_only and not top:
                return
            if not own_only:
                result.append((m.sn, tuple(sorted(m.n.attrs.items(), key=repr))))
                result.append(
                    tuple((e, h.how, repr(h.tag), h.val) for e, h in sorted(m.n.on.items()))
                )
        result.append("(")
        for c in m.children:
            visit(c, False)
        result.append(")")

    visit(m, True)
    if own_only:
        result = [r for r in result if r not in ("(", ")")]
    return result


ALL = frozenset(["tree", "identity", "hooks", "handlers", "protocol", "idle", "minimal", "data"])


class Mismatch(Exception):
    pass


class World:
    """Executes the same history in the code and in the model."""

    def __init__(
        self, data, top, *, oracles=ALL, el_type="plain", gc_each=False, shared=None,
        loop_type=cg.EventLoopType.SYNC, make_gui=True,
    ):
        """
        data: initial data (plain)
        top: function(d) -> description to render
        """
        # Data of earlier executions that refers to its own proxies is never released
        proxy_db.db.clear()
        self.oracles = oracles
        self.gc_each = gc_each
        self.trace = [f"initial data: {data!r}"]
        self.raw = copy.deepcopy(data)
        self.data = reactive(self.raw)
        self.mdata = copy.deepcopy(data)
        self.top = top
        self.comps = []
        self.renders = 0
        self.hooks = []
        self.callbacks = 0
        self.model = Model(self.mdata)
        self.renderer = RecRenderer(EL_TYPES[el_type])
        self.container = EL_TYPES[el_type]("container")
        self.container.m = None
        self.callback_at = None
        self.n_render = 0
        self.has_callback = True
        self.props_before = {}
        Runtime.current = self
        LOG.clear()
        self.loop_type = loop_type
        self.steps = 0

    # -- hooks of the real components
    def hook(self, name, comp):
        self.hooks.append((name, comp, self.attached(comp)))

    def attached(self, comp):
        el = comp.element
        while el is not None:
            if el is self.container:
                return True
            el = el.parent
        return False

    def on_callback(self):
        self.callbacks += 1
        self.callback_at = len(self.renderer.calls)

    def new_callback(self):
        """Callback for the next call of render, which might be None. The former one is
        not supposed to be called from now on"""
        self.n_render += 1
        number = self.n_render
        self.has_callback = number % 3 != 2

        def callback():
            if number != self.n_render:
                self.renderer.errors.append("callback of a former call of render")
            self.on_callback()

        return callback if self.has_callback else None

    def real_top(self):
        return to_vnode(self.top(Ctx({}, None, None, self.data)))

    def fail(self, msg):
        e = Violation(
            f"{msg}\n  after: " + "\n         ".join(map(str, self.trace[-12:]))
        )
        e.trace = self.trace
        raise e

    # -- executions
    def mount(self):
        self.gui = cg.Collagraph(
            renderer=self.renderer, event_loop_type=self.loop_type
        )
        self.begin()
        self.gui.render(self.real_top(), self.container, callback=self.new_callback())
        self.finish("mount")

    def begin(self):
        Runtime.current = self
        self.hooks.clear()
        self.renderer.calls.clear()
        self.renderer.errors.clear()
        self.callback_at = None
        self.callbacks = 0

    def step(self, label, op):
        """op(data): one change, is executed for both the reactive and plain data"""
        self.trace.append(label)
        self.begin()
        op(self.data)
        op(self.mdata)
        self.finish(label)

    def step_local(self, label, inst, op):
        """Change of the local state of an instance (of the model)"""
        self.trace.append(label)
        self.begin()
        op(inst.real.state)
        op(inst.state)
        self.finish(label)

    def rerender(self, label="render"):
        """Call render again with a new description"""
        self.trace.append(label)
        self.begin()
        self.gui.render(self.real_top(), self.container, callback=self.new_callback())
        self.finish(label)

    def finish(self, label):
        if self.gc_each:
            gc.collect()
        self.steps += 1
        self.check()

    def pre_model(self):
        """Remember what was visible before the update of the model"""
        model = self.model
        before = {}
        if model.root:
            for inst in model.instances():
                before[inst] = (
                    signature(inst.m, True),
                    signature(inst.m, False),
                    self.props_before.get(inst),
                )
            self.whole = signature(model.root, False)
            self.order = {}
            stack = [model.root]
            while stack:
                m = stack.pop()
                if m.kind == "E":
                    self.order[id(m)] = (m, list(inner_nodes(m)))
                stack.extend(m.children)
        else:
            self.whole = None
            self.order = {}
        return before

    def check(self):
        model = self.model
        first = model.root is None
        before = self.pre_model()
        model.update(self.top(Ctx({}, None, None, self.mdata)))
        oracles = self.oracles
        props_after = {i: copy.deepcopy(i.props) for i in model.instances()}
        try:
            self.compare_tree(model.root, self.container)
        except Mismatch:
            # Another property. Nodes without a known element are ignored
            pass
        if "protocol" in oracles:
            if self.renderer.errors:
                self.fail(f"illegal renderer call: {self.renderer.errors[0]}")
        if "minimal" in oracles:
            self.check_minimal()
        if "hooks" in oracles:
            self.check_hooks(before, first, props_after)
        self.props_before = props_after
        if "handlers" in oracles:
            self.probe(model.root)
        if "data" in oracles and to_raw(self.raw) != self.mdata:
            self.fail(f"data of the user is changed: {self.raw} != {self.mdata}")
        if "idle" in oracles and not first:
            if self.renderer.calls and signature(model.root, False) == self.whole:
                self.fail(f"nothing changed, but: {self.renderer.calls}")
        if "callback" in oracles:
            if (
                self.renderer.calls
                and self.has_callback
                and self.callback_at != len(self.renderer.calls)
            ):
                self.fail("render callback is not called after the last change")

    def compare_tree(self, m, el):
        if m.kind == "E" and m.parent is None:
            m.el = el
            el.m = m
        expected = list(dom_children(m))
        actual = el.children
        if len(expected) != len(actual):
            self.fail_tree(m, el)
        identity = "identity" in self.oracles
        for c, x in zip(expected, actual):
            if c.kind == "T":
                if x.type != "TEXT_ELEMENT" or x.text != c.n.type or x.attrs:
                    self.fail_tree(m, el)
            else:
                if x.type != c.type:
                    self.fail_tree(m, el)
                attrs = model_attrs(c)
                if attrs.keys() != {k for k, v in x.attrs.items() if v is not None}:
                    self.fail_tree(m, el)
                for key, val in attrs.items():
                    if type(val) is IID:
                        self.match_instance(val, x.attrs[key], c)
                    elif not self.same_value(val, x.attrs[key]):
                        self.fail_tree(m, el)
            if identity:
                if c.el is None:
                    if x.m is not None:
                        self.fail(f"element {x} is reused for another node")
                    c.el = x
                    x.m = c
                elif c.el is not x:
                    self.fail(f"element {x} should have been reused, not recreated")
            else:
                c.el = x
            self.compare_tree(c, x)

    @staticmethod
    def same_value(a, b):
        b = to_raw(b)
        return a is b or (a == b and (type(a) is type(b) or isinstance(a, (int, float))))

    def fail_tree(self, m, el):
        if not self.oracles & {"tree", "identity", "hooks"}:
            raise Mismatch()
        self.fail(
            f"expected: {dump(self.model.root)}\n  actual:   {self.container.dump()}"
        )

    def match_instance(self, iid, real_iid, m):
        # Find the instance
        owner = m.parent
        while owner is not None and not (owner.inst and owner.inst.iid == iid):
            owner = owner.parent
        if owner is None:
            # (slot content refers to the instance in which it is defined)
            for inst in self.model.instances():
                if inst.iid == iid:
                    break
            else:
                self.fail("instance is not found")
        else:
            inst = owner.inst
        comp = self.comps[real_iid]
        self.bind(inst, comp)

    def bind(self, inst, comp):
        if inst.real is None:
            if getattr(comp, "model", None) is not None:
                if "identity" in self.oracles or "hooks" in self.oracles:
                    self.fail(
                        f"instance of {inst.defn.name} should be a new one, "
                        "but was reused"
                    )
            inst.real = comp
            comp.model = inst
        elif inst.real is not comp:
            if "identity" in self.oracles or "hooks" in self.oracles:
                self.fail(f"instance of {inst.defn.name} is not preserved")
            inst.real = comp

    def check_minimal(self):
        """Elements that keep their place should not be touched"""
        removed = {id(c[1]) for c in self.renderer.calls if c[0] == "remove"}
        if not removed:
            return
        stack = [self.model.root]
        while stack:
            m = stack.pop()
            stack.extend(m.children)
            if m.kind != "E" or id(m) not in self.order:
                continue
            old_m, old = self.order[id(m)]
            now = list(inner_nodes(m))
            ids = {id(c) for c in now}
            olds = {id(c) for c in old}
            survivors_old = [id(c) for c in old if id(c) in ids]
            survivors_now = [id(c) for c in now if id(c) in olds]
            if survivors_old == survivors_now:
                for c in now:
                    if id(c) in olds and c.el is not None and id(c.el) in removed:
                        self.fail(f"element {c.el} kept its place but was moved")

    def check_hooks(self, before, first, props_after):
        model = self.model
        live = list(model.instances())
        for inst in live:
            if inst.real is None:
                self.fail(
                    f"harness: instance {inst.defn.name} without an element with iid"
                )
        events = {}
        for idx, (name, comp, attached) in enumerate(self.hooks):
            events.setdefault((name, id(comp)), []).append(idx)
            if name != "updated" and not attached:
                if any(dom_children(self.last_m(comp) or M(T(""), None))):
                    self.fail(f"{name} of {comp.defn.name}: element is not in the tree")
        names = ("mounted", "updated", "before_unmount")
        counts = {
            name: {k[1]: len(v) for k, v in events.items() if k[0] == name}
            for name in names
        }
        created = {id(i.real): i for i in model.created}
        removed = {id(i.real): i for i in model.removed}
        for name, expected in (("mounted", created), ("before_unmount", removed)):
            for cid, count in counts[name].items():
                if cid not in expected:
                    self.fail(f"unexpected {name} of {self.name_of(cid)}")
                if count != 1:
                    self.fail(f"{name} of {self.name_of(cid)} is called {count} times")
            for cid in expected:
                if cid not in counts[name]:
                    self.fail(f"{name} of {self.name_of(cid)} is not called")
        # Children before parents
        for inst in live:
            m = inst.m.parent
            while m is not None and m.inst is None:
                m = m.parent
            if m is None:
                continue
            for name in ("mounted", "updated"):
                child = events.get((name, id(inst.real)))
                parent = events.get((name, id(m.inst.real)))
                if child and parent and child[-1] > parent[-1]:
                    self.fail(f"{name} of the parent is called before that of a child")
        # updated
        for inst in live:
            cid = id(inst.real)
            updated = counts["updated"].get(cid, 0)
            if cid in created:
                if updated:
                    self.fail(f"updated is called for new {inst.defn.name}")
                continue
            own, whole, attrs = before[inst]
            # Props can be changed without any effect until the next render
            if attrs != props_after[inst]:
                inst.props_changed = True
            changed = inst.props_changed
            if updated:
                inst.props_changed = False
            if signature(inst.m, True) != own:
                if not updated:
                    self.fail(f"updated of {inst.defn.name} is not called")
            elif (
                updated
                and signature(inst.m, False) == whole
                and not changed
            ):
                self.fail(f"updated of {inst.defn.name} is called without any change")
        for cid in counts["updated"]:
            if cid in removed:
                self.fail("updated is called for a removed component")
        # Elements of the instances
        for inst in live:
            m = next(dom_children(inst.m), None)
            if inst.real.element is not (m and m.el):
                self.fail(
                    f"element of {inst.defn.name} is {inst.real.element} instead of "
                    f"{m and m.el}"
                )

    def last_m(self, comp):
        model = getattr(comp, "model", None)
        return model and model.m

    def name_of(self, cid):
        for comp in self.comps:
            if id(comp) == cid:
                return comp.defn.name
        return "?"

    # -- event handlers
    def probe(self, m):
        for c in m.children:
            if c.kind == "E" and c.el is not None:
                self.probe_element(c)
            elif c.kind == "C" and c.inst.real is not None:
                self.probe_component(c)
            self.probe(c)

    def expected_log(self, m, h, arg):
        comp_inst = self.definer(m)
        if h.how == "meth":
            return [(h.tag, comp_inst, (arg,))]
        if h.how == "methargs":
            return [(h.tag, comp_inst, h.val, (arg,))]
        if h.how == "state":
            return [(h.tag, comp_inst.state[h.val], (arg,))]
        return [(h.tag, h.val, (arg,))]

    def definer(self, m):
        """Instance in which the node is defined (not for content of slots)"""
        m = m.parent
        while m is not None and m.inst is None:
            m = m.parent
        return m and m.inst

    def compare_log(self, m, where, expected):
        actual = list(LOG)
        LOG.clear()
        expected = [
            tuple(x.real.iid if isinstance(x, Inst) else x for x in e) for e in expected
        ]
        if actual != expected:
            self.fail(f"{where}: handlers logged {actual} instead of {expected}")

    def probe_element(self, m):
        arg = self.steps
        el = m.el
        for event in set(el.on) | set(m.n.on):
            h = m.n.on.get(event)
            if h is not None and h.how in ("incr", "call"):
                if len(el.on.get(event, ())) != 1:
                    self.fail(f"{el}: {len(el.on.get(event, ()))} handlers for {event}")
                continue
            LOG.clear()
            for fn in list(el.on.get(event, ())):
                fn(arg)
            expected = [] if h is None else self.expected_log(m, h, arg)
            self.compare_log(m, f"{event} of {el}", expected)

    def probe_component(self, m):
        arg = self.steps
        for event in {"evt", "other"} | set(m.n.on):
            h = m.n.on.get(event)
            if h is not None and h.how in ("incr", "call"):
                continue
            LOG.clear()
            m.inst.real.emit(event, arg)
            expected = [] if h is None else self.expected_log(m, h, arg)
            self.compare_log(m, f"{event} of component {m.type.name}", expected)


# ---------------------------------------------------------------------- enumeration
def de_bruijn(n, k):
    """Cyclic sequence over range(n) in which each word of length k occurs once."""
    if k == 1:
        return list(range(n))
    a = [0] * (n * k + 1)
    seq = []

    def db(t, p):
        # iterative version, to avoid the recursion limit
        stack = [(t, p, None)]
        while stack:
            t, p, j = stack.pop()
            if t > k:
                if k % p == 0:
                    seq.extend(a[1 : p + 1])
                continue
            if j is None:
                a[t] = a[t - p]
                stack.append((t, p, a[t - p] + 1))
                stack.append((t + 1, p, None))
            elif j < n:
                a[t] = j
                stack.append((t, p, j + 1))
                stack.append((t + 1, t, None))

    db(1, 1)
    return seq


def windows(n, k, chunk):
    """Splits the de Bruijn sequence in overlapping histories of `chunk` steps, such
    that together they contain all words of length k over range(n)."""
    seq = de_bruijn(n, k)
    seq = seq + seq[: k - 1]
    result = []
    for i in range(0, len(seq) - (k - 1), chunk):
        result.append(seq[i : i + chunk + k - 1])
    return result
