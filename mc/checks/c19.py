"""Containers of PySide show their children as rendered"""
import gc
import itertools

import collagraph as cg
from PySide6 import QtCore
from PySide6 import QtWidgets as W

from mc.engine import Result, Violation, watchdog
from mc.ui import de_bruijn

ID = "C19"
LEVEL = "model_checking"
# Remains of the widgets of one task should not affect the other tasks
ISOLATE = True
RULE = """For each kind of container of Qt (layouts, splitter, tabs, menus, tool bars,
trees, models, windows...) all sequences (of a bounded length) of ordered selections of
children are rendered by the PySideRenderer. After each step everything the API of Qt tells
about the widgets is compared with that of a new rendering of the same state, the order
with that of the description (as are the types, windows, labels, positions, roles, areas and
the state of items), and elements that remain should be the same objects."""


def h(type, *args, **attrs):
    return cg.h(type, attrs, *args)


def el(type, key, *args, **attrs):
    return cg.h(type, {"key": key, "object_name": key, **attrs}, *args)


def tree(key, *args, **attrs):
    return cg.h("treewidgetitem", {"key": key, "content": {0: key}, **attrs}, *args)


def item(key, *args, **attrs):
    return cg.h("standarditem", {"key": key, "text": key, **attrs}, *args)


def action(key):
    return el("action", key)


def label(key, **attrs):
    return el("label", key, **attrs)


def nested(key, **attrs):
    return el("widget", key, el("label", key + "1"), el("button", key + "2"), **attrs)


def submenu(key, depth=1):
    kids = [action(f"{key}1"), action(f"{key}2")]
    if depth:
        kids.insert(1, submenu(f"{key}3", depth - 1))
    return el("menu", key, *kids)


def dialog(key):
    return el("QDialog", key, el("label", key + "1"))


def either(one, two, keys="ac"):
    return lambda key: (one if key in keys else two)(key)


def tree_group(key):
    kids = [tree(f"{key}1"), tree(f"{key}2", tree(f"{key}3"), expanded=True)]
    return tree(key, *kids, expanded=True)


def item_group(key):
    return item(key, item(f"{key}1"), item(f"{key}2", item(f"{key}3")))


def box(**layout):
    return lambda kids: h("groupbox", *kids, layout=layout)


def inside(type, **attrs):
    return lambda kids: h(type, *kids, **attrs)


def wrap(outer, inner, **attrs):
    return lambda kids: h(outer, h(inner, *kids, **attrs))


def between(type, child):
    """The children are between children that are always there"""
    return lambda kids: h(type, child("first"), *kids, child("last"))


def twice(type, child):
    """Two lists: before and after a child that is always there"""

    def build(kids):
        other = [child(k.key.upper()) for k in kids[::-1]]
        return h(type, *kids, child("middle"), *other)

    return build


ROWS = {"a": 0, "b": 1, "c": 2, "d": 3}

# name: (container, child)
ORDERED = {
    "widget": (inside("widget"), label),
    "widget nested": (inside("widget"), nested),
    "groupbox": (box(type="box", direction="LeftToRight"), either(label, nested)),
    "box in layout": (wrap("widget", "groupbox"), label),
    "stacked": (box(type="stacked"), either(label, nested)),
    "form": (box(type="form"), lambda k: el("lineedit", k, form_label=f"[{k}]")),
    "splitter": (inside("QSplitter"), either(label, nested)),
    "tabs": (inside("QTabWidget"), lambda k: nested(k, tab_label=f"[{k}]")),
    "menu actions": (inside("menu"), action),
    "menu menus": (inside("menu"), submenu),
    "menu mixed": (inside("menu"), either(action, submenu)),
    "menubar": (inside("menubar"), submenu),
    "menubar in window": (wrap("window", "menubar", object_name="bar"), submenu),
    "toolbar actions": (inside("toolbar"), action),
    "toolbar widgets": (inside("toolbar"), label),
    "toolbar mixed": (inside("toolbar"), either(action, nested)),
    "toolbar mixed 2": (inside("toolbar"), either(nested, action)),
    "toolbar in window": (
        wrap("window", "toolbar", object_name="bar"), either(action, label),
    ),
    "tree": (inside("treewidget"), tree),
    "tree nested": (inside("treewidget"), tree_group),
    "tree deeper": (wrap("treewidget", "treewidgetitem", expanded=True), tree_group),
    "model": (wrap("treeview", "itemmodel"), item),
    "model nested": (wrap("treeview", "itemmodel"), item_group),
    "model deeper": (
        lambda kids: h("treeview", h("itemmodel", item("r", *kids))), item_group,
    ),
    "list": (wrap("QListView", "itemmodel"), item),
    "table": (wrap("QTableView", "itemmodel"), item),
}
LONGER = {
    "widget between": (between("widget", label), either(label, nested)),
    "splitter between": (between("QSplitter", label), label),
    "menu between": (between("menu", action), submenu),
    "menubar between": (between("menubar", submenu), submenu),
    "toolbar between": (between("toolbar", action), label),
    "toolbar around": (between("toolbar", label), action),
    "tabs between": (between("QTabWidget", label), label),
    "tree between": (between("treewidget", tree), tree_group),
    "model between": (
        lambda kids: h("treeview", h("itemmodel", item("first"), *kids, item("last"))),
        item,
    ),
    "widget twice": (twice("widget", label), label),
    "menu twice": (twice("menu", submenu), action),
    "toolbar twice": (twice("toolbar", label), label),
    "tree twice": (twice("treewidget", tree), tree_group),
}
DOCK = {
    "a": QtCore.Qt.LeftDockWidgetArea, "b": QtCore.Qt.TopDockWidgetArea,
    "c": QtCore.Qt.LeftDockWidgetArea, "d": QtCore.Qt.BottomDockWidgetArea,
}
UNORDERED = {
    "grid": (
        box(type="grid"), lambda k: label(k, grid_index=(ROWS[k] % 2, ROWS[k] // 2)),
    ),
    "buttons": (
        inside("dialogbuttonbox"),
        lambda k: el("button", k, role="AcceptRole" if k in "ab" else "HelpRole"),
    ),
    "statusbar": (inside("statusbar"), lambda k: label(k, permanent=k in "ac")),
    "docks": (
        inside("window"),
        lambda k: el("dock", k, label(k + "1"), label(k + "2", title=True), area=DOCK[k]),
    ),
    "toolbars": (inside("window"), lambda k: el("toolbar", k, action(k + "1"))),
    "window": (
        inside("window"),
        lambda k: {
            "a": lambda: el("menubar", "a", submenu("a1")),
            "b": lambda: el("statusbar", "b", label("b1")),
            "c": lambda: nested("c"),
            "d": lambda: el("toolbar", "d", action("d1")),
        }[k](),
    ),
    "dialogs": (inside("widget"), dialog),
    "window dialogs": (
        inside("window"), lambda k: label("a") if k == "a" else dialog(k),
    ),
}
# At most one child
SINGLE = {
    "scrollarea": (inside("scrollarea"), either(label, nested)),
    "dock": (inside("dock"), either(label, nested)),
    "central": (inside("window"), either(label, nested)),
    "view": (inside("treeview"), lambda k: el("itemmodel", k, item(k + "1"))),
}


# Children that are no part of the layout
def dialog_mix(state):
    return h("widget", *map(either(label, dialog), state))


def selection(state):
    model, select, kind = state
    kids = []
    if model:
        kids.append(el("itemmodel", model, item(model + "1"), item(model + "2")))
    if select and model:
        kids.append(el("itemselectionmodel", select))
    return h(kind, *kids)


def spot(state):
    """Widgets at explicit positions of a grid"""
    kids = [label(k, grid_index=p) for k, p in zip("abc", state) if p]
    return h("widget", *kids, layout={"type": "grid"})


LAYOUTS = [
    {"type": "box", "direction": "LeftToRight"}, {"type": "box"}, {"type": "Stacked"},
    {"type": "grid"}, {"type": "form"},
]


def tab_spots(state):
    """The order is given by indices as well"""
    kids = [label(k, tab_label=f"[{k}]", tab_index=i) for i, k in enumerate(state)]
    return h("QTabWidget", *kids)


def form_spots(state):
    kids = [label(k, form_label=f"[{k}]", form_index=i) for i, k in enumerate(state)]
    return h("widget", *kids, layout={"type": "form"})


CORNERS = [("o", (0, 0)), ("z", (2, 1))]
CELLS = [(0, 1), (1, 0), (1, 1), (2, 0)]
CELL_STATES = [
    (p, x) for p in itertools.permutations(CELLS, 2) for x in (None, "x", "b")
]


def cells(state):
    """Items at explicit positions of a table"""
    places, note = state
    return h("QTableView", h("itemmodel", *cell_items(places, note)))


def inner_cells(state):
    places, note = state
    return h("treeview", h("itemmodel", item("r", *cell_items(places, note))))


def cell_items(places, note):
    items = [*CORNERS[:1], *zip("ab", places), *CORNERS[1:]]
    return [item(k, model_index=p, tool_tip=note or k) for k, p in items]


def free_cells(before, after):
    """Items only move to cells that are not in use"""
    return all(
        cell == before[0][i] or cell not in before[0] for i, cell in enumerate(after[0])
    )


def table(kind):
    """Complete rows of items at explicit positions, with or without keys"""

    def build(state):
        rows, columns = state
        items = []
        for r, row in enumerate(rows):
            for c in range(columns):
                attrs = {"text": f"{row}{c}", "model_index": (r, c)}
                if kind.endswith("keys"):
                    attrs["key"] = attrs["text"]
                items.append(cg.h("standarditem", attrs))
        if kind.startswith("inner"):
            return h("treeview", h("itemmodel", item("r", *items)))
        return h("QTableView", h("itemmodel", *items))

    return build


TABLE_STATES = [
    (rows, columns)
    for rows in ("a", "b", "ab", "ba", "cb", "abc", "bcd", "acd", "abcd")
    for columns in (1, 2, 3)
]


def table_grows(before, after):
    """Rows are added or removed at the end; or columns are added"""
    if after[1] == before[1]:
        return True
    return after[1] > before[1] and len(after[0]) >= len(before[0])


def rows_follow(before, after):
    """Rows with keys can be removed and are added at the end"""
    kept = [k for k in before[0] if k in after[0]]
    return after[1] == before[1] and list(after[0][: len(kept)]) == kept


def change_layout(state):
    layout, keys = state
    kids = [label(k, grid_index=(ROWS[k], 1), form_label=f"[{k}]") for k in keys]
    return h("widget", *kids, layout=LAYOUTS[layout])


def change_layout_attrs(state):
    """The children have the attributes for the present layout only"""
    layout, keys = state
    attrs = {"grid": lambda k: {"grid_index": (ROWS[k], 1)}, "form": lambda k: {"form_label": f"[{k}]"}}
    attrs = attrs.get(LAYOUTS[layout]["type"], lambda k: {})
    return h("widget", *(label(k, **attrs(k)) for k in keys), layout=LAYOUTS[layout])


def keep(state):
    """Only a part of the children is ordered"""
    return [k for k in state if k in "ac"]


def chosen(state):
    """Items of a tree that are expanded and selected"""
    keys, flags = state
    kids = []
    for k in keys:
        selected = flags == k
        kids.append(
            tree(
                k, tree(k + "1", selected=not selected), expanded=selected,
                selected=selected,
            )
        )
    return h("treewidget", *kids, selection_mode=MULTI)


MULTI = W.QAbstractItemView.MultiSelection
SPOTS = [None, (0, 0), (0, 1), (1, 0, 1, 2)]
# Changes of the state that are possible
POSSIBLE = {
    "cells": free_cells, "inner cells": free_cells,
    "table": table_grows, "inner table": table_grows,
    "table keys": rows_follow, "inner table keys": rows_follow,
}
# Names are no keys
UNKEYED = {"table", "inner table"}
OTHER = {
    "dialog mix": (dialog_mix, None, keep),
    "selection": (
        selection,
        [(m, s, "treeview") for m in (None, "m", "n") for s in (None, "s", "t")],
        lambda s: [x for x in s[:2] if x and s[0]],
    ),
    "selection list": (
        selection,
        [(m, s, "QListView") for m in (None, "m", "n") for s in (None, "s", "t")],
        lambda s: [x for x in s[:2] if x and s[0]],
    ),
    "chosen": (
        chosen,
        [(p, f) for p in ("", "a", "ab", "ba", "abc", "cab", "cb") for f in "abc"],
        None,
    ),
    "tab spots": (tab_spots, None, list),
    "form spots": (form_spots, None, list),
    "table": (table(""), TABLE_STATES, None),
    "table keys": (table("keys"), TABLE_STATES, None),
    "inner table": (table("inner"), TABLE_STATES, None),
    "inner table keys": (table("inner keys"), TABLE_STATES, None),
    "cells": (cells, CELL_STATES, None),
    "inner cells": (inner_cells, CELL_STATES, None),
    "spots": (
        spot,
        [s for s in itertools.product(SPOTS, repeat=3) if len({x for x in s if x}) == len([x for x in s if x])],
        None,
    ),
    "layout attrs": (
        change_layout_attrs,
        [(i, k) for i in range(len(LAYOUTS)) for k in ((), ("a",), ("a", "b"), ("b", "a"))],
        lambda s: list(s[1]) if s[0] in (0, 1, 2, 4) else None,
    ),
    "layouts": (
        change_layout,
        [(i, k) for i in range(len(LAYOUTS)) for k in ((), ("a",), ("a", "b"), ("b", "a"))],
        lambda s: list(s[1]) if s[0] in (0, 1, 2, 4) else None,
    ),
}


def selections(keys, most=None):
    most = len(keys) if most is None else most
    return [p for r in range(most + 1) for p in itertools.permutations(keys, r)]


def scenario(name, keys):
    """Returns function to build the vnodes, the states and the expected order"""
    if name in OTHER:
        build, states, order = OTHER[name]
        return build, states or selections(keys), order
    if name in SINGLE:
        container, child = SINGLE[name]
        states = selections(keys, 1)
        order = list
    else:
        container, child = {**ORDERED, **LONGER, **UNORDERED}[name]
        states = selections(keys)
        order = list if name not in UNORDERED else None
    return (lambda s: container([child(k) for k in s])), states, order


def tasks(tier):
    result = []
    for name in [*ORDERED, *LONGER, *UNORDERED, *SINGLE, *OTHER]:
        result.append([name, "abc", 2])
        if name in ORDERED or tier != "quick":
            result.append([name, "abcd", 2])
        if tier != "quick":
            result.append([name, "abc", 3])
    result.sort(key=lambda x: -len(x[1]) - x[2])
    return result


def facts(node, found, parent=None, path="root"):
    """Yields what is wrong with the widgets for a description"""
    attrs = node.props or {}
    name = attrs.get("object_name") or attrs.get("text") or attrs.get("content", {}).get(0)
    obj = parent
    if name:
        obj = found.get(name)
        if obj is None:
            yield f"{name} is missing"
            return
        if type(obj).__name__ != node.type:
            yield f"{name} is a {type(obj).__name__} instead of {node.type}"
        yield from facts_of(node, attrs, obj, name, parent)
    for child in node.children:
        yield from facts(child, found, obj if path != "root" or name else parent, name)


def facts_of(node, attrs, obj, name, parent):
    if isinstance(obj, W.QDialog):
        if not obj.isWindow() or not obj.isVisible():
            yield f"dialog {name}: {obj.isWindow()=}, {obj.isVisible()=}"
        if obj.parent() is not parent:
            yield f"dialog {name} has another parent: {obj.parent()}"
    elif isinstance(obj, W.QWidget) and not isinstance(obj, W.QMenu) and obj.isWindow():
        yield f"{name} is a window"
    layout = parent.layout() if isinstance(parent, W.QWidget) else None
    if "grid_index" in attrs and isinstance(layout, W.QGridLayout):
        actual = layout.getItemPosition(layout.indexOf(obj))
        expected = (*attrs["grid_index"], 1, 1)[:4]
        if actual != expected:
            yield f"{name} is at {actual} instead of {expected}"
    if "form_label" in attrs and isinstance(layout, W.QFormLayout):
        if layout.labelForField(obj).text() != attrs["form_label"]:
            yield f"{name} has another label: {layout.labelForField(obj).text()}"
    if "tab_label" in attrs and parent.tabText(parent.indexOf(obj)) != attrs["tab_label"]:
        yield f"{name} has another label: {parent.tabText(parent.indexOf(obj))}"
    if "model_index" in attrs and (obj.row(), obj.column()) != attrs["model_index"]:
        yield f"{name} is in another cell: {(obj.row(), obj.column())}"
    if "role" in attrs and parent.buttonRole(obj).name != attrs["role"]:
        yield f"{name} has another role: {parent.buttonRole(obj)}"
    if isinstance(obj, W.QDockWidget) and "area" in attrs:
        if parent.dockWidgetArea(obj) != attrs["area"]:
            yield f"{name} is in another area: {parent.dockWidgetArea(obj)}"
    if "expanded" in attrs and obj.childCount() and obj.isExpanded() != attrs["expanded"]:
        yield f"{name}: {obj.isExpanded()=}"
    if "selected" in attrs and obj.isSelected() != attrs["selected"]:
        yield f"{name}: {obj.isSelected()=}"


def run_task(task):
    from mc import qt

    name, keys, k = task
    build, states, order = scenario(name, keys)
    res = Result()
    fresh = {}
    # Collect at fixed points, to make each run the same
    gc.disable()
    for state in states:
        gui = qt.Gui(build, state, show=True)
        qt.process_events()
        fresh[state], found = qt.dump(gui.root, name == "chosen")
        for msg in facts(build(state), found, gui.root):
            e = Violation(f"{name}: {state}: {msg}")
            e.signature = f"{name}: {msg}"
            raise e
        gui.container.hide()
    res.states = len(states)
    res.sample(f"{name}: {states[-1]}: {fresh[states[-1]]}")
    if len(states) ** k > 20000:
        k = 2
    possible = POSSIBLE.get(name, lambda before, after: True)
    history = [states[i] for i in de_bruijn(len(states), k)]
    trace = []

    def fail(msg):
        e = Violation(f"{name}: {msg}\n  " + "\n  ".join(map(str, trace[-4:])))
        e.signature = f"{name}: {msg.splitlines()[0]}"
        e.trace = list(map(str, trace))
        raise e

    gui = None
    before = {}
    for step, state in enumerate(history):
        restart = step and not possible(history[step - 1], state)
        if step % 200 == 0 or restart:
            watchdog()
            # Start all over, to keep the history of a violation short
            if gui:
                gui.container.hide()
                gui = before = found = None
                gc.collect()
            trace[:] = []
            start = history[step - 1] if step else ()
            if start not in fresh or restart:
                start = state
            gui = qt.Gui(build, start, show=True)
            qt.process_events()
            before = qt.dump(gui.root)[1]
            trace.append(start)
        trace.append(state)
        try:
            gui.set(state)
            qt.process_events()
            actual, found = qt.dump(gui.root, name == "chosen")
        except Exception as e:
            fail(f"{type(e).__name__}: {e}")
        if actual != fresh[state]:
            fail(f"differs from a new rendering:\n    {actual}\n    {fresh[state]}")
        if order:
            expected = order(state)
            if expected is not None:
                names = [n for n in found if n in expected]
                if names != expected:
                    fail(f"order is {names} instead of {expected}: {actual}")
        for key, obj in found.items():
            if key in before and before[key] is not obj and name not in UNKEYED:
                fail(f"{key} is another object")
        before = found
        gc.collect(1)
        res.transitions += 1
        res.validated += 1
    return res
