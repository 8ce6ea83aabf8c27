"""PySide: attributes that change or are removed give the same as a new rendering"""
import gc
import itertools

import collagraph as cg
from PySide6 import QtCore, QtGui
from PySide6 import QtWidgets as W

from mc.engine import Result, Violation, watchdog
from mc.ui import de_bruijn

ID = "C20"
LEVEL = "model_checking"
# The renderer keeps default values for the types of elements
ISOLATE = True
RULE = """For 27 types of elements of Qt all sequences (of a bounded length) of values for
each two (thorough: three) attributes are rendered, in which attributes are also added and
removed and the element is also removed and created. A property is also named in different ways. After each step all Qt properties of
the element (and what is shown by its parent) are compared with those of a new rendering
of the same state; those of a new rendering also have the given values. Each one is started in four situations: as first element of its type,
after a user has changed all properties of another element, mounted in disabled parents and
next to an element that has all the attributes."""

Qt = QtCore.Qt
Policy = W.QSizePolicy.Policy
ALIGN = [Qt.AlignRight | Qt.AlignTop, Qt.AlignHCenter | Qt.AlignBottom]


def h(type, *args, **attrs):
    return cg.h(type, attrs, *args)


def inside(type, *before, **attrs):
    return lambda kids: h(type, *before, *kids, **attrs)


def group(kids):
    return h("widget", h("groupbox", *kids, title="group"))


COMMON = {
    "enabled": [False, True],
    "tool_tip": ["tip", ""],
    "style_sheet": ["color: red", "color: blue"],
    "visible": [False, True],
    "minimum-width": [7, 0, 400],
    "window_title": ["one", "", "two"],
    "object_name": ["name", "other"],
    "font": [QtGui.QFont("Courier", 20), QtGui.QFont("Helvetica", 10)],
    "focus_policy": [Qt.StrongFocus, Qt.NoFocus],
    "custom": [1, "", ["text"], 0],
    "maximum_size": [QtCore.QSize(100, 200), QtCore.QSize(3, 4)],
    "layout_direction": [Qt.RightToLeft, Qt.LeftToRight],
}


def some(*names, **attrs):
    return {**{n: COMMON[n] for n in names}, **attrs}


TEXT = ["text", "other", ""]
FLAG = [True, False]



def box(direction, spacing, margins):
    return {
        "type": "box", "direction": direction, "spacing": spacing,
        "contents_margins": margins,
    }


def grid(horizontal, vertical, stretch):
    return {
        "type": "grid", "horizontal_spacing": horizontal, "vertical_spacing": vertical,
        "column_stretch": stretch, "row_stretch": stretch[::-1],
    }


def form(horizontal, vertical, wrap):
    return {
        "type": "form", "horizontal_spacing": horizontal, "vertical_spacing": vertical,
        "row_wrap_policy": [W.QFormLayout.DontWrapRows, W.QFormLayout.WrapAllRows][wrap],
    }


# name: (container, type, children, attributes)
ELEMENTS = {
    "common": (group, "widget", (), COMMON),
    # One property, of which the name is written in different ways
    "names": (group, "widget", (), {
        "window_title": ["one", "two"], "window-title": ["one", "three"],
        "minimum-width": [7, 9], "minimum_width": [7, 8],
    }),
    "label": (
        group, "label", (),
        some(
            "visible", text=TEXT, indent=[5, 0], word_wrap=FLAG, alignment=ALIGN,
            margin=[3, 0], open_external_links=FLAG, scaled_contents=FLAG,
        ),
    ),
    "button": (
        group, "button", (),
        some(
            "enabled", text=TEXT, flat=FLAG, checkable=FLAG, auto_default=FLAG,
            auto_repeat=FLAG, auto_repeat_delay=[10, 0],
        ),
    ),
    "QPushButton": (group, "QPushButton", (), some("enabled", "visible", text=TEXT)),
    "checkbox": (
        group, "checkbox", (), some("visible", text=TEXT, tristate=FLAG, checked=FLAG),
    ),
    "radiobutton": (
        group, "radiobutton", (), some("tool_tip", text=TEXT, icon_size=[QtCore.QSize(3, 3), QtCore.QSize(4, 4)]),
    ),
    "lineedit": (
        group, "lineedit", (),
        some(
            "enabled", text=TEXT, placeholder_text=TEXT, read_only=FLAG, max_length=[20, 30],
            frame=FLAG, clear_button_enabled=FLAG,
            echo_mode=[W.QLineEdit.Password, W.QLineEdit.NoEcho],
        ),
    ),
    "textedit": (
        group, "textedit", (),
        some(
            "visible", plain_text=TEXT, read_only=FLAG, placeholder_text=TEXT,
            tab_changes_focus=FLAG, accept_rich_text=FLAG,
        ),
    ),
    "spinbox": (
        group, "spinbox", (),
        some(
            "enabled", value=[5, 0, 9], prefix=TEXT, suffix=TEXT, single_step=[2, 3],
            wrapping=FLAG, read_only=FLAG,
        ),
    ),
    "slider": (
        group, "slider", (),
        some(
            "enabled", value=[5, 0], single_step=[2, 3], orientation=[Qt.Horizontal, Qt.Vertical],
            tick_interval=[1, 0], **{"inverted-appearance": FLAG}, tracking=FLAG,
        ),
    ),
    "QProgressBar": (
        group, "QProgressBar", (),
        some("visible", text_visible=FLAG, inverted_appearance=FLAG, format=TEXT),
    ),
    "progressbar": (group, "progressbar", (), some("enabled", text_visible=FLAG)),
    "combobox": (
        group, "combobox", (),
        some(
            "enabled", items=[["a", "b"], [""], ["c", "", "a"], []], editable=FLAG,
            max_visible_items=[3, 0], frame=FLAG,
        ),
    ),
    "groupbox": (
        group, "groupbox", ("label",),
        some("visible", title=TEXT, checkable=FLAG, flat=FLAG, alignment=ALIGN),
    ),
    "action": (
        inside("menu"), "action", (),
        some(
            "enabled", "visible", "tool_tip", text=TEXT, checkable=FLAG, status_tip=TEXT,
            shortcut=[QtGui.QKeySequence("Ctrl+A"), QtGui.QKeySequence("Ctrl+B")],
            separator=FLAG, icon_text=TEXT,
        ),
    ),
    "menu": (
        inside("menubar"), "menu", ("action",),
        some(
            "enabled", "tool_tip", title=TEXT, tool_tips_visible=FLAG, tear_off_enabled=FLAG,
            separators_collapsible=FLAG,
        ),
    ),
    "toolbar": (
        inside("window"), "toolbar", ("action",),
        some("visible", "tool_tip", movable=FLAG, floatable=FLAG, window_title=TEXT),
    ),
    "statusbar": (
        inside("window"), "statusbar", (), some("visible", text=["one", "two", ""], size_grip_enabled=FLAG),
    ),
    "dock": (
        lambda kids: h("window", *kids), "dock", ("label",),
        some("visible", "window_title", area=[Qt.RightDockWidgetArea, Qt.TopDockWidgetArea, Qt.LeftDockWidgetArea]),
    ),
    "toolbar area": (
        inside("window"), "toolbar", ("action",),
        some("window_title", area=[Qt.RightToolBarArea, Qt.TopToolBarArea, Qt.LeftToolBarArea]),
    ),
    "window": (
        group, "window", ("label",),
        some("enabled", document_mode=FLAG, dock_nesting_enabled=FLAG, animated=FLAG),
    ),
    "splitter": (
        group, "QSplitter", ("label", "label"),
        some(
            "visible", orientation=[Qt.Horizontal, Qt.Vertical], opaque_resize=FLAG,
            children_collapsible=FLAG, handle_width=[3, 0],
        ),
    ),
    "tabs": (
        group, "QTabWidget", ("label", "label"),
        some(
            "visible", document_mode=FLAG, movable=FLAG, tabs_closable=FLAG,
            tab_position=[W.QTabWidget.South, W.QTabWidget.West],
        ),
    ),
    "tab": (
        inside("QTabWidget", h("label", tab_label="first")), "label", (),
        some("tool_tip", tab_label=TEXT, text=TEXT),
    ),
    "buttonbox": (
        group, "dialogbuttonbox", (),
        some(
            "visible", buttons=[["Ok"], ["Ok", "Cancel"], ["Cancel", "Ok"], ["Reset"], []],
            center_buttons=FLAG, orientation=[Qt.Vertical, Qt.Horizontal],
        ),
    ),
    "role": (
        inside("dialogbuttonbox"), "button", (),
        some(text=TEXT, role=["AcceptRole", "RejectRole", W.QDialogButtonBox.ResetRole]),
    ),
    "permanent": (
        inside("statusbar", h("label", object_name="other", permanent=True)), "label", (),
        some(text=TEXT, permanent=FLAG),
    ),
    "tree": (
        group, "treewidget", ("treewidgetitem",),
        some(
            "visible", column_count=[2, 3], header_hidden=FLAG, root_is_decorated=FLAG,
            header_labels=[["a", "b"], ["", "d"]], alternating_row_colors=FLAG, sorting_enabled=FLAG,
        ),
    ),
    "treeitem": (
        inside("treewidget", column_count=3, selection_mode=W.QAbstractItemView.MultiSelection),
        "treewidgetitem", ("treewidgetitem",),
        dict(
            content=[{0: "a", 1: "b"}, {1: "c"}, {0: "", 2: "e"}, {0: "d", 1: ""}], expanded=FLAG,
            selected=FLAG, disabled=FLAG, hidden=FLAG,
        ),
    ),
    "standarditem": (
        lambda kids: h("treeview", h("itemmodel", *kids)), "standarditem", (),
        dict(text=TEXT, enabled=FLAG, checkable=FLAG, editable=FLAG, tool_tip=TEXT, selectable=FLAG),
    ),
    "treeview": (
        group, "treeview", (),
        some("visible", header_hidden=FLAG, root_is_decorated=FLAG, uniform_row_heights=FLAG),
    ),
    "itemmodel": (
        lambda kids: h("treeview", *kids), "itemmodel", ("standarditem",),
        dict(
            horizontal_header_labels=[["a"], [""]], sort_role=[Qt.UserRole, Qt.DisplayRole],
            object_name=["one", "two"],
        ),
    ),
    "scrollarea": (
        group, "scrollarea", ("label",),
        some(
            "visible", widget_resizable=FLAG, alignment=ALIGN,
            horizontal_scroll_bar_policy=[Qt.ScrollBarAlwaysOn, Qt.ScrollBarAlwaysOff],
        ),
    ),
    "dialog": (
        group, "QDialog", ("label",),
        some("enabled", "window_title", "tool_tip", modal=FLAG, size_grip_enabled=FLAG),
    ),
    "layout": (
        group, "widget", ("label", "label"),
        some(
            "visible",
            layout=[
                box("LeftToRight", 3, (1, 2, 3, 4)),
                {**box("BottomToTop", 7, (0, 0, 0, 0)), "type": "Box"},
                box("RightToLeft", 0, (1, 2, 3, 4)),
                box("TopToBottom", 3, (0, 0, 0, 0)),
            ],
            tool_tip=TEXT,
        ),
    ),
    "layout grid": (
        group, "widget", (),
        some(
            "tool_tip",
            layout=[grid(5, 4, [(0, 2), (1, 3)]), grid(0, 4, [(0, 0), (1, 3)]), grid(5, 0, [(0, 2), (1, 0)]),
                    grid(5, 4, [(0, 9), (0, 2), (1, 3), (1, 9), (1, 7)])],
        ),
    ),
    "layout form": (
        group, "widget", (),
        some("tool_tip", layout=[form(5, 4, 1), form(0, 4, 1), form(5, 0, 1), form(5, 4, 0)]),
    ),
}
# Attributes that the renderer can't remove: it raises a NotImplementedError
NOT_REMOVABLE = {
    "treeitem": {"content", "expanded", "selected", "disabled", "hidden"},
    "standarditem": {"text", "enabled", "checkable", "editable", "tool_tip", "selectable"},
    "combobox": {"items"}, "buttonbox": {"buttons"}, "tree": {"header_labels", "column_count"},
    "itemmodel": {"horizontal_header_labels"}, "statusbar": {"text"}, "layout": {"layout"}, "layout grid": {"layout"}, "layout form": {"layout"},
    "toolbar": set(), "dock": {"area"}, "role": {"role"},
    "action": {"separator"}, "permanent": {"permanent"}, "tab": {"tab_label"},
    "treeview": {"header_hidden"}, "toolbar area": {"area"},
}
SITUATIONS = ["first", "user", "disabled", "next"]
# Properties that depend on the place of the element or on what the user does
IGNORED = {
    "geometry", "pos", "x", "y", "width", "height", "size", "frameGeometry", "frameSize",
    "rect", "childrenRect", "normalGeometry", "underMouse", "isActiveWindow", "focus",
    "cursorPosition", "icon", "windowIcon", "cursor", "palette", "sizeHint",
    "minimumSizeHint", "styleSheetHash", "maximized", "inputMask", "html", "markdown",
    "sliderPosition", "document", "iconSize", "sizes", "cleanText", "frameRect", "default",
}
IGNORED_FOR = {
    "radiobutton": {"focusPolicy"},
    "dock": {
        "minimumSize", "minimumWidth", "minimumHeight", "maximumSize", "maximumWidth",
        "maximumHeight",
    },
    "statusbar": {"minimumSize", "minimumWidth", "minimumHeight"},
    "toolbar": {"minimumSize", "minimumWidth", "minimumHeight"},
    "buttonbox": {"minimumSize", "minimumWidth", "minimumHeight"},
    "toolbar area": {"minimumSize", "minimumWidth", "minimumHeight"},
}


def properties(name, el):
    """All properties of Qt, and other things that are set with attributes"""
    result = {}
    ignored = IGNORED | IGNORED_FOR.get(name, set())
    if isinstance(el, QtCore.QObject):
        meta = el.metaObject()
        for i in range(meta.propertyCount()):
            prop = meta.property(i)
            if prop.name() not in ignored:
                result[prop.name()] = plain(prop.read(el))
    if isinstance(el, W.QTreeWidgetItem):
        result["texts"] = [el.text(i) for i in range(4)]
        for name in ("isExpanded", "isSelected", "isDisabled", "isHidden"):
            result[name] = getattr(el, name)()
    if isinstance(el, QtGui.QStandardItem):
        for name in ("text", "isEnabled", "isCheckable", "isEditable", "toolTip", "isSelectable"):
            result[name] = getattr(el, name)()
    if isinstance(el, W.QTreeWidget):
        result["labels"] = [el.headerItem().text(i) for i in range(el.columnCount())]
    if isinstance(el, QtGui.QStandardItemModel):
        result["labels"] = [
            el.headerData(i, Qt.Horizontal) for i in range(el.columnCount())
        ]
    if isinstance(el, W.QWidget) and el.layout():
        layout = el.layout()
        result["spacing"] = layout.spacing()
        result["direction"] = getattr(layout, "direction", lambda: None)()
        margins = layout.contentsMargins()
        result["margins"] = [
            margins.left(), margins.top(), margins.right(), margins.bottom()
        ]
        for name in ("horizontalSpacing", "verticalSpacing", "rowWrapPolicy"):
            result[name] = getattr(layout, name, lambda: None)()
        if isinstance(layout, W.QGridLayout):
            result["stretch"] = [
                (layout.columnStretch(i), layout.rowStretch(i)) for i in (0, 1)
            ]
    if isinstance(el, W.QWidget):
        result["explicit"] = el.isHidden()
    return result


def plain(value):
    if isinstance(value, QtGui.QFont):
        return value.toString()
    if isinstance(value, QtGui.QKeySequence):
        return value.toString()
    text = repr(value)
    return type(value).__name__ if " at 0x" in text else value


def areas(root):
    result = []
    if isinstance(root, W.QMainWindow):
        for el in root.children():
            if isinstance(el, W.QDockWidget):
                result.append(root.dockWidgetArea(el))
            elif isinstance(el, W.QToolBar):
                result.append((root.toolBarArea(el), el.parent() is root))
    return result


def bar_order(root):
    """Which widgets are shown on the right side of a status bar"""
    if not isinstance(root, W.QStatusBar):
        return None
    labels = [x for x in root.children() if isinstance(x, W.QLabel) and x.isVisible()]
    return [x.objectName() for x in sorted(labels, key=lambda x: x.x())]


def tasks(tier):
    result = []
    for name, (_, _, _, attrs) in ELEMENTS.items():
        for situation in SITUATIONS:
            for size in (2, 3):
                if size > len(attrs) or (tier == "quick" and size == 3 and len(attrs) > 3):
                    continue
                result.append([name, situation, size])
    return result


class Marking(cg.PySideRenderer):
    """Remembers the element that has the attribute 'mark'"""

    marked = None

    def set_attribute(self, el, attr, value):
        if attr != "mark":
            super().set_attribute(el, attr, value)
        elif value == "el":
            self.marked = el


def build(name, situation):
    container, type, kids, _ = ELEMENTS[name]

    def element(key, attrs):
        # Equal values don't have to be the same objects
        attrs = {k: v.copy() if isinstance(v, (list, dict)) else v for k, v in attrs.items()}
        return cg.h(type, {"mark": key, **attrs, "key": key}, *(h(k) for k in kids))

    def render(state):
        attrs, extra = state
        nodes = []
        if extra is not None and name != "statusbar":
            nodes.append(element("extra", extra))
        if attrs is not None:
            nodes.append(element("el", attrs))
        node = container(nodes)
        if situation == "disabled":
            return h("widget", node, enabled=False)
        return node

    return render


def run_task(task):
    from mc import qt

    name, situation, size = task
    gc.disable()
    res = Result()
    attrs = ELEMENTS[name][3]
    keep = NOT_REMOVABLE.get(name, set())
    if situation == "user":
        change_all(name)
    for names in itertools.combinations(attrs, size):
        options = [
            ([] if n in keep else [None]) + list(range(len(attrs[n]))) for n in names
        ]
        if name == "dock" and "area" not in names:
            # Required attribute
            continue
        states = [None]
        for combi in itertools.product(*options):
            state = {n: attrs[n][i] for n, i in zip(names, combi) if i is not None}
            # Which one is meant when there are more names for one property is undefined
            if len({n.replace("-", "_") for n in state}) == len(state):
                states.append(state)
        extra = None
        if situation == "next" and name != "itemmodel":
            extra = {n: v[0] for n, v in attrs.items()}
            extra.pop("object_name", None)
        explore(res, f"{name} {names} ({situation})", name, states, extra, situation)
    return res


def change_all(name):
    """Creates an element of which the user changes all properties, before any attribute
    is set (for the first time)"""
    renderer = cg.PySideRenderer(autoshow=False)
    el = renderer.create_element(ELEMENTS[name][1])
    for attr, values in ELEMENTS[name][3].items():
        method = getattr(el, "set" + "".join(p.capitalize() for p in attr.replace("-", "_").split("_")), None)
        if method is not None and attr not in ("layout",):
            method(values[-1] if values[-1] not in ("", None) else values[0])
    for attr, values in ELEMENTS[name][3].items():
        renderer.set_attribute(el, attr, values[0])
    global USER
    USER = el


# Names of the getters, where these are no properties
GETTERS = {
    "expanded": "isExpanded", "selected": "isSelected", "disabled": "isDisabled",
    "hidden": "isHidden",
}


def facts(name, el, attrs, situation):
    """Yields what differs from the values of the attributes, according to Qt"""
    for attr, value in attrs.items():
        actual = expected = None
        words = attr.replace("-", "_").split("_")
        camel = words[0] + "".join(w[0].upper() + w[1:] for w in words[1:])
        if attr == "visible":
            actual, expected = (el.isHidden() if isinstance(el, W.QWidget) else not el.isVisible()), not value
        elif attr == "enabled" and isinstance(el, W.QWidget):
            # Within elements that are (not) disabled
            actual = not el.testAttribute(Qt.WA_ForceDisabled)
            expected = value
        elif attr == "enabled" and isinstance(el, QtGui.QAction):
            # Actions that are not visible are disabled
            actual, expected = el.isEnabled(), value and attrs.get("visible", True)
        elif not value and attr in ("tool_tip", "icon_text", "text") and isinstance(
            el, QtGui.QAction
        ):
            # Actions use another text instead
            continue
        elif attr == "font":
            actual = (el.font().family(), el.font().pointSize())
            expected = (value.family(), value.pointSize())
        elif attr == "content":
            actual = [el.text(i) for i in range(3)]
            expected = [value.get(i, "") for i in range(3)]
        elif attr == "header_labels":
            actual = [el.headerItem().text(i) for i in range(len(value))]
            expected = value
        elif attr == "horizontal_header_labels":
            actual = [el.headerData(i, Qt.Horizontal) for i in range(el.columnCount())]
            expected = value
        elif attr == "items":
            actual = [el.itemText(i) for i in range(el.count())]
            expected = value
        elif attr == "buttons":
            flag = W.QDialogButtonBox.StandardButton
            actual = el.standardButtons()
            expected = flag.NoButton
            for button in value:
                expected |= flag[button]
        elif attr == "layout":
            yield from layout_facts(el.layout(), value)
        elif attr == "area":
            window = el.parent()
            get = window.dockWidgetArea if isinstance(el, W.QDockWidget) else window.toolBarArea
            actual, expected = get(el), value
        elif attr == "tab_label":
            tabs = el.parent().parent()
            actual, expected = tabs.tabText(tabs.indexOf(el)), value
        elif attr == "role":
            actual = el.parent().buttonRole(el)
            expected = getattr(W.QDialogButtonBox, value) if isinstance(value, str) else value
        elif attr == "permanent":
            # Permanent widgets are on the right side
            other = next(
                x for x in el.parent().findChildren(W.QLabel) if x.objectName() == "other"
            )
            if value is False:
                actual, expected = el.x() < other.x(), True
        elif attr == "text" and name == "statusbar":
            actual, expected = el.currentMessage(), value
        elif hasattr(el, "metaObject") and el.metaObject().indexOfProperty(camel) >= 0:
            actual, expected = el.property(camel), value
        else:
            for getter in (GETTERS.get(attr), camel, "is" + camel[0].upper() + camel[1:]):
                if getter and hasattr(el, getter):
                    actual = getattr(el, getter)
                    actual, expected = (actual() if callable(actual) else actual), value
                    break
            else:
                yield f"{attr} can't be obtained"
        if plain(actual) != plain(expected):
            yield f"{attr} is {actual!r} instead of {expected!r}"


def layout_facts(layout, value):
    names = {"box": W.QBoxLayout, "grid": W.QGridLayout, "form": W.QFormLayout}
    if not isinstance(layout, names[value["type"].lower()]):
        yield f"layout is {layout}"
    for attr, expected in value.items():
        words = attr.split("_")
        getter = words[0] + "".join(w.capitalize() for w in words[1:])
        if attr == "type":
            continue
        if attr == "contents_margins":
            m = layout.contentsMargins()
            actual = (m.left(), m.top(), m.right(), m.bottom())
        elif attr.endswith("_stretch"):
            # The last one prevails for each row and column
            expected = list(dict(expected).items())
            actual = [(i, getattr(layout, getter)(i)) for i, _ in expected]
        else:
            actual = getattr(layout, getter)()
            if attr == "direction":
                actual = actual.name
        if actual != expected:
            yield f"{attr} of the layout is {actual} instead of {expected}"


def explore(res, label, name, states, extra, situation):
    from mc import qt

    render = build(name, situation)
    fresh = {}

    def describe(gui):
        root = gui.root
        if situation == "disabled":
            root = root.layout().itemAt(0).widget()
        description, objects = qt.dump(root, selection=True)
        el = gui.renderer.marked if gui.data["s"][0] is not None else None
        return [
            description, areas(root), bar_order(root),
            el is not None and properties(name, el),
        ]

    for i, state in enumerate(states):
        gui = qt.Gui(render, (state, extra), show=True, renderer=Marking(autoshow=False))
        qt.process_events()
        fresh[i] = describe(gui)
        if state is not None:
            for msg in facts(name, gui.renderer.marked, state, situation):
                e = Violation(f"{label}: {state}: {msg}")
                e.signature = f"{label}: {msg}"
                raise e
        gui.container.hide()
    trace = []

    def fail(msg):
        e = Violation(f"{label}: {msg}\n  " + "\n  ".join(map(str, trace[-3:])))
        e.signature = f"{label}: {msg.splitlines()[0]}"
        e.trace = list(map(str, trace))
        raise e

    history = list(de_bruijn(len(states), 2))
    if situation == "first" and len(states) < 30:
        # Also with each of the states as the one that the element is created with
        numbers = range(1, len(states))
        for pair in itertools.permutations(numbers, 2):
            history += [0, *pair]
    gui = None
    for step, i in enumerate(history):
        if step % 100 == 0:
            watchdog()
            trace[:] = []
            if gui:
                gui.container.hide()
            gui = None
            gc.collect()
            start = states[history[step - 1]] if step else None
            gui = qt.Gui(render, (start, extra), show=True, renderer=Marking(autoshow=False))
            trace.append(start)
        trace.append(states[i])
        try:
            gui.set((states[i], extra))
        except Exception as e:
            fail(f"{type(e).__name__}: {e}")
        qt.process_events()
        actual = describe(gui)
        if actual != fresh[i]:
            fail(f"differs from a new rendering: {difference(actual, fresh[i])}")
        if states[i] is not None:
            for msg in facts(name, gui.renderer.marked, states[i], situation):
                fail(msg)
        res.transitions += 1
        res.validated += 1
    gui.container.hide()
    res.states += len(states)
    res.sample(f"{label}: {states[-1]}")


def difference(actual, expected):
    if isinstance(actual, dict) and isinstance(expected, dict):
        keys = [k for k in {**actual, **expected} if actual.get(k) != expected.get(k)]
        return {k: difference(actual.get(k), expected.get(k)) for k in keys}
    if isinstance(actual, list) and isinstance(expected, list) and len(actual) == len(expected):
        return [difference(a, b) for a, b in zip(actual, expected) if a != b]
    return f"{actual!r} instead of {expected!r}"
