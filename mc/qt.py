"""User interfaces that are rendered by the PySideRenderer, and descriptions of widgets
that are obtained through the API of Qt."""
import collagraph as cg
from observ import reactive
from PySide6 import QtCore, QtGui
from PySide6 import QtWidgets as W


APP = []


def app():
    if not APP:
        APP.append(QtCore.QCoreApplication.instance() or W.QApplication([]))
    return APP[0]


def process_events():
    a = app()
    a.processEvents()
    a.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)


def h(type, *args, **attrs):
    return cg.h(type, attrs, *args)


class Gui:
    """Renders the description of build(state) into a widget"""

    def __init__(self, build, state, show=False, renderer=None):
        app()
        self.renderer = renderer or cg.PySideRenderer(autoshow=False)
        self.data = reactive({"s": state})
        self.gui = cg.Collagraph(
            renderer=self.renderer, event_loop_type=cg.EventLoopType.SYNC
        )
        self.container = self.renderer.create_element("widget")
        if show:
            self.container.show()

        def root(props):
            return build(self.data["s"])

        self.gui.render(cg.h(root), self.container)

    def set(self, state):
        self.data["s"] = state

    @property
    def root(self):
        return self.container.layout().itemAt(0).widget()


DIRECT = QtCore.Qt.FindDirectChildrenOnly


class Dump:
    """Describes widgets; keeps which named objects were found, in order"""

    def __init__(self, selection=False):
        self.found = {}
        self.selection = selection

    def name(self, el):
        if el is None:
            return None
        if isinstance(el, W.QTreeWidgetItem):
            result = el.text(0)
        elif isinstance(el, QtGui.QStandardItem):
            result = el.text()
        else:
            result = el.objectName()
        if result:
            self.found.setdefault(result, el)
        return result

    def action(self, action):
        if isinstance(action, W.QWidgetAction):
            w = action.defaultWidget()
            return self.widget(w)
        if action.menu():
            return [self.name(action.menu()), *map(self.action, action.menu().actions())]
        return self.name(action)

    def tree_item(self, item):
        texts = [self.name(item)] + [item.text(i) for i in range(1, item.columnCount())]
        while texts and not texts[-1]:
            texts.pop()
        if item.isExpanded():
            texts.append("expanded")
        if self.selection and item.isSelected():
            texts.append("selected")
        return [texts, *(self.tree_item(item.child(i)) for i in range(item.childCount()))]

    def rows(self, parent):
        model = isinstance(parent, QtGui.QStandardItemModel)
        get = parent.item if model else parent.child
        result = []
        for r in range(parent.rowCount()):
            row = []
            for c in range(parent.columnCount()):
                item = get(r, c)
                row.append(item and [self.name(item), *self.rows(item)])
            result.append(row)
        return result

    def layout(self, el):
        """Widgets in the layout"""
        if isinstance(el, W.QGridLayout):
            result = []
            for i in range(el.count()):
                result.append(
                    (el.getItemPosition(i), self.widget(el.itemAt(i).widget()))
                )
            return sorted(result, key=lambda x: x[0])
        if isinstance(el, W.QFormLayout):
            result = []
            for i in range(el.rowCount()):
                label = el.itemAt(i, W.QFormLayout.LabelRole)
                field = el.itemAt(i, W.QFormLayout.FieldRole)
                result.append(
                    (
                        label and label.widget().text(),
                        field and self.widget(field.widget()),
                    )
                )
            return result
        return [self.widget(el.itemAt(i).widget()) for i in range(el.count())]

    def children(self, el, type=W.QWidget):
        return [
            c
            for c in el.findChildren(type, options=DIRECT)
            if c.objectName() and not c.objectName().startswith("qt_")
        ]

    def widget(self, el):
        """Complete description of a widget"""
        if el is None:
            return None
        result = {
            "type": type(el).__name__,
            "name": self.name(el),
            "shown": not el.isHidden(),
        }
        if isinstance(el, W.QMainWindow):
            result["central"] = self.widget(el.centralWidget())
            result["menu"] = self.widget(el.menuWidget())
            bars = self.children(el, W.QStatusBar)
            result["status"] = [self.widget(b) for b in bars]
            result["toolbars"] = sorted(
                ((el.toolBarArea(t).name, self.widget(t)) for t in self.children(el, W.QToolBar)),
                key=str,
            )
            result["docks"] = sorted(
                (
                    (el.dockWidgetArea(d).name, self.widget(d))
                    for d in self.children(el, W.QDockWidget)
                ),
                key=str,
            )
        elif isinstance(el, W.QDockWidget):
            result["widget"] = self.widget(el.widget())
            result["title"] = self.widget(el.titleBarWidget())
        elif isinstance(el, (W.QMenu, W.QMenuBar, W.QToolBar)):
            result["actions"] = [self.action(a) for a in el.actions()]
        elif isinstance(el, W.QTabWidget):
            result["tabs"] = [
                (el.tabText(i), self.widget(el.widget(i))["name"]) for i in range(el.count())
            ]
        elif isinstance(el, W.QSplitter):
            result["widgets"] = [self.widget(el.widget(i)) for i in range(el.count())]
        elif isinstance(el, W.QScrollArea):
            result["widget"] = self.widget(el.widget())
        elif isinstance(el, W.QTreeWidget):
            root = el.invisibleRootItem()
            result["items"] = [
                self.tree_item(root.child(i)) for i in range(root.childCount())
            ]
        elif isinstance(el, (W.QListView, W.QTableView, W.QTreeView)):
            model = el.model()
            result["model"] = model and [self.name(model), self.rows(model)]
            selection = el.selectionModel()
            result["selection"] = selection and self.name(selection) or None
        elif isinstance(el, W.QDialogButtonBox):
            result["buttons"] = sorted(
                (
                    (el.buttonRole(b).name, el.standardButton(b).name, self.name(b))
                    for b in el.buttons()
                ),
                key=str,
            )
        elif isinstance(el, W.QStatusBar):
            result["message"] = el.currentMessage()
        elif isinstance(el, W.QComboBox):
            result["items"] = [el.itemText(i) for i in range(el.count())]
            result["current"] = el.currentText()
        elif el.layout() is not None and el.layout().count():
            result["layout"] = [type(el.layout()).__name__, self.layout(el.layout())]
        result["children"] = sorted(
            (c.objectName(), not c.isHidden()) for c in self.children(el)
        )
        dialogs = self.children(el, W.QDialog)
        if dialogs:
            dialogs.sort(key=lambda x: x.objectName())
            result["dialogs"] = [(x.isWindow(), self.widget(x)) for x in dialogs]
        if isinstance(el.layout(), W.QStackedLayout):
            # Which one is shown depends on what the user did
            result["children"] = [name for name, _ in result["children"]]
            for item in result.get("layout", ((), ()))[1]:
                del item["shown"]
        for child in self.children(el):
            self.found.setdefault(child.objectName(), child)
        return result


def dump(el, selection=False):
    d = Dump(selection)
    return d.widget(el), d.found
