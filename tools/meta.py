"""Writes properties.jsonl and MANIFEST.json from the definitions in this file."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
CORE = "collagraph/collagraph.py"
COMP = "collagraph/component.py"
CGX = "collagraph/cgx/cgx.py"
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         level="model_checking"):
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(text.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            },
            "_technique": technique,
            "_note": " ".join(note.split()),
            "_level": level,
        }
    )


EXH = "explicit-state exploration of the real code, compared with a reference model"
ASSUME = """Trusted: the reference model and the recording renderer (mc/ui.py), observ and
CPython. """

prop(
    "C01", "The UI converges to a fresh rendering of the current data",
    """After any history of changes of reactive data, local state or rendered
    descriptions, once the work is done, the tree of UI elements (types, order, attributes
    and text) equals the tree that a rendering from scratch of the current data gives.""",
    ["histories", "inputs"],
    """All sequences of states (of a bounded length) of lists with and without keys of
    elements, components, function components, virtual nodes and slots, nested up to four
    levels; all kinds of in-place changes of nested data, also of data that is used at one
    place only (of fifteen kinds); props and local state.""",
    """The tests execute a few dozen histories of one or two changes; the result of an
    update depends on the whole former tree, on the order of the nodes and on what is
    watched, so the combinations are out of reach of examples.""",
    [CORE, COMP],
    [("reconcile_children", CORE), ("commit_root", CORE), ("create_ops", CORE),
     ("update_props", CORE), ("state_updated", CORE)],
    EXH,
    ASSUME + """All histories within the bounds are executed by the code in synchronous
    mode and compared after each step. Attribute value None counts as absent; sibling keys
    are unique.""",
)
prop(
    "C02", "Keyed and unkeyed items keep their elements and local state",
    """When the children of a node are updated, a child with the same key and the same
    type as before keeps its UI element and its component instance (with all of its local
    state), wherever it is moved to; children without key are paired in order. An element
    or instance is never given to a child with another key or of another type.""",
    ["histories", "inputs"],
    """All sequences of states of lists with (un)keyed items of all types, nested virtual
    nodes and components with local state that is changed in between; keys of various types
    (numbers, texts, tuples, ...) of which the texts are equal.""",
    """Tests check identity for a handful of reorderings of host elements only; mistakes
    show up for specific permutations, with type changes or virtual nodes.""",
    [CORE],
    [("compare", CORE), ("reconcile_children", CORE)],
    EXH,
    ASSUME + """A one-to-one relation of nodes/instances of the model with those of the
    code is kept for the whole history.""",
)
prop(
    "C03", "Lifecycle hooks are called exactly once, in order and when due",
    """For each component instance mounted is called exactly once, after it is inserted
    and after its children are mounted, and before_unmount exactly once, before it is
    removed. Updated is called (after that of its children) when the elements of the
    component have changed, and is not called when nothing of it has changed. The element
    of a component is always the first of its current root elements.""",
    ["histories"],
    """All sequences of states of trees with components within the bounds: added, moved,
    removed, replaced by another type, changed by props, local state, slots, text.""",
    """Tests cover a single mount, update and unmount; hooks depend on the combination of
    moves, removals and replacements in the whole tree.""",
    [CORE, COMP],
    [("commit_root", CORE), ("commit_deletion", CORE), ("mark_updated", CORE)],
    EXH,
    ASSUME + """How often updated is called for one change is not restricted; whether it
    is called when only descendants changed is left open.""",
)
prop(
    "C04", "Exactly the current event handlers are run for an event",
    """When an event occurs for an element or is emitted by a component, exactly the
    handler of the latest rendering is run, once, with the arguments of the event and with
    the behaviour (captured values, bound object) of the latest rendering.""",
    ["histories", "inputs"],
    """All sequences of handlers of all kinds (lambdas with captured values or defaults,
    bound methods, partials, callable objects, nested functions) for elements and
    components (also without any element), that come, go, change and move.""",
    """The tests replace a handler once or twice; which handler stays registered depends
    on the history and on the equivalence of the functions.""",
    [CORE, "collagraph/compare.py", COMP],
    [("update_dom_or_component", CORE), ("equivalent_functions", "collagraph/compare.py"),
     ("emit", COMP)],
    EXH,
    ASSUME + "After each step all handlers are called, and what they log is compared.",
)
prop(
    "C05", "All schedules of asynchronous updates converge and lose nothing",
    """In asynchronous mode, whatever the time slices are and whenever data or local state
    changes or render is called again (also while an update is being prepared), the
    scheduled work ends, and then the UI, the handlers and the mounted components are
    those of the latest data. A change that is made while no work is pending is shown all
    at once: the UI is never partially updated.""",
    ["schedules", "histories"],
    """All schedules of up to three operations relative to all callbacks of the event
    loop, including those of the initial rendering, for slices of one unit of work, two
    units, and one slice for everything.""",
    """Tests use one schedule: change, sleep, check. No test changes data while an update
    is being prepared.""",
    [CORE],
    [("work_loop", CORE), ("request_idle_work", CORE), ("state_updated", CORE),
     ("prepare_next_iteration_of_work", CORE), ("render", CORE)],
    "exhaustive schedule exploration with a controlled event loop and clock",
    ASSUME + """The event loop is replaced by one that executes callbacks one by one and
    the clock by a virtual one. Every schedule within the bounds is executed by the code.""",
)
prop(
    "C06", "Changes made by constructors, hooks and event handlers are never lost",
    """When a constructor, a lifecycle hook (mounted, updated, before_unmount) or an event
    handler changes reactive data or local state, of any component that is alive, or emits
    events (for which each handler is called once), then once the work is done the UI shows
    that change as well, each component is
    mounted and unmounted exactly once, and the components that are alive are exactly those
    of the current data.""",
    ["histories", "schedules"],
    """All assignments of up to two kinds of changes to the constructors and hooks of a
    tree of four components, followed by all sequences of operations up to a length of
    three, in synchronous and in asynchronous mode.""",
    """Changes that are made while the tree is being committed lead to nested updates; the
    tests have one or two of those cases.""",
    [CORE, COMP],
    [("commit_root", CORE), ("state_updated", CORE), ("work_loop", CORE)],
    EXH,
    ASSUME + """Each assigned change is made at most twice (otherwise there is no end to
    the updates). Constructors do not change data that their parent renders.""",
)
prop(
    "C07", "Renderers only get legal calls, for any kind of element object",
    """Each call of the renderer is legal for the state that the former calls led to: only
    detached elements are inserted, before an actual child of the parent, only actual
    children, attributes and listeners are removed, and values are only set when new. This
    also holds for element objects that are falsy or equal to each other, and after each
    batch of calls the callback that is passed to the last call of render is called.""",
    ["histories", "configurations"],
    """All sequences of states within the bounds, for element objects that are plain,
    falsy, or all equal to each other.""",
    """Tests use forgiving renderers that ignore illegal calls, and compare the result of
    a few updates only.""",
    [CORE],
    [("commit_work", CORE), ("set_anchors", CORE), ("update_dom_or_component", CORE)],
    EXH,
    ASSUME + "Each call is checked against the tree of elements at that point.",
)
prop(
    "C08", "Nothing is done for the renderer when nothing changed",
    """When a change does not affect what is rendered (unused data, equal values, new but
    equivalent handlers), no call of the renderer is made at all, and attributes, texts and
    listeners that stay the same are not set again. When items are added or removed, the
    elements of the remaining items, that keep their order, are not removed or inserted
    again.""",
    ["histories", "inputs"],
    """All sequences of states within the bounds of lists, attributes, texts, handlers,
    nested data and local state, including repeated states and changes of unused data.""",
    """Tests only look at the outcome, so superfluous updates are not noticed, which reset
    e.g. focus, selection and scroll positions in actual UI toolkits.""",
    [CORE, "collagraph/compare.py"],
    [("update_dom_or_component", CORE), ("create_ops", CORE), ("is_new", CORE),
     ("equivalent_functions", "collagraph/compare.py")],
    EXH,
    ASSUME + """Only claims for handlers that are (closures with) equal immutable values,
    and for items that keep their relative order.""",
)
prop(
    "C09", "Inject finds the value of the nearest component that provides it",
    """The parent of a component is the nearest enclosing component of the actual tree, also
    through elements, virtual nodes, function components and slots. Inject gives the latest
    value (also None or 0) that the nearest ancestor provides for the key, or else the
    default, from the constructor on and after any change of the tree.""",
    ["inputs", "histories"],
    """All trees of up to four components, all ways to contain components, all subsets that
    provide in constructor or mounted, falsy component instances, and all sequences of
    operations (provide, add, remove, move) of a bounded length.""",
    """The tests use one chain of three components and one value; where a parent is found
    depends on what is between the components.""",
    [COMP, CORE],
    [("inject", COMP), ("provide", COMP), ("parent", COMP),
     ("update_class_component", CORE)],
    EXH,
    """Trusted: the model (the nearest provider in the tree of names), observ, CPython.""",
)
prop(
    "C10", "Slots show the content of the definer, or else the fallback content",
    """For each slot of a (class or function) component the content that is given by its
    user (a template or Python code) is shown at the place of the slot, in order, whether
    that is nothing, one or more nodes or other components with slots, and the fallback
    content is shown when nothing is given. The content follows the data of both the definer
    and the component.""",
    ["histories", "inputs"],
    """All sequences of states of components with one or two slots, with all kinds of
    content, absent or given, nested and forwarded; changes of data that is used by the
    content, the fallback content or the component only.""",
    """Tests render slots once, and none of them updates, removes or nests them.""",
    [CORE, COMP],
    [("render_slot", CORE), ("update_class_component", CORE)],
    EXH,
    ASSUME + "All histories within the bounds are executed and compared after each step.",
)
prop(
    "C11", "Handlers that behave differently are never taken for each other",
    """When the handler for an event is replaced by one that looks the same (the same code
    or an equal object) but that behaves differently because of what it captures, defaults
    to, is bound to, refers to or contains (also when that is changed in place later on),
    then the new behaviour takes effect, for elements and for components.""",
    ["inputs", "histories"],
    """All ordered pairs (in the thorough check triples) of handlers of a family: 50 kinds
    of values (equal across types, mutable, callable...) times 26 ways to carry a value,
    and 60 pairs of pieces of code that differ in a constant, default or name.""",
    """The tests compare about ten pairs of lambdas. The defects are in particular
    combinations of a kind of value and the way it is captured.""",
    ["collagraph/compare.py", CORE],
    [("equivalent_functions", "collagraph/compare.py"),
     ("equivalent_code", "collagraph/compare.py"),
     ("equivalent_closure_values", "collagraph/compare.py"),
     ("update_dom_or_component", CORE)],
    EXH,
    """Trusted: direct calls of the handlers as oracle. Not covered: variables that are
    assigned to (nonlocal) after the handler has been rendered.""",
)
prop(
    "C12", "Data of users and props of components are isolated from each other",
    """Rendering never modifies data of the user. A class component can't write its own props,
    at any level of nesting, at any moment of its life, however they were handed over: it
    raises an exception, and data and other components are not affected. Props, state,
    element and parent of a component can't be replaced (RuntimeError).""",
    ["inputs", "histories"],
    """All combinations of ways to hand over props, moments in the life of a component and
    kinds of writes at all levels of nested containers; and all histories of a selection of
    the structures of C01 for the data of the user.""",
    """Tests assign the four attributes once, and never attempt to write nested props.""",
    [COMP, CORE],
    [("Component.props", COMP), ("update_props", CORE), ("shallow_raw", CORE)],
    EXH,
    """Trusted: deep copies of the data as oracle. Containers in tuples and custom objects
    are out of reach of observ and not covered.""",
)

prop(
    "C13", "Control flow and loops of templates select the right nodes in order",
    """For all data, a template with v-if, v-else-if, v-else and v-for shows, at the place
    where they are written and in order, exactly the branches whose condition is the first
    that is true and the items of the iterables, with the loop variables of that item for
    attributes, text, event handlers, nested loops and slot content.""",
    ["inputs", "histories"],
    """All templates that are a sequence (of a bounded length) of kinds of nodes with
    directives in several containers; for each all pairs of successive states.""",
    """The tests have about fifteen templates; mistakes depend on which nodes are next to
    each other, on nesting, and on the former state.""",
    [CGX, CORE],
    [("convert_node_to_args", CGX), ("create_control_flow_ast", CGX),
     ("call_render_slot", CGX)],
    EXH,
    """Trusted: the interpreter of templates in mc/cgxlib.py, observ, CPython. v-if on
    slot templates and on nodes with v-for are not covered.""",
)
prop(
    "C14", "Names in templates are resolved by Python scope, then the component",
    """A name in a template is resolved like Python does within the expression (lambda
    arguments, comprehension variables), then loop variables, imports, then props, state,
    attributes of the instance and globals, for each instance and each evaluation anew, also
    for falsy values. A name that can't be found is an error. There is a warning for each of
    the places (props, state, attributes) where a name is hidden by an import, except in
    frozen applications.""",
    ["inputs", "histories"],
    """All positions and kinds of expressions in which a name can be used, times all subsets
    of places that define the name, times all sequences (of a bounded length) of places
    that start or stop defining it, for one and for two instances; other spellings of names
    (one letter, underscores, digits, no ascii).""",
    """Tests resolve five names at fixed places, and never change what is defined later.""",
    [CGX, COMP],
    [("RewriteName", CGX), ("_lookup", COMP), ("ImportsCollector", CGX)],
    EXH,
    """Trusted: Python's own eval of the expression. Names of builtins can't be overridden;
    walrus expressions are not covered.""",
)

prop(
    "C15", "Attributes, bindings and events of a template: the last one prevails",
    """The attributes and event handlers of an element or component in a template are those
    of its static attributes, flags (True), bound attributes (: or v-bind:), dictionaries
    (v-bind) and event directives (@ or v-on:), where the last one prevails for each name,
    for any data and after any change, also of the dictionary in place. Directives
    themselves are never passed on.""",
    ["inputs", "histories"],
    """All ordered selections of up to three (thorough: four) of thirteen kinds of
    attributes, on sixteen kinds of targets, with ten ways to bind a dictionary; for each
    all pairs of successive states, changed in place and by replacing.""",
    """The tests have three templates with v-bind of a dictionary, each of which is changed
    once. What prevails depends on order, and stale values on the kind of change.""",
    [CGX, CORE],
    [("convert_node_to_args", CGX), ("update_props", CORE),
     ("update_dom_or_component", CORE)],
    EXH,
    """Trusted: merge() in mc/checks/c15.py, observ, CPython. Duplicate attributes and keys
    that are added with the value None (not noticed by observ) are not covered.""",
)

prop(
    "C16", "Text of templates is shown as written, with the values of moustaches",
    """Text in a template is shown exactly as written (character references decoded), with
    the str() of each {{ expression }}, also for several ones, across lines and for any
    value, and follows the data. Only text that consists of white space is left out. Text is
    never interpreted again, and comments are no part of it.""",
    ["inputs", "histories"],
    """All sequences of up to two (thorough: three) tokens out of 45 and up to three
    (thorough: five) out of 15 that may follow each other, in eleven kinds of containers,
    each updated for a sequence of eight values.""",
    """The tests have eight texts; text is split up by the parser in ways that depend on
    the characters that are next to each other.""",
    [CGX, CORE],
    [("handle_data", CGX), ("args_for_text_element", CGX), ("MOUSTACHES", CGX)],
    EXH,
    """Trusted: the scanner in mc/checks/c16.py, html.unescape and Python's eval. Texts in
    which braces directly follow each other are ambiguous and left out.""",
)

prop(
    "C17", "A cgx source is loaded as it is written, however it is laid out",
    """For any layout of a cgx source (order of sections, white space, comments, self-closing
    tags, quotes, case of tags and attributes) the rendered tree is that of the template,
    tags with a capital or a dot are the classes or functions that Python finds for them,
    and the component is the last class of the script. Line numbers of the script (in code,
    tracebacks and syntax errors) are those of the file. Templates without exactly one root
    element, and last classes that are not components, raise a ValueError.""",
    ["inputs"],
    """All trees of up to three (thorough: four) nodes for up to fourteen kinds of tags (some
    of which only differ in case), in 60 formats; 32 kinds of attributes; thirteen layouts of sections times eleven scripts, in
    which each line in turn is marked, raises or is invalid; all sequences of up to three
    root elements or top level definitions.""",
    """The tests load about thirty templates with the same layout. They never look at line
    numbers.""",
    [CGX],
    [("CGXParser", CGX), ("construct_ast", CGX), ("get_script_ast", CGX),
     ("load_from_string", CGX)],
    "exhaustive enumeration of sources within bounds, loaded and rendered by the real code",
    """Trusted: the writer of sources in mc/checks/c17.py and Python's own parser. Unclosed
    tags are not covered; line numbers of template expressions are not claimed.""",
)
prop(
    "C18", "cgx files are imported like ordinary Python modules",
    """Any way of importing a cgx file (from sys.path or a package, also relative, circular
    and by cgx files) gives one and the same module, with the right name, file, package and
    spec, whose functions, component and template see the attributes of that module. Python
    modules go first, then the first directory counts; entries of sys.path may be relative,
    and only files with exactly that name count (no folders, no other case). Reload executes
    the current source in the same module, and a failing import raises its error and leaves
    no module.""",
    ["inputs", "histories"],
    """All combinations of files in two directories and three kinds of packages times six
    ways to import; all pairs of relative imports at three places; all cycles of three
    modules; all sequences of up to four (thorough: five) of nine operations (import,
    reload, edit, four kinds of errors, remove, forget).""",
    """The tests import files from one directory of the repository, each one once.""",
    ["collagraph/cgx/importer.py", CGX],
    [("find_spec", "collagraph/cgx/importer.py"),
     ("exec_module", "collagraph/cgx/importer.py"), ("load", CGX)],
    EXH,
    """Trusted: the model of the import system in mc/checks/c18.py and CPython. Files are
    only written to a scratch directory. Namespace packages win from cgx files.""",
)

PYS = "collagraph/renderers/pyside_renderer.py"
OBJ = "collagraph/renderers/pyside/objects/"
QTEXH = "exhaustive exploration of histories of the real code with Qt (offscreen), compared with new renderings"
prop(
    "C19", "Containers of PySide show their children as rendered",
    """Whatever children are added, removed, moved or replaced within a widget, layout,
    window, splitter, tab widget, menu (bar), tool bar, tree, item model, view, scroll area,
    dock, status bar or button box: afterwards the widgets are the same as those of a new
    rendering, in the rendered order, at the given positions and with the given labels, with
    their content and visible state, children that remain are the same objects, and Qt does
    not crash. The same goes for a change of the type of layout.""",
    ["histories", "inputs"],
    """For 57 containers all sequences of two (thorough: three) ordered selections of three
    (for 25 containers, thorough: all, four) children; with fixed children and other lists
    around, nested content and windows; all sequences of combinations of models, selections,
    grid positions and layouts (also with the attributes for the present layout only).""",
    """Each container of Qt has its own code for insert and remove; the tests use few of
    them, mostly for one history in which something is appended.""",
    [PYS, OBJ + "layouts.py", OBJ + "menu.py", OBJ + "toolbar.py", OBJ + "treewidgetitem.py",
     OBJ + "itemmodel.py", OBJ + "listview.py", OBJ + "tab.py", OBJ + "window.py"],
    [("insert", PYS), ("remove", PYS), ("box_layout_insert", OBJ + "layouts.py"),
     ("insert", OBJ + "menu.py"), ("insert", OBJ + "treewidgetitem.py"),
     ("insert", OBJ + "standarditem.py")],
    QTEXH,
    """Trusted: the descriptions of widgets in mc/qt.py and PySide6/Qt on the offscreen
    platform. Explicit positions (tab_index, form_index, model_index) and the order within
    a status bar or button box are not claimed.""",
)
prop(
    "C20", "Attributes that change or are removed give what a new rendering gives",
    """After any history of values for its attributes, all Qt properties of an element (and
    texts, items, buttons, labels and the place within its parent) equal those of a new
    element that is rendered with the present attributes, and have the values of these
    attributes: attributes that are removed get
    the default value of a new element back, also when the user or other attributes changed
    elements of the same type before.""",
    ["histories", "inputs"],
    """All pairs (thorough: also triples) of attributes with up to five values of 36 kinds of
    elements, for which all sequences of two combinations of values (or no element) are
    rendered, in four situations (in the first one also with each combination as the one
    that the element is created with).""",
    """The result depends on which element of a type got an attribute first and on the values
    that were set before; the tests set attributes once or change a single one.""",
    [PYS, OBJ + "qobject.py", OBJ + "combobox.py", OBJ + "treewidgetitem.py"],
    [("set_attribute", PYS), ("remove_attribute", PYS), ("set_layout_attr", OBJ + "layouts.py"),
     ("attr_name_to_method_name", "collagraph/renderers/pyside/__init__.py")],
    QTEXH,
    """Trusted: mc/qt.py and PySide6/Qt. Not claimed: attributes that depend on each other
    (such as maximum and value) or that name the same property, the removal of attributes that are no property of Qt, and
    the removal of the value of a progress bar.""",
)
prop(
    "C21", "Qt signals and events call the current handlers, once",
    """After any history of handlers for the signals and events of elements (that are moved,
    removed and added as well), an event calls exactly the handler that is rendered for that
    element and event, once, with the parameters of the signal that it accepts, whatever kind
    of callable it is. That also holds for handlers that change the handlers, or move or
    remove their element, while they are called. The element still handles its events itself,
    and events it does not accept are passed on to its parents, as without handlers.""",
    ["histories", "inputs"],
    """All sequences of two (thorough: three) assignments of eighteen kinds of handlers to
    29 signals and events of fifteen kinds of elements; all paths of three out of ten states
    that are set by the handlers themselves; all pairs of 29 combinations of handlers for
    events of an element and its parent x six kinds of input x seven kinds of elements,
    against plain widgets with event filters.""",
    """The tests fire a few signals with plain functions; handlers have to be disconnected
    for each kind of callable, and equal callables need to be told apart.""",
    [PYS, CORE],
    [("add_event_listener", PYS), ("remove_event_listener", PYS), ("EventFilter", PYS),
     ("equivalent_functions", "collagraph/compare.py")],
    QTEXH,
    """Trusted: PySide6/Qt; the signals are fired through the API of Qt. How many parameters
    are passed to callables that accept any number is not claimed.""",
)

DICT = "collagraph/renderers/dict_renderer.py"
DOM = "collagraph/renderers/dom_renderer.py"
GFX = "collagraph/renderers/pygfx_renderer.py"
prop(
    "C22", "Dicts, the DOM and pygfx scenes are the same as a new rendering",
    """After any sequence of changes, what is rendered with the DictRenderer, the DomRenderer
    and the PygfxRenderer (the order and nesting of the elements, their texts, attributes and
    handlers) is the same as what a new application renders for the last state. Attributes
    that are no longer rendered have their default value again, whatever was rendered or
    changed before on any element. Elements with the same key stay the same objects and
    events are passed to exactly the current handlers, once.""",
    ["histories", "inputs"],
    """All pairs (thorough: triples) of ordered selections of three (thorough: four) keyed
    children of six kinds in five to six surroundings; all pairs (thorough: triples) of
    attributes of five types with all sequences of two of their assignments, with and without
    other elements that have been changed before and in a group with a position; all sequences of two (thorough: three)
    assignments of three kinds of handlers.""",
    """The tests contain a few examples for the DictRenderer, hardly any for pygfx and none for
    the DOM. Defaults that are captured at the wrong time show for other elements only.""",
    [DICT, DOM, GFX, CORE],
    [("DictRenderer", DICT), ("DomRenderer", DOM), ("PygfxRenderer", GFX),
     ("remove_attribute", GFX)],
    "exhaustive exploration of histories of the real code with the renderers, compared with new renderings",
    """Trusted: pygfx; the DOM is a model of the operations of browsers that are used.""",
)

prop(
    "C23", "Registered types, layouts and methods apply for PySide elements",
    """An element is created with the type that was registered last for its name (upper case,
    dashes and underscores do not matter) or else with the type of PySide6, and a layout with
    the type that was registered last as layout for its name. The methods for inserting,
    removing and setting attributes are those that are registered for the most specific type.
    That holds for all elements that are created after the registration, whatever was created
    or registered before. Types that are no widget (layout) are rejected without effect, and
    there is a warning when a name was known already.""",
    ["histories", "inputs"],
    """All sequences of two (thorough: three) out of 28 registrations of elements, layouts,
    methods and attributes (as decorator or as a call), with and without elements and layouts
    that are created before and in between.""",
    """The tests register one element and one layout at the start. Caches of names and types
    matter when registrations follow the first use only.""",
    [PYS, OBJ + "layouts.py", OBJ + "widget.py"],
    [("register_element", PYS), ("register_layout", PYS), ("register_insert", PYS),
     ("create_object", PYS), ("name_to_type", PYS), ("class_hierarchy", PYS)],
    "exhaustive exploration of histories of registrations, with the real code, compared with a reference model",
    """Trusted: the reference model. Not claimed: repeated registrations of methods for the
    same type (there is a warning, the first one remains).""",
)

prop(
    "C24", "Memory does not grow with the number of updates",
    """When the same states are rendered over and over again, the number of objects of any
    type (components, elements, fibers, watchers, handlers, widgets and other objects of Qt)
    stays within bounds: everything that belongs to parts that are removed from the user
    interface is released.""",
    ["histories"],
    """All cycles of two states (thorough: and of three states with three children) of all
    pairs of eight kinds of components and of all kinds of elements and surroundings of the
    DictRenderer and the DomRenderer and of containers of PySide, and of handlers; each cycle is repeated eight
    times.""",
    """Tests look at what is shown after a few updates, not at what remains of former ones.""",
    [CORE, COMP, PYS, OBJ + "menu.py", OBJ + "tab.py", OBJ + "toolbar.py", OBJ + "listview.py"],
    [("commit_deletion", CORE), ("reconcile_children", CORE), ("remove_event_listener", PYS)],
    "exhaustive exploration of cycles of states with the real code, with a census of all objects",
    """Not claimed, since it's kept by the libraries: items of trees and nested items of
    models (PySide6), transforms (pygfx), cycles of references through the props of
    components (observ), menus of a menu bar that is removed as a whole.""",
)

prop(
    "C25", "The command line shows the given component with the given state",
    """Running collagraph with a component file shows that component, with the state (json text
    or a json file) as its props, in the renderer that is asked for; changes of the props in the
    debugger of the dict renderer are shown right away. Whatever the locale is, files are utf-8.
    Faulty arguments (unknown or unavailable renderers, files that can not be a component, state
    that is not json), are reported with the usage and nothing is shown.""",
    ["inputs", "histories"],
    """All combinations of renderers, four components, eight states and the ways to give them
    (as text, or as files with all kinds of names, relative or not);
    for the DictRenderer all sequences of two (thorough: four) changes of the props; about 100
    faulty command lines; all subsets of missing dependencies; two locales.""",
    """The command line is not tested at all: faults only show with particular inputs and
    environments.""",
    ["collagraph/__main__.py", "collagraph/cgx/cgx.py"],
    [("init_collagraph", "collagraph/__main__.py"), ("json_contents", "collagraph/__main__.py")],
    "exhaustive exploration of command lines and histories of changes with the real code",
    """Stand-ins for the canvas and the renderer of wgpu (there is no gpu), the event loop of Qt
    and the debugger.""",
)

prop(
    "C26", "Packaged applications contain everything that cgx files import",
    """The hook for PyInstaller adds all modules to the application that are imported by the
    scripts of cgx files in the folders of modules and packages that use collagraph, whatever the
    form and the place of the import statement is, and all cgx files of packages.""",
    ["inputs"],
    """All combinations of four kinds of applications, three places of a cgx file, 21 forms of
    import statements (relative ones as well) and seven places in the script; pairs of files.""",
    """The hook is not tested at all; the oracle is which modules are really loaded by using the
    files.""",
    ["collagraph/__pyinstaller/hook-collagraph.py"],
    [("collect_hidden_imports", "collagraph/__pyinstaller/hook-collagraph.py")],
    "exhaustive exploration of import statements and folders, validated by executing the imports",
    """PyInstaller is not installed: its API consists of stand-ins. Not claimed: data files of
    modules (PyInstaller collects those of packages only).""",
)

prop(
    "C27", "The windows of an application are those that are rendered into it",
    """The widgets that are rendered into the application are windows: with autoshow they are all
    shown when they are added (also when they are moved), closed when they are removed, and keyed
    windows remain the same objects. Dialogs are shown while they are part of what is rendered,
    and hidden with the element they belong to. With the event loop of Qt, the same holds once
    the events have been handled.""",
    ["histories", "schedules"],
    """All windows of two (or three) states, made of ordered selections of two or three windows
    of eleven kinds (widgets, labels, main windows, dialogs, windows with dialogs that stay or
    move, components, groups), synchronous and with one to three changes per turn of the event loop.""",
    """Tests show one window and do not remove it.""",
    [PYS, CORE],
    [("insert", PYS), ("remove", PYS)],
    QTEXH,
    """Offscreen platform. Not claimed: the attribute visible of windows.""",
)

prop(
    "C28", "User interfaces with the same data do not disturb each other",
    """Any number of user interfaces can be rendered in one process and use the same reactive
    data. Each of them always shows what follows from the current data, with the same
    elements, component instances and calls of lifecycle hooks as when it was the only one:
    also when one is rendered later on, is rendered again or is not used anymore, when it is
    rendered or the data is changed by a lifecycle hook of the other one, and when their
    updates take turns in the same event loop.""",
    ["histories", "schedules"],
    """Pairs of user interfaces: all windows of two states (with five plans for when each of them
    is rendered, rendered again or dropped), with and without the same renderer; three
    operations on local state; all pairs of changes by hooks, with two operations; all schedules
    of (two or) three operations and the callbacks of the loop, in slices.""",
    """Tests use one user interface at a time; what the instances share (the scheduler, the event
    loop, the renderer, the data and its watchers) only matters with a second one.""",
    [CORE, "collagraph/component.py"],
    [("render", CORE), ("work_loop", CORE), ("state_updated", CORE)],
    "exhaustive exploration of histories and schedules of pairs against a reference model",
    """Not claimed: instances with different types of event loops at the same time (the
    scheduler of observ is shared by all of them).""",
)

prop(
    "C29", "Derived values are shown up to date",
    """Values that components derive with computed expressions (also nested or shared) or with
    watchers of observ, from shared data, their own state or their props, are up to date in the
    user interface when there is no work left: wherever the expression is created (outside of
    the components, on creation, in render or a lifecycle hook) and used (attributes, texts,
    children, slots, conditions or functions), for the synchronous as well as the asynchronous
    event loop.""",
    ["histories", "schedules"],
    """Nine ways to derive a value x four places x four sources x seven uses: all sequences of two
    (four) changes synchronously, and all schedules of one (two) changes and the callbacks of the
    loop.""",
    """Tests only use values of reactive data directly. Whether a derived value is up to date depends
    on the order in which expressions and watchers are created and notified.""",
    [CORE],
    [("watch", CORE), ("Collagraph.__init__", CORE), ("state_updated", CORE)],
    "exhaustive exploration of histories and schedules against values computed from plain data",
    """Watchers themselves (when callbacks are called) belong to observ.""",
)

prop(
    "C30", "Updates of PySide interfaces can be interrupted at any point",
    """With the asynchronous event loop, whatever the points at which an update of a PySide user
    interface is interrupted by changes of the state or by rendering again: the widgets always
    show one of the states until then as a whole, never a mixture; when there is no work left
    they show the last state, in the right order, without any other windows on the screen.""",
    ["schedules", "histories"],
    """For 50 kinds of containers: all schedules of two operations (all ordered selections of two
    or three children, or rendering again) and the callbacks of the event loop, with slices of
    one, two and four units of work.""",
    """Tests render synchronously or wait until the work is done. At which point an update is
    interrupted depends on the time it takes.""",
    [CORE, "collagraph/renderers/pyside_renderer.py"],
    [("work_loop", CORE), ("render", CORE),
     ("PySideRenderer.insert", "collagraph/renderers/pyside_renderer.py")],
    "exhaustive exploration of schedules on the real renderer, compared with new renderings",
    """The event loop of Qt itself is replaced: callbacks are executed explicitly. Containers of
    which not all changes of the state are possible (see C19) are not included.""",
)

# (further properties are added below)


def main():
    seen = set()
    lines = []
    checks = []
    for p in PROPS:
        assert p["id"] not in seen
        seen.add(p["id"])
        assert len(p["title"]) <= 80, p["id"]
        assert (ROOT / "mc/checks" / f"{p['id'].lower()}.py").exists(), p["id"]
        lines.append(json.dumps({k: v for k, v in p.items() if k[0] != "_"}))
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./run {p['id']} quick",
                "thorough_cmd": f"./run {p['id']} thorough",
                "technique": p["_technique"],
                "level": p["_level"],
                "level_note": p["_note"],
            }
        )
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./run setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed through its public API.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    main()
