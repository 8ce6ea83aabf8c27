From b1f43cc4e334249c6ec431b6e05a21f0051fc04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 01/69] fix: remove all dom elements of virtual nodes and
 unmount long sibling lists

Removing a fiber without a dom element (component or template/slot) only
removed the first dom element found below it, removing an empty virtual node
raised an AttributeError and unmounting the siblings was recursive, so that
removing an element with about a thousand children raised a RecursionError.
---
 collagraph/collagraph.py | 61 ++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..d65bf2d 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -457,33 +457,24 @@ class Collagraph:
 
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
-        Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        Remove an item from the dom. All the components within the given fiber
+        will be notified that they are going to be unmounted. If the given fiber
+        does not reference a dom element, then all of the nearest dom elements
+        that are found among its descendants will be removed.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
-            if not fiber.unmounted:
-                fiber.component.before_unmount()
-                fiber.unmounted = True
-
-        def traverse_before_unmount(fiber):
-            if fiber is None:
-                return
-            if fiber.component:
-                if not fiber.unmounted:
-                    fiber.component.before_unmount()
-                    fiber.unmounted = True
-            traverse_before_unmount(fiber.child)
-            traverse_before_unmount(fiber.sibling)
-
-        traverse_before_unmount(fiber.child)
-
-        if fiber.dom is not None:
-            self.renderer.remove(fiber.dom, dom_parent)
-            fiber.dom = None
-        else:
-            self.commit_deletion(fiber.child, dom_parent)
+        stack = [fiber]
+        while stack:
+            item = stack.pop()
+            if item.component:
+                if not item.unmounted:
+                    item.component.before_unmount()
+                    item.unmounted = True
+            stack.extend(reversed(list(child_fibers(item))))
+
+        for item in [fiber] if fiber.dom is not None else list(dom_fibers(fiber)):
+            self.renderer.remove(item.dom, dom_parent)
+            item.dom = None
 
         fiber.child = None
         fiber.sibling = None
@@ -614,6 +605,26 @@ class Collagraph:
                     parent = parent.parent
 
 
+def child_fibers(fiber: Fiber) -> Iterable[Fiber]:
+    """Yields all the children of the given fiber."""
+    child = fiber.child
+    while child:
+        yield child
+        child = child.sibling
+
+
+def dom_fibers(fiber: Fiber) -> Iterable[Fiber]:
+    """Yields, in document order, the nearest descendants of the given fiber that
+    reference a dom element."""
+    stack = list(child_fibers(fiber))[::-1]
+    while stack:
+        item = stack.pop()
+        if item.dom is not None:
+            yield item
+        else:
+            stack.extend(list(child_fibers(item))[::-1])
+
+
 def is_event(key):
     return key.startswith("on_")
 
-- 
2.43.0


From 58c3076a25622c007f9afe0139946d6b73370ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 02/69] fix: keep the dom elements in the order of the rendered
 nodes

New elements were only inserted at the right spot when they have a key and are
followed by an element with a key. Elements without key, elements of components
or virtual nodes and elements with a falsy key ended up in the wrong order, and
so did the first render of a template with siblings.
---
 collagraph/collagraph.py | 68 +++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index d65bf2d..c3986e4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -318,22 +318,24 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the fibers that will be updated need to be moved by
+        # looking at the positions (in the old situation) of those fibers
+        positions = {id(fib): idx for idx, fib in enumerate(old_fibers)}
+        future = [
+            positions[id(fib)]
+            for el, fib in zip(elements, ordered_old_fibers)
+            if fib and el.type == fib.type
+        ]
+        current = sorted(future)
+        moved = set()
+        if current != future:
+            for op in create_ops(current, future):
+                if op["op"] is OpType.MOVE:
+                    moved.add(op["value"])
+
+        # When a fiber that has no dom element itself has been moved, then
+        # the dom elements of its children have to be moved instead
+        move_all = wip_fiber.dom is None and wip_fiber.move
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +358,8 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = move_all or positions[id(old_fiber)] in moved
+                new_fiber.anchor = None
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -374,7 +376,7 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.anchor = None
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -402,11 +404,19 @@ class Collagraph:
         for deletion in self._deletions:
             self._work.put(deletion)
         self._deletions = []
-        self._work.put(self._wip_root.child)
-
         while not self._work.empty():
-            work = self._work.get()
+            self.commit_work(self._work.get())
+
+        # Walk through the whole tree in document order, such that at any point all
+        # dom elements that precede the current one are already at the right spot
+        set_anchors(self._wip_root)
+        stack = list(child_fibers(self._wip_root))[::-1]
+        while stack:
+            work = stack.pop()
             self.commit_work(work)
+            if work.dom is not None:
+                set_anchors(work)
+            stack.extend(list(child_fibers(work))[::-1])
 
         # Use a queue to walk through the whole tree of fibers in order to
         # call component hooks (e.g: mounted, updated). The walk starts with
@@ -514,9 +524,6 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
-        self._work.put(fiber.sibling)
-
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
@@ -625,6 +632,17 @@ def dom_fibers(fiber: Fiber) -> Iterable[Fiber]:
             stack.extend(list(child_fibers(item))[::-1])
 
 
+def set_anchors(fiber: Fiber):
+    """Set the anchors for all the dom elements that will be inserted into
+    the dom element of the given fiber. The anchor is the first following dom
+    element that is already in place (or None if there is no such element)."""
+    anchor = None
+    for item in reversed(list(dom_fibers(fiber))):
+        item.anchor = anchor
+        if item.effect_tag is EffectTag.UPDATE and not item.move:
+            anchor = item.dom
+
+
 def is_event(key):
     return key.startswith("on_")
 
-- 
2.43.0


From 58d28b94c2bd29c32598d77b71a6e03d37ff458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 03/69] fix: only treat functions as equivalent when they
 behave the same

Methods that are bound to different instances, functions with different
defaults (e.g. the 'name=name' pattern in lambdas), functions which differ in
constants of another type (1 and True) and functions that refer to distinct
but equal (mutable) objects were considered to be equivalent, in which case
the event handler was not replaced. Functions that refer to themselves through
their closure raised a RecursionError.
---
 collagraph/compare.py | 113 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 96 insertions(+), 17 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..0e0afd2 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -1,24 +1,86 @@
 from functools import partial
-from typing import Callable
+from typing import Any, Callable
 
+from observ.proxy import Proxy
 
-def equivalent_functions(a: Callable, b: Callable):
+
+# Types of which equal values can't be distinguished from each other
+IMMUTABLE_TYPES = (bool, bytes, int, str, type(None))
+
+
+def equivalent_functions(a: Callable, b: Callable, seen=None):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
     """
+    if a is b:
+        return True
+
+    # Keep track of the functions that are being compared, because
+    # functions can refer to themselves through their closure
+    seen = seen or []
+    if any(x is a and y is b for x, y in seen):
+        return True
+    seen = [*seen, (a, b)]
+
+    if hasattr(a, "__func__") and hasattr(b, "__func__"):
+        # Methods are only equivalent when they're bound to the same object
+        return equivalent_values(
+            a.__self__, b.__self__, seen
+        ) and equivalent_functions(a.__func__, b.__func__, seen)
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
             return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                equivalent_values(a.args, b.args, seen)
+                and equivalent_keywords(a.keywords, b.keywords, seen)
+                and equivalent_functions(a.func, b.func, seen)
             )
 
         return a == b
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+    return (
+        equivalent_code(a.__code__, b.__code__)
+        and a.__globals__ is b.__globals__
+        and equivalent_values(a.__defaults__, b.__defaults__, seen)
+        and equivalent_keywords(a.__kwdefaults__, b.__kwdefaults__, seen)
+        and equivalent_closure_values(a, b, seen)
+    )
+
+
+def equivalent_values(a: Any, b: Any, seen=None):
+    """Returns whether a function can't tell the values a and b apart.
+
+    Only values that can't be changed (in place) are compared by value, because
+    functions that operate on distinct objects are not equivalent.
+    """
+    if a is b:
+        return True
+    if isinstance(a, Proxy) and isinstance(b, Proxy):
+        return type(a) is type(b) and a.target is b.target and a.shallow == b.shallow
+    if type(a) is not type(b):
+        return False
+    if type(a) in IMMUTABLE_TYPES:
+        return a == b
+    if type(a) in (complex, float):
+        # Take care of the sign of zero and nan values
+        return repr(a) == repr(b)
+    if type(a) is tuple:
+        return len(a) == len(b) and all(
+            equivalent_values(x, y, seen) for x, y in zip(a, b)
+        )
+    if callable(a):
+        return equivalent_functions(a, b, seen)
+    return False
+
+
+def equivalent_keywords(a: Any, b: Any, seen=None):
+    """Returns whether the keyword arguments a and b are equivalent."""
+    a, b = a or {}, b or {}
+    return a.keys() == b.keys() and all(
+        equivalent_values(a[key], b[key], seen) for key in a
+    )
 
 
 def equivalent_code(a, b):
@@ -39,6 +101,7 @@ def equivalent_code(a, b):
         "co_cellvars",
         "co_code",
         "co_consts",
+        "co_exceptiontable",
         "co_filename",
         "co_flags",
         "co_freevars",
@@ -55,30 +118,46 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
+        elif attr == "co_consts":
+            # Make sure to distinguish for instance 1 from True
+            if not equivalent_consts(attr_a, attr_b):
+                return False
         elif attr_a != attr_b:
             return False
 
     return True
 
 
-def equivalent_closure_values(a, b):
+def equivalent_consts(a, b):
+    """Returns True if a and b are the same constants (of the same type)"""
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, tuple):
+        return len(a) == len(b) and all(map(equivalent_consts, a, b))
+    if isinstance(a, (complex, float, frozenset)):
+        return repr(a) == repr(b)
+    return a == b
+
+
+def equivalent_closure_values(a, b, seen=None):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
+        if len(closure_a) != len(closure_b):
             return False
 
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+        for cell_a, cell_b in zip(closure_a, closure_b):
+            if cell_a is cell_b:
+                continue
+            try:
+                values = cell_a.cell_contents, cell_b.cell_contents
+            except ValueError:
+                # One of the cells is still empty
+                return False
+            if not equivalent_values(*values, seen):
+                return False
 
     return True
-- 
2.43.0


From b8b1e89214abb5bfa1749bbae266d98c89739ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 04/69] fix: remove the event handler that is actually
 registered

When an event handler is replaced by an equivalent one, the previous one stays
registered. Removing the handler later on failed (or leaked the handler),
because it tried to remove the replacement which was never registered.
---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c3986e4..5f8d7ee 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -547,6 +547,9 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # The previous handler stays registered, so make sure that
+                    # it will be the one that is going to be removed
+                    fiber.props_snapshot[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From e03b99d43cdc0564b6998eb0e8bb63134ab8b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 05/69] fix: distinguish elements by identity instead of by
 value

Equal elements in the DictRenderer could be mixed up when inserting before or
removing an element. Elements for which bool(element) is False did not get
any attributes or event listeners.
---
 collagraph/collagraph.py              |  6 +++---
 collagraph/renderers/dict_renderer.py | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 5f8d7ee..a17bff4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -258,7 +258,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -527,7 +527,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and not fiber.component:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -589,7 +589,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        elif dom is not None:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..4b502fa 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -21,12 +21,14 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = (
+            index_of(anchor, children) if anchor is not None else len(children)
+        )
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[index_of(el, children)]
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
@@ -48,3 +50,12 @@ class DictRenderer(Renderer):
         event_listeners = el.get("handlers", None)
         if event_listeners:
             event_listeners[event_type].remove(value)
+
+
+def index_of(el, children):
+    """Returns the index of element `el` in the list of children.
+    Elements can be equal to each other, so they're compared by identity."""
+    for idx, child in enumerate(children):
+        if child is el:
+            return idx
+    raise ValueError(f"{el} is not in the list of children")
-- 
2.43.0


From 3ffdca243d9b774273a73228090d789d2f35c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 06/69] fix: don't lose state changes that are made while
 building the wip tree

The dirty flag was reset right before committing, so that changes to state
that was already read were lost when they were made in between two time slices
(asyncio) or during the render phase (e.g. by the constructor of a child).
---
 collagraph/collagraph.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index a17bff4..08de69a 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -6,6 +6,7 @@ import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
 from observ import reactive, scheduler, to_raw
+from observ.dep import Dep
 from observ.watcher import Watcher
 
 from .compare import equivalent_functions
@@ -35,7 +36,11 @@ class NotifyChangeWatcher(Watcher):
     """
 
     def update(self):
-        """On update, simply run the callback."""
+        """On update, simply run the callback.
+
+        Changes that are made by the watched expression itself are ignored."""
+        if Dep.stack and Dep.stack[-1] is self:
+            return
         self.callback()
 
 
@@ -120,6 +125,7 @@ class Collagraph:
 
         self._deletions = []
         self._next_unit_of_work = self._wip_root
+        self._dirty = False
         self._render_callback = callback
 
         self.request_idle_work()
@@ -173,11 +179,12 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened during building of the WIP
+            # root or during updating of the DOM
             if self._dirty:
                 self.prepare_next_iteration_of_work()
+                return
 
         if self._next_unit_of_work:
             self.request_idle_work()
@@ -292,6 +299,7 @@ class Collagraph:
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
@@ -480,6 +488,8 @@ class Collagraph:
                 if not item.unmounted:
                     item.component.before_unmount()
                     item.unmounted = True
+            # State changes are not relevant anymore
+            item.watcher = None
             stack.extend(reversed(list(child_fibers(item))))
 
         for item in [fiber] if fiber.dom is not None else list(dom_fibers(fiber)):
-- 
2.43.0


From e7261083f15c86c90ac6f8c03818d03ce5cb87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 07/69] fix: keep the element of components up to date

The element attribute was None for components with another component as root
and it was not updated when the root element was replaced. Component instances
for which bool(component) is False were not recognized as components.
---
 collagraph/collagraph.py | 28 +++++++++++++++++-----------
 collagraph/component.py  |  4 ++--
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 08de69a..0d08a10 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -214,12 +214,14 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
-        if not component:
+        component = fiber.component
+        if component is None and fiber.alternate:
+            component = fiber.alternate.component
+        if component is None:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
-                if parent_fiber.component:
+                if parent_fiber.component is not None:
                     parent_component = parent_fiber.component
                     break
                 parent_fiber = parent_fiber.parent
@@ -452,14 +454,18 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component is not None:
+                # The root element can be replaced by an update
+                element = next(dom_fibers(fiber), None)
+                fiber.component._element = element and element.dom
+
             if fiber.mounted:
-                if fiber.component:
-                    fiber.component._element = fiber.child.dom
+                if fiber.component is not None:
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.updated()
                 fiber.updated = False
 
@@ -484,7 +490,7 @@ class Collagraph:
         stack = [fiber]
         while stack:
             item = stack.pop()
-            if item.component:
+            if item.component is not None:
                 if not item.unmounted:
                     item.component.before_unmount()
                     item.unmounted = True
@@ -509,7 +515,7 @@ class Collagraph:
         dom_parent = dom_parent_fiber.dom
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
-            if fiber.component:
+            if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
@@ -537,7 +543,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if dom is None and not fiber.component:
+        if dom is None and fiber.component is None:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -581,7 +587,7 @@ class Collagraph:
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
-        if fiber.component:
+        if fiber.component is not None:
             # Get a writable reference to the read-only props of the component
             props = reactive(fiber.component.props)
 
@@ -618,7 +624,7 @@ class Collagraph:
                 component = None
                 while parent:
                     component = parent.component
-                    if component:
+                    if component is not None:
                         # Mark the fiber as updated
                         parent.updated = True
                         break
diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..b4ab3c8 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -19,7 +19,7 @@ class Component:
         self._slots = {}
         self._event_handlers = defaultdict(set)
         self._lookup_cache = Component.__lookup_cache__[type(self)]
-        self._parent = ref(parent) if parent else None
+        self._parent = None if parent is None else ref(parent)
         self._provided = {}
 
     @property
@@ -58,7 +58,7 @@ class Component:
         The parent component of this component.
         For the root component, this returns None.
         """
-        return self._parent and self._parent()
+        return None if self._parent is None else self._parent()
 
     @parent.setter
     def parent(self, value):
-- 
2.43.0


From e6e272fc127b58800bf3ed09ff38b9a61004ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 08/69] fix: give components their own props

The props of a component used to be the very same object as the props of the
first node it was rendered with, so updating those changed the (reactive) data
of the user, nested reactive values were replaced by copies and nodes could get
entangled in endless updates. Props are now updated before a component renders
instead of afterwards, so the component does not need to be rendered twice.
---
 collagraph/collagraph.py | 81 +++++++++++++++++++++++++++++++++++-----
 collagraph/types.py      |  1 +
 2 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0d08a10..1863b87 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -7,6 +7,7 @@ from typing import Any, Callable, Dict, Iterable, List, Optional
 
 from observ import reactive, scheduler, to_raw
 from observ.dep import Dep
+from observ.proxy import Proxy
 from observ.watcher import Watcher
 
 from .compare import equivalent_functions
@@ -114,6 +115,8 @@ class Collagraph:
         self._qt_timer = None
         self._work = SimpleQueue()
         self._dirty = False
+        # The fiber of which the component props are being updated
+        self._syncing: Fiber = None
 
     def render(self, element: VNode, container, callback=None):
         self._wip_root = Fiber(
@@ -226,7 +229,17 @@ class Collagraph:
                     break
                 parent_fiber = parent_fiber.parent
 
-            component = fiber.type(props=fiber.props, parent=parent_component)
+            component = fiber.type(
+                props=reactive(shallow_raw(fiber.props)), parent=parent_component
+            )
+        else:
+            # Components that depend on the props which will be changed here are
+            # still to be evaluated in this iteration when they're part of this fiber
+            self._syncing = fiber
+            try:
+                self.update_props(component, fiber.props)
+            finally:
+                self._syncing = None
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -237,6 +250,14 @@ class Collagraph:
             fiber.alternate.component = None
             fiber.watcher = fiber.alternate.watcher
             fiber.alternate.watcher = None
+            fiber.alternate.props_watcher = None
+
+        # The props might be reactive state of the user, in
+        # which case they can be changed without a new render
+        fiber.props_watcher = watch(
+            lambda: fiber.props.keys(),
+            lambda: self.props_updated(fiber),
+        )
 
         if fiber.watcher:
             # Re-evaluate the watcher to get the new value
@@ -249,6 +270,41 @@ class Collagraph:
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
+    def props_updated(self, fiber: Fiber):
+        """Called when the props object for the component itself has been changed"""
+        if self.update_props(fiber.component, fiber.props):
+            self.state_updated(fiber)
+
+    def update_props(self, component: Any, new_props: Dict):
+        """
+        Update the props of the component to match the new props. The component has
+        its own dict with props, so the given props are never changed. Returns
+        whether there were any props added or removed.
+        """
+        # Get a writable reference to the read-only props of the component
+        props = reactive(component.props)
+        old = shallow_raw(props)
+        new = shallow_raw(new_props)
+        values = getattr(new_props, "target", new_props)
+        removals = [key for key in old if key not in new]
+        changes = {}
+        for key, val in new.items():
+            if key in old and old[key] is val:
+                continue
+            # Reactive values always need to be replaced by other reactive
+            # values, even if those are equal at this point in time
+            if key not in old or isinstance(values[key], Proxy) or is_new(val, old, key):
+                changes[key] = val
+            else:
+                # Equal values don't have to be treated as a change
+                props.target[key] = val
+
+        for key in removals:
+            del props[key]
+        if changes:
+            props.update(changes)
+        return bool(removals) or any(key not in old for key in changes)
+
     def update_function_component(self, fiber: Fiber):
         if fiber.alternate:
             fiber.alternate.watcher = None
@@ -305,6 +361,12 @@ class Collagraph:
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
+        if syncing := self._syncing:
+            while fiber:
+                if fiber is syncing or fiber is syncing.alternate:
+                    return
+                fiber = fiber.parent
+
         self._dirty = True
 
         if not self._wip_root:
@@ -496,6 +558,7 @@ class Collagraph:
                     item.unmounted = True
             # State changes are not relevant anymore
             item.watcher = None
+            item.props_watcher = None
             stack.extend(reversed(list(child_fibers(item))))
 
         for item in [fiber] if fiber.dom is not None else list(dom_fibers(fiber)):
@@ -588,17 +651,9 @@ class Collagraph:
                     attrs_to_update[key] = val
 
         if fiber.component is not None:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                del props[key]
-
-            props.update(attrs_to_update)
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
@@ -631,6 +686,14 @@ class Collagraph:
                     parent = parent.parent
 
 
+def shallow_raw(props: Dict) -> Dict:
+    """Returns a new dict with the same values, without any trace of proxies."""
+    props = getattr(props, "target", props)
+    return {
+        key: val.target if isinstance(val, Proxy) else val for key, val in props.items()
+    }
+
+
 def child_fibers(fiber: Fiber) -> Iterable[Fiber]:
     """Yields all the children of the given fiber."""
     child = fiber.child
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..2fe62ca 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -50,6 +50,7 @@ class Fiber:
     snapshot: Dict = None
     type: Union[str, Callable] = None
     watcher: Any = None
+    props_watcher: Any = None  # Watcher for the props of a component
     component: Any = None  # Component instance
     mounted: bool = False  # Flag for components whether it was mounted
     updated: bool = False  # Flag for components whether any DOM was updated
-- 
2.43.0


From 13225f8af137fa4cdd3ad4d5391c21d9fba0e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 09/69] fix: take the snapshot of props when the props start
 being watched

Changes to the props object that were made after the snapshot was taken, but
before the fiber itself was processed, were lost.
---
 collagraph/collagraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 1863b87..03a4de8 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -196,6 +196,8 @@ class Collagraph:
                 self._render_callback()
 
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
+        # Take the snapshot at the moment from which changes will be noticed
+        fiber.props_snapshot = to_raw(fiber.props)
         is_function_or_class_component = callable(fiber.type)
         if is_function_or_class_component:
             is_class_component = isinstance(fiber.type, type)
@@ -420,7 +422,6 @@ class Collagraph:
                 new_fiber = old_fiber.alternate or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = old_fiber.dom
@@ -437,7 +438,6 @@ class Collagraph:
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = None
@@ -580,7 +580,7 @@ class Collagraph:
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component is not None:
                 self.update_dom_or_component(
-                    fiber, None, prev_props={}, next_props=fiber.props
+                    fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-- 
2.43.0


From 557808996e5cd732b0ca2ab48e985b581c5d2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 10/69] fix: call updated when the text or the structure of a
 component has changed

The updated hook was only called for changes to attributes and event listeners
and not when text was changed or when elements were added, removed or moved.
---
 collagraph/collagraph.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 03a4de8..410dab4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -454,6 +454,7 @@ class Collagraph:
             if old_fiber and not same_type:
                 # Mark the old fiber for deletion so that DOM element will be removed
                 old_fiber.effect_tag = EffectTag.DELETION
+                old_fiber.parent = wip_fiber
                 self._deletions.append(old_fiber)
 
             # And we add it to the fiber tree setting it either as a child or as a
@@ -578,6 +579,7 @@ class Collagraph:
         dom_parent = dom_parent_fiber.dom
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
+            self.mark_updated(fiber)
             if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props_snapshot
@@ -586,6 +588,8 @@ class Collagraph:
             if fiber.dom is not None:
                 self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
         elif fiber.effect_tag == EffectTag.UPDATE:
+            if fiber.move and (fiber.parent.dom is not None or not fiber.parent.move):
+                self.mark_updated(fiber)
             if fiber.dom is not None:
                 if fiber.move:
                     self.renderer.remove(fiber.dom, dom_parent)
@@ -601,6 +605,7 @@ class Collagraph:
                 next_props=fiber.props_snapshot,
             )
         elif fiber.effect_tag == EffectTag.DELETION:
+            self.mark_updated(fiber)
             self.commit_deletion(fiber, dom_parent)
 
     def update_dom_or_component(
@@ -612,6 +617,7 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
+                self.mark_updated(fiber)
                 return
 
         events_to_remove = {}
@@ -673,17 +679,18 @@ class Collagraph:
             for event_type, val in events_to_add.items():
                 self.renderer.add_event_listener(dom, event_type, val)
 
-            # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component is not None:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                self.mark_updated(fiber)
+
+    def mark_updated(self, fiber: Fiber):
+        """Climb up the tree to find first component to mark as updated"""
+        parent = fiber.parent
+        while parent:
+            if parent.component is not None:
+                # Mark the fiber as updated
+                parent.updated = True
+                break
+            parent = parent.parent
 
 
 def shallow_raw(props: Dict) -> Dict:
-- 
2.43.0


From 4ce8645324f045ebb46bdf2ae23b7bb246b6f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 11/69] fix: keep component instances when render is called
 while rendering

Building of the wip tree removed the component instances from the current tree,
so the instances (and their state) were lost when that wip tree was discarded
because of another call to render.
---
 collagraph/collagraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 410dab4..f803c92 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -219,9 +219,7 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component
-        if component is None and fiber.alternate:
-            component = fiber.alternate.component
+        component = fiber.alternate and fiber.alternate.component
         if component is None:
             parent_component = None
             parent_fiber = fiber.parent
@@ -249,7 +247,6 @@ class Collagraph:
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
         if fiber.alternate:
-            fiber.alternate.component = None
             fiber.watcher = fiber.alternate.watcher
             fiber.alternate.watcher = None
             fiber.alternate.props_watcher = None
@@ -431,6 +428,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
+                new_fiber.component = None
                 new_fiber.move = move_all or positions[id(old_fiber)] in moved
                 new_fiber.anchor = None
             if element and not same_type:
@@ -447,6 +445,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
+                new_fiber.component = None
                 new_fiber.move = False
                 new_fiber.anchor = None
                 # NOTE: If there is an old_fiber, then it will be
-- 
2.43.0


From 67af80a24ef49f1b947fac0e449e25795241c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 12/69] fix: resolve names in templates for each lookup

The location of a name (props, state, component or globals) was cached for all
instances of a component class, so instances with other props or state resolved
names to the wrong value or failed to find them.
---
 collagraph/component.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index b4ab3c8..266ab92 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = None if parent is None else ref(parent)
         self._provided = {}
 
@@ -138,30 +135,15 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        # Where a name is found can differ between instances and can also
+        # change over time, so the result can't be cached
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        try:
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
-            return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        except AttributeError:
+            if name in context:
+                return context[name]
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From ddd9180ed7c2ea013fdb856e94bd4d5f6ed13379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 13/69] fix: keep the order of elements around control flow
 directives

Text elements and elements with a v-for directive that follow after an element
with v-if, v-else-if or v-else were rendered before that element.
---
 collagraph/cgx/cgx.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..577ce35 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -350,12 +350,18 @@ def convert_node_to_args(node, *, names=None):
             # Ignore comments
             continue
 
+        # Any item that is not part of the current control flow (if any) ends it
+        directive = None
+        if isinstance(child, Element) and DIRECTIVE_FOR not in child.attrs:
+            directive = child.control_flow()
+        if control_flow and directive in (None, DIRECTIVE_IF):
+            children_args.append(create_control_flow_ast(control_flow, names=names))
+            control_flow = []
+
         if isinstance(child, TextElement):
             children_args.extend(args_for_text_element(child, names=names))
             continue
 
-        directive = None
-
         # Handle for-directives
         if for_expression := child.attrs.get(DIRECTIVE_FOR):
             for_expression = f"[None for {for_expression}]"
@@ -383,10 +389,7 @@ def convert_node_to_args(node, *, names=None):
             continue
 
         # Handle control flow directives
-        if directive := child.control_flow():
-            if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
-                control_flow = []
+        if directive:
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -411,9 +414,6 @@ def convert_node_to_args(node, *, names=None):
                 slots[slot_name] = child
 
         if not directive:
-            if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
-                control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
             else:
-- 
2.43.0


From e9b1fca414dbb544e25603270fd4a296e227bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 14/69] fix: take the scope of names in template expressions
 into account

Expressions with comprehensions could not be compiled, arguments such as *args
and **kwargs of lambdas were not found, names were also skipped outside of the
lambda that defines them and 'self' could not be used.
---
 collagraph/cgx/cgx.py | 88 ++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 577ce35..b79df75 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -177,27 +177,27 @@ def create_ast_render_function(node, names):
             f"""
             from warnings import warn as _warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
+            for _name in {{{names_str}}}:
+                if _name in self.state:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{_name}}' with 'state['{{_name}}']'"
                     )
-                if name in self.props:
+                if _name in self.props:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{_name}}' with 'props['{{_name}}']'"
                     )
-                if hasattr(self, name):
+                if hasattr(self, _name):
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{_name}}' with 'self.{{_name}}'"
                     )
             """
         )
@@ -328,12 +328,7 @@ def convert_node_to_args(node, *, names=None):
             props_keys.append(ast.Constant(value=key))
 
             tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(RewriteName(skip=names).visit(tree).body)
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -372,15 +367,10 @@ def convert_node_to_args(node, *, names=None):
             # i, a and b, so we don't want to wrap those names with `_lookup()`
             name_collector = NameCollector()
             for generator in for_tree.generators:
-                # Apparently, a node visitor does _not_ visit the root node...
-                # So instead, just add the name directly if the root is an ast.Name node
-                if isinstance(generator.target, ast.Name):
-                    name_collector.names.add(generator.target.id)
-                else:
-                    name_collector.generic_visit(generator.target)
+                name_collector.visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            RewriteName(skip=names).visit(for_tree)
 
             for_tree.elt = call_create_element(child, names=local_names)
 
@@ -651,21 +641,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
@@ -673,13 +648,48 @@ class RewriteName(ast.NodeTransformer):
     def __init__(self, skip):
         self.skip = skip
 
+    def visit_Lambda(self, node):
+        # The defaults are not part of the scope of the lambda
+        args = node.args
+        args.defaults = [self.visit(default) for default in args.defaults]
+        args.kw_defaults = [
+            default and self.visit(default) for default in args.kw_defaults
+        ]
+
+        all_args = [*args.posonlyargs, *args.args, *args.kwonlyargs]
+        all_args.extend(arg for arg in (args.vararg, args.kwarg) if arg)
+        names = {arg.arg for arg in all_args}
+        node.body = RewriteName(skip=names.union(self.skip)).visit(node.body)
+        return node
+
+    def visit_comprehension_expression(self, node):
+        # Names that are defined by a generator are only known
+        # in whatever comes after the iterable of that generator
+        scope = self
+        for generator in node.generators:
+            generator.iter = scope.visit(generator.iter)
+            name_collector = NameCollector()
+            name_collector.visit(generator.target)
+            scope = RewriteName(skip=name_collector.names.union(scope.skip))
+            generator.ifs = [scope.visit(test) for test in generator.ifs]
+
+        for field in ("elt", "key", "value"):
+            if hasattr(node, field):
+                setattr(node, field, scope.visit(getattr(node, field)))
+        return node
+
+    visit_ListComp = visit_comprehension_expression
+    visit_SetComp = visit_comprehension_expression
+    visit_DictComp = visit_comprehension_expression
+    visit_GeneratorExp = visit_comprehension_expression
+
     def visit_Name(self, node):
         # Don't try and replace any item from the __builtins__
         if node.id in __builtins__:
             return node
 
         # Don't replace any name that should be explicitely skipped
-        if node.id in self.skip:
+        if node.id == "self" or node.id in self.skip:
             return node
 
         return ast.Call(
-- 
2.43.0


From d554648ccbf39c2326f0493d1b6b4d5dde70fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 15/69] fix: give each item of a v-for directive its own scope

Slots and event handlers within an element with a v-for directive all referred
to the last item of the collection.
---
 collagraph/cgx/cgx.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index b79df75..5db81af 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -372,7 +372,23 @@ def convert_node_to_args(node, *, names=None):
             local_names = names.union(name_collector.names)
             RewriteName(skip=names).visit(for_tree)
 
-            for_tree.elt = call_create_element(child, names=local_names)
+            # Call a function for each of the items to give each item its own scope,
+            # otherwise all lambdas (such as slots) will refer to the last item
+            local_args = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=name) for name in local_args],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in local_args],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
@@ -455,7 +471,7 @@ def convert_node_to_args(node, *, names=None):
                 ast.Lambda(
                     args=ast.arguments(
                         posonlyargs=[],
-                        args=[ast.arg(arg="props")],
+                        args=[ast.arg(arg=f"{AST_GEN_VARIABLE_PREFIX}props")],
                         kwonlyargs=[],
                         kw_defaults=[],
                         defaults=[],
-- 
2.43.0


From fa3d6aa70f9730fc07dd80eff4d9d10dd5adefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 16/69] fix: always render the content of slots

The content for a slot was not rendered when the slot is the root element or
has a directive (v-if, v-for), and content that consists of text or only of
elements with a v-for directive was dropped.
---
 collagraph/cgx/cgx.py | 138 ++++++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 51 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5db81af..a37c525 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -215,7 +215,7 @@ def create_ast_render_function(node, names):
         ),
         body=[
             *extra_statements,
-            ast.Return(value=call_create_element(node, names=names)),
+            ast.Return(value=call_create_element(wrap_slot(node), names=names)),
         ],
         decorator_list=[],
     )
@@ -237,43 +237,74 @@ def call_create_element(node, *, names):
 
 
 def call_render_slot(node, *, names=None):
+    """
+    Returns an AST expression which evaluates to the list of
+    elements that should be rendered for the given slot node.
+    """
     slot_name = node.attrs.get("name", "default")
 
-    return ast.Starred(
-        value=ast.IfExp(
-            # Check whether the slot name is present in
-            # the _slots property of the component
-            test=ast.Compare(
-                left=ast.Constant(value=slot_name),
-                ops=[ast.In()],
-                comparators=[
-                    ast.Attribute(
-                        value=ast.Name(id="self", ctx=ast.Load()),
-                        attr="_slots",
-                        ctx=ast.Load(),
-                    )
-                ],
-            ),
-            # If so, then we'll call render_slot
-            body=ast.Call(
-                func=ast.Attribute(
+    return ast.IfExp(
+        # Check whether the slot name is present in
+        # the _slots property of the component
+        test=ast.Compare(
+            left=ast.Constant(value=slot_name),
+            ops=[ast.In()],
+            comparators=[
+                ast.Attribute(
                     value=ast.Name(id="self", ctx=ast.Load()),
-                    attr="render_slot",
+                    attr="_slots",
                     ctx=ast.Load(),
-                ),
-                args=[ast.Constant(value=slot_name)],
-                keywords=[],
-            ),
-            # Otherwise, we render the fallback content
-            orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
+                )
+            ],
+        ),
+        # If so, then we'll call render_slot
+        body=ast.Call(
+            func=ast.Attribute(
+                value=ast.Name(id="self", ctx=ast.Load()),
+                attr="render_slot",
                 ctx=ast.Load(),
             ),
+            args=[ast.Constant(value=slot_name)],
+            keywords=[],
+        ),
+        # Otherwise, we render the fallback content
+        orelse=ast.List(
+            elts=[call_create_element(node, names=names)],
+            ctx=ast.Load(),
         ),
-        ctx=ast.Load(),
     )
 
 
+def call_create_elements(node, *, names=None):
+    """
+    Returns an AST expression which evaluates to the list of
+    elements that should be rendered for the given node.
+    """
+    if node.tag == "slot":
+        return call_render_slot(node, names=names)
+    return ast.List(elts=[call_create_element(node, names=names)], ctx=ast.Load())
+
+
+def wrap_slot(node):
+    """
+    Wraps a slot node in a virtual node, in order to make it a single element.
+    """
+    if node.tag != "slot":
+        return node
+
+    # The wrapped node should not be processed again by these directives
+    attrs = {
+        key: val
+        for key, val in node.attrs.items()
+        if not key.startswith((DIRECTIVE_FOR, "v-slot", "#"))
+    }
+    slot_node = Element(node.tag, attrs, location=node.location)
+    slot_node.children = node.children
+    virtual_template_node = Element("template")
+    virtual_template_node.children = [slot_node]
+    return virtual_template_node
+
+
 def convert_node_to_args(node, *, names=None):
     """
     Converts the node to args that can be passed to `collagraph.create_element()`.
@@ -345,6 +376,21 @@ def convert_node_to_args(node, *, names=None):
             # Ignore comments
             continue
 
+        # Gather all the non-template children within a component tag and
+        # treat them as the content for the default slot
+        if node.tag[0].isupper() or "." in node.tag:
+            default_slot_content = [
+                child
+                for child in node.children
+                if not isinstance(child, Comment)
+                and getattr(child, "tag", None) != "template"
+            ]
+
+            if default_slot_content:
+                virtual_template_node = Element("template")
+                virtual_template_node.children = default_slot_content
+                slots["default"] = virtual_template_node
+
         # Any item that is not part of the current control flow (if any) ends it
         directive = None
         if isinstance(child, Element) and DIRECTIVE_FOR not in child.attrs:
@@ -384,7 +430,7 @@ def convert_node_to_args(node, *, names=None):
                         kw_defaults=[],
                         defaults=[],
                     ),
-                    body=call_create_element(child, names=local_names),
+                    body=call_create_element(wrap_slot(child), names=local_names),
                 ),
                 args=[ast.Name(id=name, ctx=ast.Load()) for name in local_args],
                 keywords=[],
@@ -398,20 +444,6 @@ def convert_node_to_args(node, *, names=None):
         if directive:
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
                 slot_name = attr.split(":")[-1].split("#")[-1]
@@ -421,7 +453,11 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if child.tag == "slot":
-                children_args.append(call_render_slot(child, names=names))
+                children_args.append(
+                    ast.Starred(
+                        value=call_render_slot(child, names=names), ctx=ast.Load()
+                    )
+                )
             else:
                 children_args.append(call_create_element(child, names=names))
 
@@ -476,7 +512,7 @@ def convert_node_to_args(node, *, names=None):
                         kw_defaults=[],
                         defaults=[],
                     ),
-                    body=call_create_element(val, names=names),
+                    body=call_create_element(wrap_slot(val), names=names),
                 )
                 for val in slots.values()
             ],
@@ -621,8 +657,8 @@ def create_control_flow_ast(control_flow, *, names):
     test = ast.parse(if_node.attrs[if_directive], mode="eval")
     root_statement = ast.IfExp(
         test=rewrite_name.visit(test).body,
-        body=call_create_element(if_node, names=names),
-        orelse=ast.Constant(value=None),
+        body=call_create_elements(if_node, names=names),
+        orelse=ast.List(elts=[], ctx=ast.Load()),
     )
     current_statement = root_statement
 
@@ -630,16 +666,16 @@ def create_control_flow_ast(control_flow, *, names):
         test = ast.parse(node.attrs[directive], mode="eval")
         if_else_tree = ast.IfExp(
             test=rewrite_name.visit(test).body,
-            body=call_create_element(node, names=names),
-            orelse=ast.Constant(value=None),
+            body=call_create_elements(node, names=names),
+            orelse=ast.List(elts=[], ctx=ast.Load()),
         )
         current_statement.orelse = if_else_tree
         current_statement = if_else_tree
 
     if else_node:
-        current_statement.orelse = call_create_element(else_node, names=names)
+        current_statement.orelse = call_create_elements(else_node, names=names)
 
-    return root_statement
+    return ast.Starred(value=root_statement, ctx=ast.Load())
 
 
 def is_directive(key):
-- 
2.43.0


From 208640c8632c8bda10d2556bc4906fab0b8274a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 17/69] fix: render text with '<' or multi-line moustaches as a
 whole

Text that contains a '<' was split up into multiple text elements, which also
broke expressions such as '{{ a < b }}', and moustaches that span multiple lines
were not recognized.
---
 collagraph/cgx/cgx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index a37c525..f7b3557 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path):
@@ -575,7 +575,7 @@ def args_for_text_element(child, names):
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
             expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
+                RewriteName(skip=names).visit(ast.parse(f"({expr})", mode="eval")).body
             )
             offset = span[1]
 
@@ -853,9 +853,13 @@ class CGXParser(HTMLParser):
         node.end = self.getpos()
 
     def handle_data(self, data):
-        if data.strip():
+        siblings = self.stack[-1].children
+        if siblings and isinstance(siblings[-1], TextElement):
+            # Text can be split into parts, for instance when it contains '<'
+            siblings[-1].content += data
+        elif data.strip():
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
+            siblings.append(
                 TextElement(content=data, location=self.getpos())
             )
 
-- 
2.43.0


From 83af91535ed11dde318bb775e2c65f5702dad391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 18/69] fix: allow for removal of attributes that have never
 been set

---
 collagraph/renderers/dict_renderer.py   | 3 ++-
 collagraph/renderers/pygfx_renderer.py  | 3 ++-
 collagraph/renderers/pyside_renderer.py | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 4b502fa..fef3af9 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -38,7 +38,8 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        # Attributes that are None from the start have never been set
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..5e259d3 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -76,7 +76,8 @@ class PygfxRenderer(Renderer):
             else:
                 val = default_value
             setattr(obj, attr, val)
-        else:
+        elif value is not None or attr in getattr(obj, "__dict__", ()):
+            # Attributes that are None from the start have never been set
             delattr(obj, attr)
 
     def add_event_listener(self, el, event_type, value):
diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..b4d1cc2 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -378,6 +378,10 @@ class PySideRenderer(Renderer):
             meta_property.write(el, default_value)
             return
 
+        # Attributes that are None from the start have never been set
+        if value is None:
+            return
+
         raise NotImplementedError(f"Can't remove {attr}: {value}")
 
     def add_event_listener(self, el: Any, event_type: str, value: Callable):
-- 
2.43.0


From 1c02c61730989c95e9734f6a0a4353254ef76294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 19/69] fix: render components that evaluate to False

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index f803c92..db0a036 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -262,8 +262,10 @@ class Collagraph:
             # Re-evaluate the watcher to get the new value
             fiber.watcher.evaluate()
         else:
+            # Note that a bound method can't be watched directly, because it would
+            # be skipped for component instances that evaluate to False
             fiber.watcher = watch(
-                component.render,
+                lambda: component.render(),
                 lambda: self.state_updated(fiber),
             )
 
-- 
2.43.0


From 7063f258e4d24d68fa1529dcbe8da59a81b985cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 20/69] fix: don't treat callable objects as equivalent because
 they are equal

---
 collagraph/compare.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 0e0afd2..0398fd2 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -1,4 +1,5 @@
 from functools import partial
+from types import BuiltinMethodType, MethodWrapperType
 from typing import Any, Callable
 
 from observ.proxy import Proxy
@@ -6,6 +7,7 @@ from observ.proxy import Proxy
 
 # Types of which equal values can't be distinguished from each other
 IMMUTABLE_TYPES = (bool, bytes, int, str, type(None))
+BUILTIN_METHOD_TYPES = (BuiltinMethodType, MethodWrapperType)
 
 
 def equivalent_functions(a: Callable, b: Callable, seen=None):
@@ -38,7 +40,9 @@ def equivalent_functions(a: Callable, b: Callable, seen=None):
                 and equivalent_functions(a.func, b.func, seen)
             )
 
-        return a == b
+        # Methods of builtin types are equal when bound to the same object, but other
+        # callable objects can be equal without being interchangeable
+        return type(a) in BUILTIN_METHOD_TYPES and a == b
 
     return (
         equivalent_code(a.__code__, b.__code__)
-- 
2.43.0


From acad529dca62adafb25d818174193748494ad67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 21/69] fix: render templates without slot name as content of
 the default slot

---
 collagraph/cgx/cgx.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f7b3557..2ba1dd0 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -376,14 +376,13 @@ def convert_node_to_args(node, *, names=None):
             # Ignore comments
             continue
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
+        # Gather all the children within a component tag that are not meant for
+        # a specific slot and treat them as the content for the default slot
         if node.tag[0].isupper() or "." in node.tag:
             default_slot_content = [
                 child
                 for child in node.children
-                if not isinstance(child, Comment)
-                and getattr(child, "tag", None) != "template"
+                if not isinstance(child, Comment) and not has_slot_name(child)
             ]
 
             if default_slot_content:
@@ -678,6 +677,13 @@ def create_control_flow_ast(control_flow, *, names):
     return ast.Starred(value=root_statement, ctx=ast.Load())
 
 
+def has_slot_name(node):
+    """Returns whether the node is the content of a specific slot"""
+    return isinstance(node, Element) and any(
+        attr.startswith(("v-slot", "#")) for attr in node.attrs
+    )
+
+
 def is_directive(key):
     return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
 
-- 
2.43.0


From 71eb51353b35b2ea33bb476a9066c2211ceca2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 22/69] fix: keep the props of a node when they are empty

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index db0a036..58e48b1 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -67,7 +67,9 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    # Props that are empty (for now) can be reactive data of the user
+    props = {} if props is None else props
+    return VNode(type, reactive(props), children or tuple(), key)
 
 
 def create_text_element(text):
-- 
2.43.0


From 890743d24d347c625c621905a7ebfe71a68dadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 23/69] fix: do not pass the shorthand for slot names on as
 attribute

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 2ba1dd0..f7a0da1 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -685,7 +685,7 @@ def has_slot_name(node):
 
 
 def is_directive(key):
-    return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
+    return key.startswith((DIRECTIVE_PREFIX, ":", "@", "#"))
 
 
 class NameCollector(ast.NodeVisitor):
-- 
2.43.0


From 156dc77cf3c9e6a7ed77a19992fdb5d175d63dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 24/69] fix: update event handlers of components that are
 changed in reactive props

---
 collagraph/collagraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 58e48b1..f248d2f 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -282,7 +282,7 @@ class Collagraph:
         """
         Update the props of the component to match the new props. The component has
         its own dict with props, so the given props are never changed. Returns
-        whether there were any props added or removed.
+        whether there were any props added or removed, or event handlers changed.
         """
         # Get a writable reference to the read-only props of the component
         props = reactive(component.props)
@@ -306,7 +306,9 @@ class Collagraph:
             del props[key]
         if changes:
             props.update(changes)
-        return bool(removals) or any(key not in old for key in changes)
+        return bool(removals) or any(
+            key not in old or is_event(key) for key in changes
+        )
 
     def update_function_component(self, fiber: Fiber):
         if fiber.alternate:
-- 
2.43.0


From 58387f5466e5592f04387335eb997e86ad25f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 25/69] fix: let the line numbers of the script match those of
 the cgx file

---
 collagraph/cgx/cgx.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f7a0da1..f36e9ae 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -151,13 +151,12 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    line, _ = script_node.children[0].location
 
     # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
     # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
-    return script_tree
+    padding = "\n" * (line - 1)
+    return ast.parse(padding + script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From efb4016d8e4ae9e6a85ae36e94e067cd54893bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:29 +0000
Subject: [PATCH 26/69] fix: resolve attributes of classes that are used as tag

---
 collagraph/cgx/cgx.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f36e9ae..80467a8 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -309,18 +309,18 @@ def convert_node_to_args(node, *, names=None):
     Converts the node to args that can be passed to `collagraph.create_element()`.
     """
     # Construct the first argument: type of node
-    if not node.tag[0].islower():
-        # If the tag does not start with a capital, then it is assumed to be
-        # a class or function, so a Name node is inserted in the ast tree
-        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
-    elif "." in node.tag:
+    if "." in node.tag:
         # If a dot is found in the tag, then it is assumed that the tag represents
-        # a package/module attribute lookup
+        # a package/module (or class) attribute lookup
         name, *attributes = node.tag.split(".")
         result = ast.Name(id=name, ctx=ast.Load())
         for attr in attributes:
             result = ast.Attribute(value=result, attr=attr, ctx=ast.Load())
         type_arg = result
+    elif not node.tag[0].islower():
+        # If the tag starts with a capital, then it is assumed to be
+        # a class or function, so a Name node is inserted in the ast tree
+        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
     else:
         # Otherwise it is just a constant string
         type_arg = ast.Constant(value=node.tag)
-- 
2.43.0


From 1993a87918e3032d87ccbcc6d93aefa66c5d0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 27/69] fix: execute cgx files in the namespace of their module

---
 collagraph/cgx/cgx.py      | 11 ++++++-----
 collagraph/cgx/importer.py |  8 +++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 80467a8..02c9f9f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,9 +27,10 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
-def load(path):
+def load(path, namespace=None):
     """
-    Loads and returns a component from a CGX file.
+    Loads and returns a component from a CGX file. The file is executed in the
+    given namespace (if any), which for instance is the `__dict__` of a module.
 
     A subclass of Component will be created from the CGX file
     where the contents of the <template> tag will be used as
@@ -55,10 +56,10 @@ def load(path):
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
     Load template from a string
     """
@@ -72,7 +73,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = {} if namespace is None else namespace
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..2858d6a 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,12 +34,10 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
-        # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
+        # Use the namespace of the module itself, such that __file__, __name__ and
+        # such are available to the loaded module, also while it is being executed
+        component, _ = cgx.load(self.cgx_path, namespace=module.__dict__)
 
-        module.__dict__.update(context)
         module.__dict__[component.__name__] = component
 
 
-- 
2.43.0


From 1e5e15ce3be4fff9b167d127dc077f8415561f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 28/69] fix: use siblings that are arranged by the parent as
 anchor, and keep dialogs that are moved

---
 collagraph/renderers/pyside_renderer.py | 33 ++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index b4d1cc2..91c0c05 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -313,6 +313,16 @@ class PySideRenderer(Renderer):
                 el.show()
             return
 
+        # Dialogs are not part of the widgets that the parent arranges, so the
+        # anchor needs to be the first sibling that is not a dialog
+        siblings = child_elements(parent)
+        index = len(siblings) if anchor is None else index_of(anchor, siblings)
+        siblings.insert(index, el)
+        anchor = next(
+            (x for x in siblings[index + 1 :] if not isinstance(x, QtWidgets.QDialog)),
+            None,
+        )
+
         if isinstance(el, QtWidgets.QDialog):
             el.setParent(parent, el.windowFlags())
             el.show()
@@ -326,12 +336,15 @@ class PySideRenderer(Renderer):
             el.close()
             return
 
+        siblings = child_elements(parent)
+        del siblings[index_of(el, siblings)]
+
         if isinstance(el, QtWidgets.QDialog):
-            # Hide the dialog to make sure it's not visible anymore
-            el.hide()
-            # Then mark the element for deletion, so that it won't trigger
+            # Hide the dialog to make sure it's not visible anymore. This won't trigger
             # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            el.hide()
+            # The dialog will be inserted again when it is moved
+            el.setParent(None, el.windowFlags())
             return
 
         parent.remove(el)
@@ -452,6 +465,18 @@ def create_instance(pyside_type):
     return pyside_type(*args, **kwargs)
 
 
+def child_elements(parent):
+    """Returns the list of elements that are inserted into the given parent."""
+    if not hasattr(parent, "_child_elements"):
+        parent._child_elements = []
+    return parent._child_elements
+
+
+def index_of(el, elements):
+    """Returns the index of element `el` within the elements."""
+    return next(idx for idx, item in enumerate(elements) if item is el)
+
+
 def normalize_name(name):
     """Transforms given name to lower case and removes underscores and dashes"""
     return name.lower().replace("_", "").replace("-", "")
-- 
2.43.0


From 0d1f204e54350f4dd6d8f4ccb6d2454cd2b5b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:31 +0000
Subject: [PATCH 29/69] fix: insert menus next to other menus and keep the
 content of menus that are moved

---
 collagraph/renderers/pyside/objects/menu.py    | 10 ++++++++--
 collagraph/renderers/pyside/objects/menubar.py |  7 ++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..2f8f54d 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -4,8 +4,14 @@ from PySide6.QtWidgets import QMenu
 from ... import PySideRenderer
 
 
+def action_for(el):
+    """Returns the action that represents the element within a menu (bar)"""
+    return el.menuAction() if isinstance(el, QMenu) else el
+
+
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    anchor = action_for(anchor)
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +32,7 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
+        # The menu will be inserted again (with its content) when it is moved
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..9d98a79 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -1,12 +1,13 @@
 from PySide6.QtWidgets import QMenu, QMenuBar
 
+from .menu import action_for
 from ... import PySideRenderer
 
 
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(action_for(anchor), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +22,7 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
+    # The menu will be inserted again (with its content) when it is moved
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    menu_action.setParent(el)
-- 
2.43.0


From d00db725b5e72f5444d9f4ed60f2b7abf89fc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 30/69] fix: insert next to, and remove widgets of toolbars

---
 collagraph/renderers/pyside/objects/toolbar.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..d2251f6 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -4,14 +4,26 @@ from PySide6.QtWidgets import QToolBar, QWidget
 from ... import PySideRenderer
 
 
+def action_for(el):
+    """Returns the action that represents the element within the toolbar"""
+    return el.toolbar_action if isinstance(el, QWidget) else el
+
+
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    anchor = action_for(anchor)
     if isinstance(el, QWidget):
+        if hasattr(el, "toolbar_action"):
+            # The widget has been moved: it is still owned by its action
+            self.insertAction(anchor, el.toolbar_action)
+            return
         if anchor is not None:
             action = self.insertWidget(anchor, el)
         else:
             action = self.addWidget(el)
         action.setParent(self)
+        el.toolbar_action = action
+        el.destroyed.connect(action.deleteLater)
     elif isinstance(el, QAction):
         if anchor is not None:
             self.insertAction(anchor, el)
@@ -26,4 +38,5 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        self.removeAction(el.toolbar_action)
         el.setParent(None)
-- 
2.43.0


From 704841c168537feff4de546449b6c959c2fb76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 31/69] fix: keep the order of tabs

---
 collagraph/renderers/pyside/objects/tab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..ccd0386 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,6 +8,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
     if index >= 0:
         self.insertTab(index, el, label)
     else:
-- 
2.43.0


From 9c0bd58aa1f563f8032e45c0b440c16d56a0ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 32/69] fix: take the widget out of scroll areas

---
 collagraph/renderers/pyside/objects/scrollarea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..51bb3fb 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,5 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From 010049966bbd9757047e09b80f6a61c36377ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 33/69] fix: remove buttons from dialog button boxes

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..2dde430 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,6 +18,12 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-- 
2.43.0


From 5bff5e146f20b50d38efecb95d20a8f995819aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 34/69] fix: keep the order of rows in forms and the children
 when the type of layout changes

---
 .../renderers/pyside/objects/layouts.py       | 51 ++++++++++++++++---
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..785a38a 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import child_elements, LAYOUT_MAPPING, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -42,6 +42,9 @@ def box_layout_insert(self, el, anchor=None):
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
+    elif anchor is not None:
+        row, _ = self.getWidgetPosition(anchor)
+        self.insertRow(row, el.form_label, el)
     else:
         self.addRow(el.form_label, el)
 
@@ -59,8 +62,14 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    take_row(self, el)
+    el.setParent(None)
+
+
+def take_row(layout, el):
+    """Takes the element out of the form layout, and deletes the label of the row"""
+    if label := layout.takeRow(el).labelItem:
+        label.widget().deleteLater()
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -83,26 +92,51 @@ def set_layout_attribute(self, attr, value):
 def set_layout_attr(self, attr, value):
     if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
         layout = self.layout()
+        children = []
         if isinstance(layout, layout_type):
             pass
         else:
             if layout:
+                children = [
+                    el for el in child_elements(self) if layout.indexOf(el) >= 0
+                ]
+                for el in children:
+                    layout.remove(el)
+                    if isinstance(layout, QStackedLayout):
+                        # All but the current one have been hidden by the layout
+                        el.setVisible(True)
                 QWidget().setLayout(layout)
             layout = PySideRenderer.create_object(value["type"].lower())
             self.setLayout(layout)
 
         for key, val in value.items():
             layout.set_attribute(key, val)
+
+        for el in children:
+            # Children without position will be added as soon as they have one
+            el.setParent(self)
+            if has_position(el, layout):
+                layout.insert(el)
     else:
         raise RuntimeError(f"No layout registered for type: {value['type']}")
 
 
+def has_position(el, layout):
+    """Returns whether the element can be inserted in the layout"""
+    if isinstance(layout, QGridLayout):
+        return hasattr(el, "grid_index")
+    if isinstance(layout, QFormLayout):
+        return hasattr(el, "form_label")
+    return True
+
+
 @PySideRenderer.register_custom_attribute("grid_index")
 def set_grid_index(self, attr, value):
     self.grid_index = value
     if parent := self.parent():
         layout = parent.layout()
-        layout.addWidget(self, *value)
+        if isinstance(layout, QGridLayout):
+            layout.addWidget(self, *value)
 
 
 @PySideRenderer.register_custom_attribute("form_label", "form_index")
@@ -110,7 +144,8 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        if isinstance(layout, QFormLayout) and hasattr(self, "form_label"):
+            row, _ = layout.getWidgetPosition(self)
+            if row >= 0:
+                take_row(layout, self)
+            layout.insertRow(getattr(self, "form_index", row), self.form_label, self)
-- 
2.43.0


From 5074141338f94463857b6698ac78afa27c81b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 35/69] fix: don't crash on removal of selection models

---
 collagraph/renderers/pyside/objects/listview.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..a8518c3 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -11,10 +11,15 @@ from ... import PySideRenderer
 def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None):
     if isinstance(el, QStandardItemModel):
         self.setModel(el)
+        if selection_model := getattr(self, "selection_model", None):
+            # The view creates a selection model of its own for each model
+            selection_model.setModel(el)
+            self.setSelectionModel(selection_model)
     elif isinstance(el, QItemSelectionModel):
         if model := self.model():
             el.setModel(model)
             self.setSelectionModel(el)
+            self.selection_model = el
         else:
             raise RuntimeError(
                 "Can't set a selection model because no item model was set (yet). "
@@ -30,7 +35,10 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        self.selection_model = None
+        if self.selectionModel() is el:
+            # Views can't be without selection model
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 242077f75dc4d77f42016fa7ffb44774fdd95eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 36/69] fix: show widgets that are moved within the status bar

---
 collagraph/renderers/pyside/objects/statusbar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/statusbar.py b/collagraph/renderers/pyside/objects/statusbar.py
index c63718d..2473590 100644
--- a/collagraph/renderers/pyside/objects/statusbar.py
+++ b/collagraph/renderers/pyside/objects/statusbar.py
@@ -20,10 +20,14 @@ def insert(self, el, anchor=None):
     else:
         self.addWidget(el)
     el.setParent(self)
+    # Widgets that are moved have been hidden by the status bar
+    if getattr(el, "shown", False):
+        el.show()
 
 
 @PySideRenderer.register_remove(QStatusBar)
 def remove(self, el):
+    el.shown = not el.isHidden()
     self.removeWidget(el)
     el.setParent(None)
 
-- 
2.43.0


From db65738e9539946ee9674b2acce4b9995be4ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 37/69] fix: keep the state of tree items that are moved

---
 .../pyside/objects/treewidgetitem.py          | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..02d9c51 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -19,6 +19,20 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
 
     # After mounting, process some attributes that can only
     # be adjusted when the item is mounted in the tree structure
+    restore_state(el)
+
+
+@PySideRenderer.register_remove(QTreeWidgetItem)
+def remove(self, el: QTreeWidgetItem):
+    # The item will be inserted again when it is moved
+    save_state(el)
+    self.removeChild(el)
+
+
+def restore_state(el):
+    for index in range(el.childCount()):
+        restore_state(el.child(index))
+
     if hasattr(el, "_expanded"):
         el.setExpanded(el._expanded)
         delattr(el, "_expanded")
@@ -28,9 +42,11 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
         delattr(el, "_selected")
 
 
-@PySideRenderer.register_remove(QTreeWidgetItem)
-def remove(self, el: QTreeWidgetItem):
-    self.removeChild(el)
+def save_state(el):
+    el._expanded = el.isExpanded()
+    el._selected = el.isSelected()
+    for index in range(el.childCount()):
+        save_state(el.child(index))
 
 
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
@@ -40,13 +56,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
+        if not self.treeWidget():
             self._expanded = value
         else:
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
+        if not self.treeWidget():
             self._selected = value
         else:
             self.setSelected(value)
-- 
2.43.0


From d54714b7c167fcc7a6136ae99e9aa6786eabbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 38/69] fix: remove handlers that are methods, and let them
 receive the arguments of the signal

---
 collagraph/renderers/pyside_renderer.py | 41 ++++++++-----------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 91c0c05..597ca51 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -78,10 +78,10 @@ class EventFilter(QtCore.QObject):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self._event_handlers = defaultdict(set)
+        self._event_handlers = defaultdict(list)
 
     def add_event_handler(self, event, handler):
-        self._event_handlers[event].add(handler)
+        self._event_handlers[event].append(handler)
 
     def remove_event_handler(self, event, handler):
         self._event_handlers[event].remove(handler)
@@ -405,28 +405,15 @@ class PySideRenderer(Renderer):
         # Try and get the signal from the object
         signal = getattr(el, signal_name, None)
         if signal and hasattr(signal, "connect"):
-            # Add a slots attribute to hold all the generated slots, keyed on event_type
+            # Add a slots attribute to hold all the connected values, keyed on
+            # event_type, because signals don't keep the object of bound methods alive
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
-
-            # Create a slot with the given value
-            # Note that the slot apparently does not need arguments to specify the type
-            # or amount of arguments the enclosed callback needs. If the callback has
-            # arguments, then those will be set to the parameter(s) of the signal when
-            # it is emitted.
-            try:
-                # Creating a slot of a bound method on an instance (that is not
-                # a QObject?) results in a SystemError. Lambdas though _can_ function
-                # as a slot, so when creating a slot of the value fails, retry with
-                # a simple lambda.
-                slot = QtCore.Slot()(value)
-            except SystemError:
-                # TODO: with some inspection we might be able to figure out the
-                # signature of the 'value' function and adjust the lambda accordingly
-                slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
-
-            signal.connect(slot)
+                el.slots = defaultdict(list)
+
+            # Note that the value can have less arguments than the signal: the value
+            # is called with as many parameters of the signal as it accepts.
+            signal.connect(value)
+            el.slots[event_type].append(value)
         else:
             if not hasattr(el, "_event_filter"):
                 el._event_filter = EventFilter()
@@ -445,12 +432,8 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
-                signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
-                break
+        signal.disconnect(value)
+        el.slots[event_type].remove(value)
 
 
 def not_implemented(self, *args, **kwargs):
-- 
2.43.0


From 41fc32c9b4b6328e992fd030f953d340a3873a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 39/69] fix: restore the default value of a new element when
 attributes are removed

---
 collagraph/renderers/pyside_renderer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 597ca51..fea0d6b 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -354,7 +354,7 @@ class PySideRenderer(Renderer):
 
     def set_attribute(self, el: Any, attr: str, value: Any):
         """Set the attribute `attr` of the element `el` to the value `value`."""
-        key = f"{type(el).__name__}.{attr}"
+        key = (type(el), attr)
         if key not in DEFAULT_VALUES:
             if not hasattr(el, "metaObject"):
                 logger.debug(f"{el} does not have metaObject")
@@ -365,7 +365,12 @@ class PySideRenderer(Renderer):
                 property_idx = meta_object.indexOfProperty(method_name)
                 if property_idx >= 0:
                     meta_property = meta_object.property(property_idx)
-                    result = meta_property.read(el)
+                    # The element might have been changed already (by the user or
+                    # through other attributes), so use the value of a new element
+                    result = meta_property.read(create_instance(type(el)))
+                    if attr == "visible":
+                        # Elements are not visible before they are mounted
+                        result = True
                     DEFAULT_VALUES[key] = (meta_property, result)
                 else:
                     logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
@@ -385,7 +390,7 @@ class PySideRenderer(Renderer):
                 delattr(el, attr)
                 return
 
-        key = f"{type(el).__name__}.{attr}"
+        key = (type(el), attr)
         if key in DEFAULT_VALUES:
             meta_property, default_value = DEFAULT_VALUES[key]
             meta_property.write(el, default_value)
-- 
2.43.0


From c4808b1582f18965fa2e593c5ad713ee2a79a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 40/69] fix: correct the name of the progressbar element

---
 collagraph/renderers/pyside_renderer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index fea0d6b..8b61e83 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -25,6 +25,7 @@ TYPE_MAPPING = {
     "radiobutton": QtWidgets.QRadioButton,
     "dialogbuttonbox": QtWidgets.QDialogButtonBox,
     "groupbox": QtWidgets.QGroupBox,
+    "progressbar": QtWidgets.QProgressBar,
     "progessbar": QtWidgets.QProgressBar,
     "scrollarea": QtWidgets.QScrollArea,
     "slider": QtWidgets.QSlider,
-- 
2.43.0


From dedaeee25320403d29dd88a992c6191da679524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 41/69] fix: replace the items of a combobox instead of adding
 them

---
 collagraph/renderers/pyside/objects/combobox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..15f6b89 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,11 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
-        self.addItems(value)
+        # Change the items in place to keep the current index
+        for index, text in enumerate(value[: self.count()]):
+            self.setItemText(index, text)
+        while self.count() > len(value):
+            self.removeItem(self.count() - 1)
+        self.addItems(value[self.count() :])
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From 9c9b11b112adafe776bdfaec35d57b31bb5c7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 42/69] fix: replace the buttons of a dialog button box instead
 of adding them

---
 .../pyside/objects/dialogbuttonbox.py         | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 2dde430..28efc4c 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -27,12 +27,19 @@ def remove(self, el):
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-        for flag in value:
-            flag = (
-                flag
-                if isinstance(flag, QDialogButtonBox.StandardButton)
-                else getattr(QDialogButtonBox, flag)
-            )
-            self.addButton(flag)
+        flags = [
+            flag
+            if isinstance(flag, QDialogButtonBox.StandardButton)
+            else getattr(QDialogButtonBox, flag)
+            for flag in value
+        ]
+        for button in self.buttons():
+            flag = self.standardButton(button)
+            if flag not in (QDialogButtonBox.NoButton, *flags):
+                self.removeButton(button)
+                button.deleteLater()
+        for flag in flags:
+            if not self.button(flag):
+                self.addButton(flag)
     else:
         widget_set_attribute(self, attr, value)
-- 
2.43.0


From 3e087ca26359bac349874171fe24499bddee5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 43/69] fix: clear columns that are not in the content of a
 tree item anymore

---
 collagraph/renderers/pyside/objects/treewidgetitem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 02d9c51..a2fabb6 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -57,6 +57,9 @@ def set_attribute(self, attr, value):
         return
     elif attr == "expanded":
         if not self.treeWidget():
+        for col in range(self.columnCount()):
+            if col not in value:
+                self.setText(col, "")
             self._expanded = value
         else:
             self.setExpanded(value)
-- 
2.43.0


From f796561b00b8e56a97a9fb54eded57c9920751b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 44/69] fix: hide tree items when they are mounted

---
 .../renderers/pyside/objects/treewidgetitem.py  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index a2fabb6..79fe08d 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -41,10 +41,15 @@ def restore_state(el):
         el.setSelected(el._selected)
         delattr(el, "_selected")
 
+    if hasattr(el, "_hidden"):
+        el.setHidden(el._hidden)
+        delattr(el, "_hidden")
+
 
 def save_state(el):
     el._expanded = el.isExpanded()
     el._selected = el.isSelected()
+    el._hidden = el.isHidden()
     for index in range(el.childCount()):
         save_state(el.child(index))
 
@@ -52,14 +57,14 @@ def save_state(el):
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
+        for col in range(self.columnCount()):
+            if col not in value:
+                self.setText(col, "")
         for col, data in value.items():
             self.setText(col, data)
         return
     elif attr == "expanded":
         if not self.treeWidget():
-        for col in range(self.columnCount()):
-            if col not in value:
-                self.setText(col, "")
             self._expanded = value
         else:
             self.setExpanded(value)
@@ -70,5 +75,11 @@ def set_attribute(self, attr, value):
         else:
             self.setSelected(value)
         return
+    elif attr == "hidden":
+        if not self.treeWidget():
+            self._hidden = value
+        else:
+            self.setHidden(value)
+        return
 
     qobject_set_attribute(self, attr, value)
-- 
2.43.0


From d4ddac29c35478fdaa766187fbec23f407094dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 45/69] fix: add toolbars to the given area

---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From 41029cc7e98bd4634b047418eb9e7cc0a1174a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 46/69] fix: apply changes of attributes that determine the
 place within the parent

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 8 ++++++++
 collagraph/renderers/pyside/objects/statusbar.py       | 8 ++++++++
 collagraph/renderers/pyside/objects/tab.py             | 9 +++++++++
 collagraph/renderers/pyside/objects/window.py          | 8 ++++++++
 4 files changed, 33 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 28efc4c..561a17c 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -4,6 +4,14 @@ from .widget import set_attribute as widget_set_attribute
 from ... import PySideRenderer
 
 
+@PySideRenderer.register_custom_attribute("role")
+def set_role(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(parent := self.parent(), QDialogButtonBox):
+        # Move the button to the place for its role
+        parent.insert(self)
+
+
 @PySideRenderer.register_insert(QDialogButtonBox)
 def insert(self, el, anchor=None):
     if hasattr(el, "role"):
diff --git a/collagraph/renderers/pyside/objects/statusbar.py b/collagraph/renderers/pyside/objects/statusbar.py
index 2473590..7d89bfc 100644
--- a/collagraph/renderers/pyside/objects/statusbar.py
+++ b/collagraph/renderers/pyside/objects/statusbar.py
@@ -4,6 +4,14 @@ from . import widget
 from ... import PySideRenderer
 
 
+@PySideRenderer.register_custom_attribute("permanent")
+def set_permanent(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(parent := self.parent(), QStatusBar):
+        parent.remove(self)
+        parent.insert(self)
+
+
 @PySideRenderer.register_insert(QStatusBar)
 def insert(self, el, anchor=None):
     # TODO: support for anchor
diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index ccd0386..6591e61 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -3,6 +3,15 @@ from PySide6.QtWidgets import QTabWidget, QWidget
 from ... import PySideRenderer
 
 
+@PySideRenderer.register_custom_attribute("tab_label")
+def set_tab_label(self, attr, value):
+    self.set_attribute(attr, value)
+    # The pages are children of the stacked widget within the tab widget
+    if stack := self.parent():
+        if isinstance(tabs := stack.parent(), QTabWidget):
+            tabs.setTabText(tabs.indexOf(self), value)
+
+
 @PySideRenderer.register_insert(QTabWidget)
 def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index 851a902..77bd2db 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -3,6 +3,14 @@ from PySide6.QtWidgets import QDockWidget, QMainWindow, QMenuBar, QStatusBar, QT
 from ... import PySideRenderer
 
 
+@PySideRenderer.register_custom_attribute("area")
+def set_area(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(parent := self.parent(), QMainWindow):
+        # Move the dock widget or toolbar to the other area
+        parent.insert(self)
+
+
 @PySideRenderer.register_insert(QMainWindow)
 def insert(self, el, anchor=None):
     # If the parent is a QMainWindow, then depending on the
-- 
2.43.0


From 1df16eacf91eb70397625662b7be6e0d5a0ba7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 47/69] fix: take default values of pygfx attributes from a new
 object

---
 collagraph/renderers/pygfx_renderer.py | 56 ++++++++++++++------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index 5e259d3..8903870 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -4,6 +4,8 @@ from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
+# Marks attributes that do not exist until they are set
+NO_DEFAULT = object()
 
 
 class PygfxRenderer(Renderer):
@@ -42,43 +44,45 @@ class PygfxRenderer(Renderer):
         raise NotImplementedError
 
     def set_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
-
-        # Split the given attr on dots to allow for
-        # local.position for instance to be set
-        *attrs, attr = attr.split(".")
-        for attribute in attrs:
-            obj = getattr(obj, attribute)
-
+        key = (type(obj), attr)
         if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
-                if hasattr(default_value, "copy"):
-                    DEFAULT_ATTR_CACHE[key] = default_value.copy()
-                else:
-                    DEFAULT_ATTR_CACHE[key] = default_value
+            DEFAULT_ATTR_CACHE[key] = self._default_value(obj, attr)
 
+        obj, attr = self._resolve(obj, attr)
         setattr(obj, attr, value)
 
     def remove_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        default_value = DEFAULT_ATTR_CACHE.get((type(obj), attr), NO_DEFAULT)
 
+        obj, attr = self._resolve(obj, attr)
+        if default_value is not NO_DEFAULT:
+            if hasattr(default_value, "copy"):
+                default_value = default_value.copy()
+            setattr(obj, attr, default_value)
+        elif value is not None or attr in getattr(obj, "__dict__", ()):
+            # Attributes that are None from the start have never been set
+            delattr(obj, attr)
+
+    def _resolve(self, obj, attr):
         # Split the given attr on dots to allow for
         # local.position for instance to be set
         *attrs, attr = attr.split(".")
         for attribute in attrs:
             obj = getattr(obj, attribute)
-
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
-            if hasattr(default_value, "copy"):
-                val = default_value.copy()
-            else:
-                val = default_value
-            setattr(obj, attr, val)
-        elif value is not None or attr in getattr(obj, "__dict__", ()):
-            # Attributes that are None from the start have never been set
-            delattr(obj, attr)
+        return obj, attr
+
+    def _default_value(self, obj, attr):
+        # The object at hand might already have been changed (by this or
+        # by other attributes), so use a new object if that is possible
+        try:
+            owner, name = self._resolve(type(obj)(), attr)
+        except (AttributeError, TypeError):
+            owner, name = self._resolve(obj, attr)
+
+        default_value = getattr(owner, name, NO_DEFAULT)
+        if hasattr(default_value, "copy"):
+            default_value = default_value.copy()
+        return default_value
 
     def add_event_listener(self, el, event_type, value):
         el.add_event_handler(value, event_type)
-- 
2.43.0


From 15c9c9b373e6999a49e3a7176c594c1c760356f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 48/69] fix: apply registrations to types that have been
 created before

---
 collagraph/renderers/pyside_renderer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 8b61e83..c22dd1c 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -136,6 +136,7 @@ class PySideRenderer(Renderer):
             raise TypeError(f"Specified type '{typ}' not a subclass of QWidget")
 
         TYPE_MAPPING[type_name] = typ
+        clear_type_caches()
 
     @classmethod
     def register_layout(cls, layout_name, typ=None):
@@ -159,6 +160,7 @@ class PySideRenderer(Renderer):
             raise TypeError(f"Specified type '{typ}' not a subclass of QLayout")
 
         LAYOUT_MAPPING[layout_name] = typ
+        clear_type_caches()
 
     @classmethod
     def register_custom_attribute(cls, *names, func=None):
@@ -200,6 +202,7 @@ class PySideRenderer(Renderer):
 
             INSERT_MAPPING.append((t, func))
             INSERT_MAPPING.sort(key=class_hierarchy)
+        clear_type_caches()
 
     @classmethod
     def register_remove(cls, *types, func=None):
@@ -224,6 +227,7 @@ class PySideRenderer(Renderer):
 
             REMOVE_MAPPING.append((t, func))
             REMOVE_MAPPING.sort(key=class_hierarchy)
+        clear_type_caches()
 
     @classmethod
     def register_set_attr(cls, *typ, func=None):
@@ -248,6 +252,7 @@ class PySideRenderer(Renderer):
 
             SET_ATTR_MAPPING.append((t, func))
             SET_ATTR_MAPPING.sort(key=class_hierarchy)
+        clear_type_caches()
 
     def create_element(self, type_name: str) -> Any:
         """Create an element for the given type."""
@@ -454,6 +459,12 @@ def create_instance(pyside_type):
     return pyside_type(*args, **kwargs)
 
 
+def clear_type_caches():
+    """Makes sure that (new) registrations apply to all elements to be created"""
+    name_to_type.cache_clear()
+    WRAPPED_TYPES.clear()
+
+
 def child_elements(parent):
     """Returns the list of elements that are inserted into the given parent."""
     if not hasattr(parent, "_child_elements"):
-- 
2.43.0


From 5a4cec76e6d0debddc832e7e5ea78f239229882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 49/69] fix: look up names of nested types of PySide6

---
 collagraph/renderers/pyside_renderer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index c22dd1c..af4719f 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -500,13 +500,13 @@ def name_to_type(name, modules=None, orig=None):
     'QBoxLayout.Direction.TopToBottom'. As long as the name can
     be found in the QtWidget, QtGui, QtCore or QtCore.Qt module.
     """
-    normalized_name = normalize_name(name)
-    if normalized_name in TYPE_MAPPING:
-        return TYPE_MAPPING[normalized_name]
-    if normalized_name in LAYOUT_MAPPING:
-        return LAYOUT_MAPPING[normalized_name]
     if modules is None:
-        modules = [QtWidgets, QtGui, QtCore, QtCore.Qt]
+        normalized_name = normalize_name(name)
+        if normalized_name in TYPE_MAPPING:
+            return TYPE_MAPPING[normalized_name]
+        if normalized_name in LAYOUT_MAPPING:
+            return LAYOUT_MAPPING[normalized_name]
+        modules = (QtWidgets, QtGui, QtCore, QtCore.Qt)
     parts = name.split(".")
     for module in modules:
         # Try the get the attribute as-is from the module
@@ -523,7 +523,7 @@ def name_to_type(name, modules=None, orig=None):
         if element_class is not None:
             if len(parts) > 1:
                 return name_to_type(
-                    ".".join(parts[1:]), modules=[element_class], orig=name
+                    ".".join(parts[1:]), modules=(element_class,), orig=name
                 )
             return element_class
 
-- 
2.43.0


From 7f2e00b59c10ac89050c05d9001930d9bd6f0e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 50/69] fix: look up layouts by their registered names and
 exact types

---
 .../renderers/pyside/objects/layouts.py       |  8 +++---
 collagraph/renderers/pyside/objects/widget.py |  2 +-
 collagraph/renderers/pyside_renderer.py       | 26 ++++++++++++++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 785a38a..5450044 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import child_elements, LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import child_elements, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -90,10 +90,10 @@ def set_layout_attribute(self, attr, value):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    if layout_type := PySideRenderer.layout_type(value["type"]):
         layout = self.layout()
         children = []
-        if isinstance(layout, layout_type):
+        if type(layout) is layout_type:
             pass
         else:
             if layout:
@@ -106,7 +106,7 @@ def set_layout_attr(self, attr, value):
                         # All but the current one have been hidden by the layout
                         el.setVisible(True)
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_layout(value["type"])
             self.setLayout(layout)
 
         for key, val in value.items():
diff --git a/collagraph/renderers/pyside/objects/widget.py b/collagraph/renderers/pyside/objects/widget.py
index 0b11441..6de091a 100644
--- a/collagraph/renderers/pyside/objects/widget.py
+++ b/collagraph/renderers/pyside/objects/widget.py
@@ -19,7 +19,7 @@ def insert(self, el, anchor=None):
     # The layout might not exist yet, so let's create a default QBoxLayout.
     layout = self.layout()
     if not layout:
-        layout = PySideRenderer.create_object("box")
+        layout = PySideRenderer.create_layout("box")
         self.setLayout(layout)
 
     layout.insert(el, anchor=anchor)
diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index af4719f..5888597 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -267,14 +267,28 @@ class PySideRenderer(Renderer):
     @classmethod
     def create_object(cls, type_name: str) -> Any:
         """Create an element for the given type."""
+        return create_instance(cls.wrapped_type(type_name, name_to_type(type_name)))
+
+    @classmethod
+    def layout_type(cls, layout_name: str) -> Any:
+        """Returns the (wrapped) type for the name of the layout, or None"""
+        if original_type := LAYOUT_MAPPING.get(normalize_name(layout_name)):
+            return cls.wrapped_type(normalize_name(layout_name), original_type)
+
+    @classmethod
+    def create_layout(cls, layout_name: str) -> Any:
+        """Create a layout for the given name."""
+        return create_instance(cls.layout_type(layout_name))
+
+    @classmethod
+    def wrapped_type(cls, type_name: str, original_type: Any) -> Any:
         # Create dynamic subclasses which implement `insert`, `set_attribute`
         # and `remove` methods.
         # The generated types are cached in WRAPPED_TYPES so they only have
         # to be generated once and can be used in equality comparisons
-        if type_name in WRAPPED_TYPES:
-            return create_instance(WRAPPED_TYPES[type_name])
-
-        original_type = name_to_type(type_name)
+        cache_key = (type_name, original_type)
+        if cache_key in WRAPPED_TYPES:
+            return WRAPPED_TYPES[cache_key]
 
         attrs = {}
         maps = {
@@ -292,11 +306,11 @@ class PySideRenderer(Renderer):
 
         # Create the new type with the new methods
         wrapped_type = type(type_name, (original_type,), attrs)
-        WRAPPED_TYPES[type_name] = wrapped_type
+        WRAPPED_TYPES[cache_key] = wrapped_type
         # Update the default arguments map with the new wrapped type
         DEFAULT_ARGS[wrapped_type] = DEFAULT_ARGS.get(original_type, ((), {}))
 
-        return create_instance(WRAPPED_TYPES[type_name])
+        return wrapped_type
 
     def create_text_element(self):
         raise NotImplementedError
-- 
2.43.0


From bcafc120abcfd697f6e32ce900ae31f8323be5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 51/69] fix: release removed tabs

---
 collagraph/renderers/pyside/objects/tab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 6591e61..6d0f953 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -31,3 +31,4 @@ def remove(self, el: QWidget):
     index = self.indexOf(el)
     if index >= 0:
         self.removeTab(index)
+        el.setParent(None)
-- 
2.43.0


From bef75c086109e3ac7153b1f453ac0f7d10df4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 52/69] fix: release removed menus

---
 collagraph/renderers/pyside/objects/menu.py    | 6 ++----
 collagraph/renderers/pyside/objects/menubar.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 2f8f54d..5de9b66 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -13,10 +13,8 @@ def action_for(el):
 def insert(self, el, anchor=None):
     anchor = action_for(anchor)
     if isinstance(el, QMenu):
-        if anchor is not None:
-            action = self.insertMenu(anchor, el)
-        else:
-            action = self.addMenu(el)
+        action = el.menuAction()
+        self.insertAction(anchor, action)
         action.setParent(self.menuAction())
     elif isinstance(el, QAction):
         if anchor is not None:
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 9d98a79..0c6b8ae 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,10 +6,8 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
-    if anchor is not None:
-        action = self.insertMenu(action_for(anchor), el)
-    else:
-        action = self.addMenu(el)
+    action = el.menuAction()
+    self.insertAction(anchor and anchor.menuAction(), action)
     # Use the window property of the menubar to set
     # the parent of the action. Instead of keeping
     # a hierarchy of widgets, instead the hierarchy
-- 
2.43.0


From 0fe116fd666f517a49fc225f893773da2c334cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 53/69] fix: release the actions of removed toolbars

---
 collagraph/renderers/pyside/objects/toolbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index d2251f6..a4722d3 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -29,7 +29,7 @@ def insert(self, el, anchor=None):
             self.insertAction(anchor, el)
         else:
             self.addAction(el)
-        el.setParent(self.window())
+        el.setParent(self)
 
 
 @PySideRenderer.register_remove(QToolBar)
-- 
2.43.0


From cb6feace0f7f86d6fdf620a16132c59d03e3bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 54/69] fix: delete unused selection models of views

---
 .../renderers/pyside/objects/listview.py      | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index a8518c3..a4101d3 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -7,18 +7,39 @@ from PySide6.QtWidgets import QListView, QTableView, QTreeView
 from ... import PySideRenderer
 
 
+def set_model(view, model):
+    """Sets the model for the view. The view creates a new selection model"""
+    old = view.selectionModel()
+    view.setModel(model)
+    release(view, old)
+
+
+def set_selection_model(view, selection_model):
+    old = view.selectionModel()
+    view.setSelectionModel(selection_model)
+    release(view, old)
+
+
+def release(view, selection_model):
+    """Delete the selection model if it is not used anymore, which views don't do"""
+    # NOTE: the type of selection models that are elements is a subclass
+    is_element = type(selection_model) is not QItemSelectionModel
+    if selection_model is not view.selectionModel() and not is_element:
+        selection_model.deleteLater()
+
+
 @PySideRenderer.register_insert(QListView, QTableView, QTreeView)
 def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None):
     if isinstance(el, QStandardItemModel):
-        self.setModel(el)
+        set_model(self, el)
         if selection_model := getattr(self, "selection_model", None):
             # The view creates a selection model of its own for each model
             selection_model.setModel(el)
-            self.setSelectionModel(selection_model)
+            set_selection_model(self, selection_model)
     elif isinstance(el, QItemSelectionModel):
         if model := self.model():
             el.setModel(model)
-            self.setSelectionModel(el)
+            set_selection_model(self, el)
             self.selection_model = el
         else:
             raise RuntimeError(
@@ -33,12 +54,12 @@ def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None
 @PySideRenderer.register_remove(QListView, QTableView, QTreeView)
 def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
-        self.setModel(None)
+        set_model(self, None)
     elif isinstance(el, QItemSelectionModel):
         self.selection_model = None
         if self.selectionModel() is el:
             # Views can't be without selection model
-            self.setSelectionModel(QItemSelectionModel(self.model(), self))
+            set_selection_model(self, QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 7e11caa010568011719202514ec6ca214fca6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 55/69] fix: only offer available renderers on the command line

---
 collagraph/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..a5ac7b1 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import importlib
 import json
 from pathlib import Path
 
@@ -17,11 +16,10 @@ def available_renderers():
         # TODO: add support for DomRenderer
         # "DomRenderer": "dom",
     }.items():
-        try:
-            importlib.import_module("collagraph", renderer_type)
+        # Renderers are only part of the package when
+        # their dependencies are available
+        if hasattr(cg, renderer_type):
             result.add(name)
-        except ImportError:
-            continue
     return result
 
 
-- 
2.43.0


From 60484ef77f53f3c85746e3e5b1ad16b98e44d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 56/69] fix: accept long json strings as state on the command
 line

---
 collagraph/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index a5ac7b1..16c8d48 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -86,7 +86,13 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # For instance when the json string is too long for a file name
+        is_file = False
+
+    if is_file:
         with path.open(mode="r", encoding="utf-8") as fh:
             try:
                 return json.load(fh)
-- 
2.43.0


From bfa4decfc990e4140e205541f85b41ac216024f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 57/69] fix: setup of camera and controls for pygfx on the
 command line

---
 collagraph/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 16c8d48..9529250 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -35,15 +35,15 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
         wgpu_renderer = gfx.renderers.WgpuRenderer(canvas)
 
         camera = gfx.PerspectiveCamera(70, 16 / 9)
-        camera.position.z = 15
+        camera.local.z = 15
+        camera.show_pos((0, 0, 0))
 
-        controls = gfx.OrbitController(camera.position.clone())
-        controls.add_default_event_handlers(wgpu_renderer, camera)
+        controls = gfx.OrbitController(camera)
+        controls.register_events(wgpu_renderer)
 
         container = gfx.Scene()
 
         def animate():
-            controls.update_camera(camera)
             wgpu_renderer.render(container, camera)
 
         gui = cg.Collagraph(renderer=cg.PygfxRenderer())
-- 
2.43.0


From c32f7ba891f2e40e72b61c6129ebd03476faba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 58/69] fix: read cgx files as utf-8, independent of the locale

---
 collagraph/__pyinstaller/hook-collagraph.py | 2 +-
 collagraph/cgx/cgx.py                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ce32924..ea34542 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -25,7 +25,7 @@ def collect_hidden_imports(folder):
 
     hidden_imports = set()
     for path in folder.glob("**/*.cgx"):
-        template = path.read_text()
+        template = path.read_text(encoding="utf-8")
         # Parse the file component into a tree of Node instances
         parser = CGXParser()
         parser.feed(template)
diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 02c9f9f..6bdc0d1 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -54,7 +54,7 @@ def load(path, namespace=None):
         </script>
 
     """
-    template = path.read_text()
+    template = path.read_text(encoding="utf-8")
 
     return load_from_string(template, path, namespace)
 
@@ -95,7 +95,7 @@ def construct_ast(path, template=None):
     class definition as `render` function.
     """
     if not template:
-        template = Path(path).read_text()
+        template = Path(path).read_text(encoding="utf-8")
 
     # Parse the file component into a tree of Node instances
     parser = CGXParser()
-- 
2.43.0


From 74912db4748832c02f42ab74e4e0c7e27fdc28fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 59/69] fix: resolve relative imports in the PyInstaller hook

---
 collagraph/__pyinstaller/hook-collagraph.py | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ea34542..abe53fc 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -1,4 +1,5 @@
 import ast
+from importlib.util import resolve_name
 from pathlib import Path
 
 from PyInstaller.utils.hooks import collect_data_files
@@ -13,14 +14,16 @@ def hook(hook_api):
     datas = []
     for package, code in collagraph_uses.items():
         filename = Path(code.co_filename)
-        hidden_imports |= collect_hidden_imports(filename.parent)
+        # Name of the package which is made from the folder (empty for scripts)
+        parent = package if filename.stem == "__init__" else package.rpartition(".")[0]
+        hidden_imports |= collect_hidden_imports(filename.parent, parent)
         datas += collect_data_files(package, includes=["**/*.cgx"])
 
     hook_api.add_imports(*hidden_imports)
     hook_api.add_datas(datas)
 
 
-def collect_hidden_imports(folder):
+def collect_hidden_imports(folder, package=""):
     folder = Path(folder)
 
     hidden_imports = set()
@@ -35,7 +38,8 @@ def collect_hidden_imports(folder):
 
         # Find a list of imported names (or aliases, if any)
         # Those names don't have to be wrapped by `_lookup`
-        imported_names = ImportsCollector()
+        sub_packages = path.parent.relative_to(folder).parts
+        imported_names = ImportsCollector(".".join(filter(None, [package, *sub_packages])))
         imported_names.visit(script_tree)
 
         hidden_imports |= imported_names.names
@@ -44,13 +48,21 @@ def collect_hidden_imports(folder):
 
 
 class ImportsCollector(ast.NodeVisitor):
-    def __init__(self):
+    def __init__(self, package=""):
+        self.package = package
         self.names = set()
 
     def visit_ImportFrom(self, node):
+        # Resolve relative imports to the full name
+        name = "." * node.level + (node.module or "")
+        try:
+            module = resolve_name(name, self.package)
+        except ImportError:
+            # Can't be imported either when running without PyInstaller
+            return
         for alias in node.names:
-            self.names.add(".".join([node.module, alias.name]))
-        self.names.add(node.module)
+            self.names.add(".".join([module, alias.name]))
+        self.names.add(module)
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From 1d583a7d1cdba8f2c6780972df6ab1aad28a5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 60/69] fix: message for component files with names that are
 too long

---
 collagraph/__main__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 9529250..8f674f7 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import os.path
 from pathlib import Path
 
 from observ import reactive
@@ -75,7 +76,7 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
 
 def existing_component_file(value):
     path = Path(value)
-    if not path.exists():
+    if not os.path.exists(path):
         raise argparse.ArgumentTypeError(f"{value} does not exist")
     if not path.is_file():
         raise argparse.ArgumentTypeError(f"{value} is not a file")
@@ -86,13 +87,9 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    try:
-        is_file = path.is_file()
-    except OSError:
-        # For instance when the json string is too long for a file name
-        is_file = False
-
-    if is_file:
+    # NOTE: `Path.is_file` raises an error when the (json) string is not
+    # suited as file name, for instance because it is too long
+    if os.path.isfile(path):
         with path.open(mode="r", encoding="utf-8") as fh:
             try:
                 return json.load(fh)
-- 
2.43.0


From 9b3cd51543b91ee275c2f94b107d9c9a3c47d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 61/69] fix: hide dialogs within elements that are removed

---
 collagraph/renderers/pyside_renderer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 5888597..bba3180 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -325,6 +325,12 @@ class PySideRenderer(Renderer):
         Use the `autoshow` attribute on the renderer to configure whether to
         show these wdigets automatically.
         """
+        # Dialogs that were hidden because the element has been removed (to be moved)
+        for dialog in child_dialogs(el):
+            if getattr(dialog, "_hidden_by_parent", False):
+                dialog._hidden_by_parent = False
+                dialog.show()
+
         if isinstance(parent, QtWidgets.QApplication):
             # If the parent is a QApplication, then there is
             # no real parent to add it to, so let's just show the
@@ -352,6 +358,13 @@ class PySideRenderer(Renderer):
 
     def remove(self, el: Any, parent: Any):
         """Remove the element `el` from the children of the element `parent`."""
+        # Dialogs are windows of their own, so they are not hidden by Qt when
+        # their parent is hidden
+        for dialog in child_dialogs(el):
+            if dialog.isVisible():
+                dialog._hidden_by_parent = True
+                dialog.hide()
+
         if isinstance(parent, QtWidgets.QApplication):
             el.close()
             return
@@ -486,6 +499,14 @@ def child_elements(parent):
     return parent._child_elements
 
 
+def child_dialogs(el):
+    """Yields all the dialogs within (the children of) the given element."""
+    for child in getattr(el, "_child_elements", ()):
+        if isinstance(child, QtWidgets.QDialog):
+            yield child
+        yield from child_dialogs(child)
+
+
 def index_of(el, elements):
     """Returns the index of element `el` within the elements."""
     return next(idx for idx, item in enumerate(elements) if item is el)
-- 
2.43.0


From e2e00bbe6e9bffd0e4a178e0f3b45ee50c461474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 62/69] fix: colons in the names of attributes, events and
 slots of templates

---
 collagraph/cgx/cgx.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 6bdc0d1..490939b 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,7 +345,8 @@ def convert_node_to_args(node, *, names=None):
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
                 )
             else:
-                _, key = key.split(":")
+                # Names of attributes can contain colons as well
+                _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
@@ -354,7 +355,7 @@ def convert_node_to_args(node, *, names=None):
 
         if key.startswith((DIRECTIVE_ON, "@")):
             split_char = "@" if key.startswith("@") else ":"
-            _, key = key.split(split_char)
+            _, key = key.split(split_char, 1)
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
@@ -445,9 +446,10 @@ def convert_node_to_args(node, *, names=None):
 
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                if slot_name == "v-slot":
-                    slot_name = "default"
+                if attr.startswith("#"):
+                    slot_name = attr[1:]
+                else:
+                    slot_name = attr.partition(":")[2] or "default"
                 slots[slot_name] = child
 
         if not directive:
-- 
2.43.0


From d7ee656064abc7ac9fa38a04e93be10b79d81bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 63/69] fix: only treat names that are imported by the module
 as imported in templates

---
 collagraph/cgx/cgx.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 490939b..bb90c38 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -780,7 +780,14 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # Note that `import a.b` defines the name `a`
+            self.names.add(alias.asname or alias.name.partition(".")[0])
+
+    def visit_scope(self, node):
+        """Names that are imported by functions or within classes can't be
+        accessed by the template."""
+
+    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = visit_scope
 
 
 class TextElement:
-- 
2.43.0


From decfe94eb52cae7baff85152d0ae9b61f9898755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 64/69] fix: only remove one row when items of the same row are
 removed

---
 collagraph/renderers/pyside/objects/standarditem.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 2565a1f..9df2907 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -26,16 +26,8 @@ def insert(self, el, anchor=None):
 
 @PySideRenderer.register_remove(QStandardItem)
 def remove(self, el):
-    if hasattr(el, "model_index"):
-        # Only support removal of rows for now
-        row, column = getattr(el, "model_index")
-        if model := el.model():
-            index = model.indexFromItem(el)
-            row = index.row()
-
-        self.takeRow(row)
-        return
-
+    # Only support removal of rows for now. Nothing happens when the row has been
+    # removed already (then it's -1), together with another item of that row
     self.takeRow(el.row())
 
 
-- 
2.43.0


From 7e1bd1879732bbbb0c870bb20e9f4bf86dac425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 65/69] fix: put tabs in place when their tab_index changes

---
 collagraph/renderers/pyside/objects/tab.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 6d0f953..07c61d1 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -6,10 +6,23 @@ from ... import PySideRenderer
 @PySideRenderer.register_custom_attribute("tab_label")
 def set_tab_label(self, attr, value):
     self.set_attribute(attr, value)
+    if tabs := tab_widget(self):
+        tabs.setTabText(tabs.indexOf(self), value)
+
+
+@PySideRenderer.register_custom_attribute("tab_index")
+def set_tab_index(self, attr, value):
+    self.set_attribute(attr, value)
+    if tabs := tab_widget(self):
+        tabs.tabBar().moveTab(tabs.indexOf(self), value)
+
+
+def tab_widget(page):
+    """Returns the tab widget of the page (if any)"""
     # The pages are children of the stacked widget within the tab widget
-    if stack := self.parent():
+    if stack := page.parent():
         if isinstance(tabs := stack.parent(), QTabWidget):
-            tabs.setTabText(tabs.indexOf(self), value)
+            return tabs
 
 
 @PySideRenderer.register_insert(QTabWidget)
-- 
2.43.0


From cb3ac7629074106e6c22a50bf6b38e2d8cbd61b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 66/69] fix: notify computed expressions before the watchers
 that use them

---
 collagraph/collagraph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index f248d2f..c703a97 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -8,7 +8,7 @@ from typing import Any, Callable, Dict, Iterable, List, Optional
 from observ import reactive, scheduler, to_raw
 from observ.dep import Dep
 from observ.proxy import Proxy
-from observ.watcher import Watcher
+from observ.watcher import _ids, Watcher
 
 from .compare import equivalent_functions
 from .renderers import Renderer
@@ -44,6 +44,15 @@ class NotifyChangeWatcher(Watcher):
             return
         self.callback()
 
+    def get(self):
+        """Evaluates the watched expression.
+
+        Watchers are notified in order of their ids, so the computed expressions that
+        are used (and might have been created by now) will be notified before this one."""
+        value = super().get()
+        self.id = next(_ids)
+        return value
+
 
 def watch(fn, cb, lazy=False, deep=False, **kwargs):
     """Create custom watcher for the given expression: fn.
-- 
2.43.0


From da07d34e88d763b1bd07fbf8e642b066bbf8556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 67/69] fix: don't take folders for cgx files

---
 collagraph/cgx/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index 2858d6a..f0022e8 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -23,7 +23,7 @@ class CgxImporter:
         directories = sys.path if path is None else path
         for directory in directories:
             cgx_path = pathlib.Path(directory) / cgx_file_name
-            if cgx_path.exists():
+            if cgx_path.is_file():
                 spec = ModuleSpec(name, cls(cgx_path), origin=str(cgx_path))
                 spec.has_location = True
                 return spec
-- 
2.43.0


From da09f6d99131f6daa42044fe43b9d93e4f371c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 68/69] fix: give imported cgx modules an absolute path

---
 collagraph/cgx/importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index f0022e8..2645a16 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -22,7 +22,8 @@ class CgxImporter:
         cgx_file_name = f"{module_name}.{cgx.SUFFIX}"
         directories = sys.path if path is None else path
         for directory in directories:
-            cgx_path = pathlib.Path(directory) / cgx_file_name
+            # Relative directories depend on the current working directory
+            cgx_path = pathlib.Path(directory).absolute() / cgx_file_name
             if cgx_path.is_file():
                 spec = ModuleSpec(name, cls(cgx_path), origin=str(cgx_path))
                 spec.has_location = True
-- 
2.43.0


From 81bc6e7cb77fbdccd76323f519974fa5087506b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:45 +0000
Subject: [PATCH 69/69] fix: move elements into grid and form layouts before
 they have a position

---
 collagraph/renderers/pyside/objects/layouts.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 5450044..95d92d6 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -40,6 +40,10 @@ def box_layout_insert(self, el, anchor=None):
 
 @PySideRenderer.register_insert(QFormLayout)
 def form_insert(self, el, anchor=None):
+    if not has_position(el, self):
+        # Elements that are moved can get their label afterwards
+        return
+
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
     elif anchor is not None:
@@ -51,6 +55,10 @@ def form_insert(self, el, anchor=None):
 
 @PySideRenderer.register_insert(QGridLayout)
 def grid_insert(self, el, anchor=None):
+    if not has_position(el, self):
+        # Elements that are moved can get their position afterwards
+        return
+
     self.addWidget(el, *el.grid_index)
 
 
-- 
2.43.0

