From fed4293a6e171dc3158772707b423431daf8e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 01/35] fix: keep the set of modules seen by repr per thread
 and reset it when a repr fails

---
 nnx/module.py  | 28 ++++++++++++++++------------
 nnx/reprlib.py | 10 ++++++++--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..791add8 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -375,7 +376,12 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+@dataclasses.dataclass
+class _SeenModulesRepr(threading.local):
+  modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+SEEN_MODULES_REPR = _SeenModulesRepr()
 
 ModuleStateTuple = tuple[bool]
 
@@ -471,22 +477,20 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return hash(self._module__state.id)
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if SEEN_MODULES_REPR.modules is None:
+      SEEN_MODULES_REPR.modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
-      yield reprlib.Object(type=type(self), empty_repr="...")
-      return
+    try:
+      if self._module__state.id in SEEN_MODULES_REPR.modules:
+        yield reprlib.Object(type=type(self), empty_repr="...")
+        return
 
-    yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+      yield reprlib.Object(type=type(self))
+      SEEN_MODULES_REPR.modules.add(self._module__state.id)
 
-    try:
       for name, value in vars(self).items():
         if isinstance(value, Module) or (
             not nodes.is_node(value) and not name.startswith("_")
@@ -494,7 +498,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        SEEN_MODULES_REPR.modules = None
 
   @property
   def init(self: M) -> M:
diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..4e21c93 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -76,8 +76,14 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+  try:
+    with add_indent(config.elem_indent):
+      elems = list(map(_repr_elem, iterator))
+  finally:
+    # if an element failed, run the cleanup of the iterator now and not when the
+    # traceback that refers to it is eventually discarded
+    if hasattr(iterator, "close"):
+      iterator.close()
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From 7de480cdbf9e56c9606478c057dddfff741cacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/35] fix: give copied modules their own identity and the
 current trace level

---
 nnx/module.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 791add8..ab5b055 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,3 +1,4 @@
+import copy
 import dataclasses
 import threading
 import typing as tp
@@ -409,6 +410,14 @@ class ModuleState(reprlib.Representable):
   def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
     return cls(*tup)
 
+  def __copy__(self) -> "ModuleState":
+    # a copy is a new object with its own identity at the current trace level
+    return ModuleState.from_tuple(self.to_tuple())
+
+  def __deepcopy__(self, memo) -> "ModuleState":
+    del memo
+    return copy.copy(self)
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
@@ -476,6 +485,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self))
+    vars(module)["_module__state"] = copy.copy(self._module__state)
+    return module
+
   def __nnx_repr__(self):
     if SEEN_MODULES_REPR.modules is None:
       SEEN_MODULES_REPR.modules = set()
-- 
2.43.0


From ecef6b2253b768a594713cf507a14d72d9df2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 03/35] fix: refuse attribute deletion and pop_state from a
 different trace level

---
 nnx/module.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index ab5b055..d442810 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -470,6 +470,15 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      self._delattr(name)
+
+  def _delattr(self, name: str) -> None:
+    if not self._module__state.trace_state.is_valid():
+      raise errors.TraceContextError("Cannot mutate Module from different trace level")
+
+    object.__delattr__(self, name)
+
   def _setattr(self, name: str, value: Any) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
-- 
2.43.0


From 5271308dd20af5e257638773e7b2bf2c653555a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 04/35] fix: make pop_state atomic, safe on cyclic graphs and
 consistent with get_state paths

---
 nnx/module.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index d442810..eba6d45 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -473,10 +473,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __delattr__(self, name: str) -> None:
       self._delattr(name)
 
-  def _delattr(self, name: str) -> None:
+  def _check_trace_level(self) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
 
+  def _delattr(self, name: str) -> None:
+    self._check_trace_level()
     object.__delattr__(self, name)
 
   def _setattr(self, name: str, value: Any) -> None:
@@ -917,7 +919,15 @@ def _pop(
   path_parts: PathParts = ()
   predicates = tuple(partitioning.to_predicate(filter) for filter in filters)
   states = tuple({} for _ in predicates)
-  _pop_recursive(module, module_index, path_parts, states, predicates)
+  popped: tp.List[tp.Tuple[Module, str]] = []
+  _pop_recursive(module, module_index, path_parts, states, predicates, popped)
+
+  # delete only once every predicate has run, so that a pop either removes
+  # everything it returns or nothing at all
+  for owner, _ in popped:
+    owner._check_trace_level()
+  for owner, name in popped:
+    delattr(owner, name)
 
   return tuple(State(x) for x in states)
 
@@ -928,13 +938,19 @@ def _pop_recursive(
     path_parts: PathParts,
     states: tp.Tuple[tp.Dict[Path, tp.Any]],
     predicates: tp.Tuple[partitioning.Predicate, ...],
+    popped: tp.List[tp.Tuple["Module", str]],
 ) -> None:
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  # same order and cycle handling as `_iter_state`: paths agree with `get_state`
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
-      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
+      _pop_recursive(
+          value, module_index, (*path_parts, name), states, predicates, popped
+      )
       continue
     elif not nodes.is_node(value):
       continue
@@ -943,11 +959,9 @@ def _pop_recursive(
     for state, predicate in zip(states, predicates):
       if predicate(path, value):
         state[path] = value
-        delattr(module, name)
+        popped.append((module, name))
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From 4a162ddd8c7feebebbc0636d589575376293250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/35] fix: let Pure.update_state apply updates to existing
 variables

---
 nnx/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index eba6d45..802031a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -355,10 +355,11 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
           f"got {type(updates).__name__}"
       )
 
+    # later states take precedence
     if isinstance(self.states, tuple):
-      states += self.states
+      states = (*self.states, *states)
     else:
-      states += (self.states,)
+      states = (self.states, *states)
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From b392e49e01f367c46e39276542c54a71d4b06449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 06/35] fix: compare nested module state in ModuleDef, it is
 part of the jit cache key

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 802031a..82e7e93 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -111,7 +111,9 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     yield reprlib.Attr("static_fields", self._static_fields)
 
   def __hash__(self) -> int:
-    return hash((self._type, self._submodules, self._static_fields))
+    return hash(
+        (self._type, self._submodules, self._static_fields, self._module_state)
+    )
 
   def __eq__(self, other: tp.Any) -> bool:
     if not isinstance(other, ModuleDef):
@@ -120,6 +122,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
         self._type == other._type
         and self._submodules == other._submodules
         and self._static_fields == other._static_fields
+        and self._module_state == other._module_state
     )
 
   @property
-- 
2.43.0


From d586c478d44e9e7cc2f63c785903169a76ab940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 07/35] fix: register node types under a lock

---
 nnx/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/nodes.py b/nnx/nodes.py
index b470fce..ab1c610 100644
--- a/nnx/nodes.py
+++ b/nnx/nodes.py
@@ -1,14 +1,17 @@
+import threading
 import typing as tp
 
 import jax
 import numpy as np
 
+_node_types_lock = threading.Lock()
 node_types: tp.Tuple[type, ...] = ()
 
 
 def register_node_type(node_type: type) -> None:
   global node_types
-  node_types += (node_type,)
+  with _node_types_lock:
+    node_types += (node_type,)
 
 
 def is_node(obj: object) -> bool:
-- 
2.43.0


From 614283cf64b932dddfce6b76b9eef8b2219f3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 08/35] fix: make PureContext a pytree of its keys so that
 nnx.jit accepts a Context

---
 nnx/contextlib.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..3f689d4 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -31,6 +31,16 @@ class ContextDef:
     self._rng_counts = rng_counts
     self._flags = flags
 
+  def __eq__(self, other: tp.Any) -> bool:
+    return (
+        isinstance(other, ContextDef)
+        and self._rng_counts == other._rng_counts
+        and self._flags == other._flags
+    )
+
+  def __hash__(self) -> int:
+    return hash((self._rng_counts, self._flags))
+
   def merge(self, keys: tp.Mapping[str, KeyArray]) -> "Context":
     rngs = {
         name: RngStream(keys[name], count=0, count_path=count_path)
@@ -58,14 +68,15 @@ class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
 
 def _pure_context_flatten(pure_context: PureContext):
-  return tuple(pure_context), None
+  # the ContextDef is static, only the keys are leaves
+  return (pure_context.keys,), pure_context.contextdef
 
 
 def _pure_context_unflatten(
-    aux_data: None,
-    children: tp.Tuple[tp.Dict[str, KeyArray], ContextDef],
+    contextdef: ContextDef,
+    children: tp.Tuple[tp.Dict[str, KeyArray]],
 ) -> PureContext:
-  return PureContext(children)
+  return PureContext.new(children[0], contextdef)
 
 
 jtu.register_pytree_node(PureContext, _pure_context_flatten, _pure_context_unflatten)
-- 
2.43.0


From 760667643a4528720f06798d0ac4b20c07abe131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 09/35] fix: restore and validate nested structures inside
 container fields of a Pytree

---
 nnx/pytreelib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..ac7722e 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -220,7 +220,11 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      # restore into the field's value, as saved by `_to_flax_state_dict`: a
+      # Container is not known to flax, it would accept any state for it
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
-- 
2.43.0


From aa702a6a02a80aa15d96265601724987d0007d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 10/35] fix: restore the previous initializing flag of every
 module when init ends

---
 nnx/module.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 82e7e93..e07221a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -3,7 +3,6 @@ import dataclasses
 import threading
 import typing as tp
 from abc import ABCMeta
-from functools import partial
 from typing import Any
 
 import jax.tree_util as jtu
@@ -535,15 +534,29 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     accessor = DelayedAccessor()
 
     def _init(accessor, *args, **kwargs):
-      def _set_is_initializing(module: Module, value: bool):
-        module._module__state.is_initializing = value
+      # remember the value of every module: an init call around this one must stay
+      # in effect, and modules detached during the call have to be reset as well
+      previous: tp.Dict[ids.UUID, tp.Tuple[Module, bool]] = {}
+      outer = self.is_initializing
 
-      self.for_each(Module, partial(_set_is_initializing, value=True))
+      def _start(module: Module):
+        state = module._module__state
+        previous[state.id] = (module, state.is_initializing)
+        state.is_initializing = True
+
+      def _stop_added(module: Module):
+        # e.g. a clone taken during the call
+        if module._module__state.id not in previous and not outer:
+          module._module__state.is_initializing = False
+
+      self.for_each(Module, _start)
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
-        self.for_each(Module, partial(_set_is_initializing, value=False))
+        self.for_each(Module, _stop_added)
+        for module, value in previous.values():
+          module._module__state.is_initializing = value
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From 59cb4d0da8c051fefe24c806a83ca99e910294b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 11/35] fix: start a reversed scan that creates carry state
 with its last slice

---
 nnx/transforms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..1e6c687 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -640,8 +640,12 @@ def scan_apply(
   has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
 
   if has_new_carry_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    # run scan for 1 step, the one of the last slice if the scan is reversed
+    if options.reverse:
+      first, rest = slice(-1, None), slice(None, -1)
+    else:
+      first, rest = slice(None, 1), slice(1, None)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -657,14 +661,14 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From 28c9d7b0cc4343805070b37d5f2c2d2de3b50f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 12/35] fix: keep broadcast variables created in the body of a
 scan

---
 nnx/transforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 1e6c687..17fa005 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -606,7 +606,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -636,10 +636,11 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  _, broadcast_state_new, carry_state_new, _ = abstract_output[1]
+  new_state = (broadcast_state_new, carry_state_new)
+  has_new_state = len(jax.tree_util.tree_leaves(new_state)) > 0
 
-  if has_new_carry_state:
+  if has_new_state:
     # run scan for 1 step, the one of the last slice if the scan is reversed
     if options.reverse:
       first, rest = slice(-1, None), slice(None, -1)
@@ -664,7 +665,8 @@ def scan_apply(
     axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    # the new broadcast state is the one created by the first step
+    axes_states_rest, _, carry_state_new, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-- 
2.43.0


From e7614f336c957b0b826d9510446a175619db4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 13/35] fix: refuse state paths that go through an attribute
 that is not a module

---
 nnx/module.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index e07221a..4b6f62a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -887,7 +887,13 @@ def _set_value_at_path(
   if len(path_parts) == 1:
     setattr(module, path_parts[0], value)
   else:
-    _set_value_at_path(vars(module)[path_parts[0]], path_parts[1:], value)
+    submodule = vars(module)[path_parts[0]]
+    if not isinstance(submodule, Module):
+      # in particular, never write through a Container: snapshots share it
+      raise ValueError(
+          f"Expected a module at '{path_parts[0]}', got {type(submodule).__name__}"
+      )
+    _set_value_at_path(submodule, path_parts[1:], value)
 
 
 def _get_value_path(module: tp.Any, path: tp.Sequence[str]) -> tp.Any:
-- 
2.43.0


From 4f7631b94ef38f8c62b04aac0d7940b28ff194cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 14/35] fix: merge the context of a jitted call at the trace
 level of the call

---
 nnx/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 17fa005..623cd6f 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,12 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        # the context belongs to the same level as the module
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 4ae95f5f811ea1588a5939c7e10d4c5b9ffa0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 15/35] fix: ending an init call no longer resets modules of a
 surrounding init call attached to its graph

---
 nnx/module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 4b6f62a..5d9d696 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -538,6 +538,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       # in effect, and modules detached during the call have to be reset as well
       previous: tp.Dict[ids.UUID, tp.Tuple[Module, bool]] = {}
       outer = self.is_initializing
+      start = ids.uuid()
 
       def _start(module: Module):
         state = module._module__state
@@ -545,8 +546,9 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
         state.is_initializing = True
 
       def _stop_added(module: Module):
-        # e.g. a clone taken during the call
-        if module._module__state.id not in previous and not outer:
+        # e.g. a clone taken during the call; an older module that was attached
+        # may belong to an init call that is still running
+        if module._module__state.id.id > start.id and not outer:
           module._module__state.is_initializing = False
 
       self.for_each(Module, _start)
-- 
2.43.0


From c270ef4e5e9ba1b2b7507678ac6f2bdb777bcfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 16/35] fix: replace on a dataclass Pytree keeps the containers
 of its fields

---
 nnx/pytreelib.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index ac7722e..fcec2ae 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -242,6 +242,17 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      # `dataclasses.replace` reads fields with `getattr`, which unwraps Containers
+      for field in dataclasses.fields(self):
+        value = vars(self).get(field.name)
+        if (
+            field.init
+            and isinstance(value, containers.Container)
+            and "nnx_container_fn" not in field.metadata
+        ):
+          if field.name in kwargs:
+            value = value.replace(value=kwargs[field.name])
+          kwargs[field.name] = value
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From 1f78db4c605dfbe63c1fdb9dff7d778686cb5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 17/35] fix: fields of an initialized immutable Pytree cannot
 be deleted

---
 nnx/pytreelib.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index fcec2ae..9ee97ac 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -83,6 +83,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     def __setattr__(self, name: str, value: tp.Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      self._delattr(name)
+
   def _setattr(self: P, name: str, value: tp.Any):
     vars_dict = vars(self)
     if "_pytree__initializing" in vars_dict:
@@ -99,6 +102,16 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
         value = value.copy()
       vars_dict[name] = value
 
+  def _delattr(self, name: str) -> None:
+    vars_dict = vars(self)
+    if (
+        "_pytree__initializing" not in vars_dict
+        and "_pytree__is_mutable" not in vars_dict
+        and not self._pytree__class_is_mutable
+    ):
+      raise AttributeError(f"{type(self)} is immutable, trying to delete field {name}")
+    object.__delattr__(self, name)
+
   def __init_subclass__(cls, mutable: bool = False):
     super().__init_subclass__()
     # init class variables
-- 
2.43.0


From f3c8a4c380a9cca9f4358acf542eb4a9e652f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 18/35] fix: a frozen dataclass Pytree does not share the
 containers it was given

---
 nnx/pytreelib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 9ee97ac..7263517 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -55,6 +55,10 @@ class PytreeMeta(ABCMeta):
       assert isinstance(obj, Pytree)
       for field in dataclasses.fields(obj):
         if "nnx_container_fn" not in field.metadata:
+          # the `__init__` of a frozen dataclass does not go through `_setattr`
+          value = vars(obj).get(field.name)
+          if isinstance(value, containers.Container):
+            vars(obj)[field.name] = value.copy()
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-- 
2.43.0


From dc50a11c1f963c5ceb7807fd548e3f3838bb9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 19/35] fix: variables removed inside nnx.jit, grad, remat and
 scan are removed from the module

---
 nnx/transforms.py | 55 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 623cd6f..e96690d 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -32,6 +32,40 @@ Leaf = tp.Any
 Leaves = tp.List[Leaf]
 
 
+# stands for a variable that was removed by a transformed function
+_REMOVED = containers.Static("removed")
+
+
+def _get_owner(module: Module, path: str) -> tp.Tuple[tp.Any, str]:
+  owner: tp.Any = module
+  *parents, name = path.split("/")
+  for parent in parents:
+    owner = vars(owner).get(parent) if isinstance(owner, Module) else None
+  return owner, name
+
+
+def _get_updates(module: Module, before: tp.Iterable[str]) -> State:
+  """The state of ``module``, with a mark for each path of ``before`` whose variable
+  was removed from its module, e.g. by ``pop_state``."""
+  updates = module.get_state()
+  removed: tp.Dict[str, tp.Any] = {}
+  for path in before:
+    if path not in updates:
+      owner, name = _get_owner(module, path)
+      if isinstance(owner, Module) and name not in vars(owner):
+        removed[path] = _REMOVED
+  return updates | State(removed)
+
+
+def _apply_updates(module: Module, updates: State) -> None:
+  removed = State({k: v for k, v in updates.items() if isinstance(v, containers.Static)})
+  module.update_state(updates - removed)
+  for path in removed:
+    owner, name = _get_owner(module, path)
+    if isinstance(owner, Module) and name in vars(owner):
+      delattr(owner, name)
+
+
 class JitTransform(jax.stages.Wrapped):
 
   def __init__(
@@ -52,7 +86,7 @@ class JitTransform(jax.stages.Wrapped):
         out = fun(module, *args, **kwargs)
 
       if self.stateful:
-        updates = module.get_state()
+        updates = _get_updates(module, pure_module.get_state())
         out = (updates, out)
 
       return out
@@ -71,7 +105,7 @@ class JitTransform(jax.stages.Wrapped):
     if self.stateful:
       updates: State
       updates, out = out
-      module.update_state(updates)
+      _apply_updates(module, updates)
     return out
 
   def __repr__(self):
@@ -165,7 +199,7 @@ class GradTransform:
         out = fun(module, *args)
 
       if self.stateful:
-        updates = module.get_state()
+        updates = _get_updates(module, (*diff, *non_diff))
         if self.has_aux:
           loss, aux = out
           out = (loss, (updates, aux))
@@ -194,7 +228,7 @@ class GradTransform:
         out = grads, aux
       else:
         out, updates = grads
-      module.update_state(updates)
+      _apply_updates(module, updates)
     else:
       out = grads
 
@@ -572,6 +606,8 @@ def scan_apply(
     axes_keys = None
     broadcast_keys = None
 
+  removed: tp.Dict[str, tp.Any] = {}
+
   def scan_fn(
       carry: tp.Tuple[State, tp.Any],
       axes: tp.Tuple[
@@ -601,6 +637,10 @@ def scan_apply(
         module, carry_arg, axes_arg, *broadcast_args, **broadcast_kwargs
     )
 
+    # find removed variables
+    updates = _get_updates(module, (path for state in axes_states for path in state))
+    removed.update((path, x) for path, x in updates.items() if x is _REMOVED)
+
     # split module state
     (*axes_states_out, broadcast_state_out, carry_state_out), _ = module.partition(
         *filters
@@ -693,6 +733,7 @@ def scan_apply(
   )
 
   module.update_state((*axes_states, carry_state, broadcast_state_new, carry_state_new))
+  _apply_updates(module, State(removed))
 
   return carry_out, out
 
@@ -882,9 +923,7 @@ def remat_apply(
     module = moduledef.merge(state)
     out = f(module, *args, **kwargs)
 
-    state, _ = module.partition()
-
-    return state, out
+    return _get_updates(module, state), out
 
   state, out = jax.checkpoint(
       _remat_fn,
@@ -893,7 +932,7 @@ def remat_apply(
       policy=options.policy,
   )(state, keys, *args)
 
-  module.update_state(state)
+  _apply_updates(module, state)
 
   return out
 
-- 
2.43.0


From fcebdef234a18d91cddd9c47a399535dfc1597c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 20/35] fix: transformed calls may replace a variable by one of
 another type

---
 nnx/transforms.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index e96690d..a85058f 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -59,12 +59,20 @@ def _get_updates(module: Module, before: tp.Iterable[str]) -> State:
 
 def _apply_updates(module: Module, updates: State) -> None:
   removed = State({k: v for k, v in updates.items() if isinstance(v, containers.Static)})
-  module.update_state(updates - removed)
-  for path in removed:
+
+  for path, value in updates.items():
     owner, name = _get_owner(module, path)
-    if isinstance(owner, Module) and name in vars(owner):
+    if not isinstance(owner, Module) or name not in vars(owner):
+      continue
+    current = vars(owner)[name]
+    # a variable that was replaced by one of another type is removed first
+    if path in removed or (
+        isinstance(current, containers.Container) and not current.is_equivalent(value)
+    ):
       delattr(owner, name)
 
+  module.update_state(updates - removed)
+
 
 class JitTransform(jax.stages.Wrapped):
 
@@ -732,8 +740,10 @@ def scan_apply(
       out,
   )
 
-  module.update_state((*axes_states, carry_state, broadcast_state_new, carry_state_new))
-  _apply_updates(module, State(removed))
+  updates = State.merge(
+      *axes_states, carry_state, broadcast_state_new, carry_state_new, State(removed)
+  )
+  _apply_updates(module, updates)
 
   return carry_out, out
 
-- 
2.43.0


From b4e83508f07a2c816f31e44ff4f17ca009986724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:57 +0000
Subject: [PATCH 21/35] fix: nested attribute access through apply, call and
 init proxies

m.apply.b.c(...) kept only the last name: it ran the method c of the root
instead of that of the submodule b.
---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 5d9d696..a8174ff 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -55,10 +55,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From d8b6d3787a48c33b2765aa16ec88380a4ed3449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 22/35] fix: MutableLeaf.sharding of a variable

Node has no attribute metadata: reading the sharding of any variable through
mutable_state_dict raised AttributeError.
---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index a8174ff..8bd7241 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -810,7 +810,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return vars(attr).get("sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From f305a39e98b6df16102adcd2340175228e913580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 23/35] fix: repr of MutableLeaf

It is a Representable without __nnx_repr__: printing what mutable_state_dict
returns raised NotImplementedError.
---
 nnx/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 8bd7241..20dfd79 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -796,6 +796,10 @@ class MutableLeaf(reprlib.Representable):
     self._module = module
     self._name = name
 
+  def __nnx_repr__(self):
+    yield reprlib.Object(type=type(self))
+    yield reprlib.Attr("value", repr(self.value))
+
   @property
   def value(self) -> tp.Any:
     return getattr(self._module, self._name)
-- 
2.43.0


From f5611b974586b186354e874919a81d552348e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 24/35] fix: remove_axis under python -O

The removal of the axis name was inside an assert: with assertions disabled
the sharding of scanned variables kept the name of the scan axis.
---
 nnx/spmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..142da00 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -64,7 +64,8 @@ def remove_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) ->
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      assert sharding.pop(index) == axis_name
+      name = sharding.pop(index)
+      assert name == axis_name
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From 1056923de22c1af5e0127653b54a870b36531353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 25/35] fix: nnx.Dict follows the mapping protocol

Iteration and len included the module's own state, and a missing key raised
AttributeError, so that 'in' and get failed instead of answering; names of
methods counted as keys.
---
 nnx/helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..3fc435f 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -28,6 +28,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if not any(key == name for name in self):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +42,11 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    # without the module's own state
+    return iter([name for name in vars(self) if not name.startswith("_module__")])
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From b6a81d41427bd01e22fff0182075931d9fb2471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:25 +0000
Subject: [PATCH 26/35] fix: nnx.Sequence without elements and negative indices

An empty Sequence had length 1 and could not be iterated; a negative index
raised AttributeError.
---
 nnx/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 3fc435f..f98539a 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -52,13 +52,16 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
-    if key >= len(self):
+    if key < 0:
+      key += len(self)
+    if not 0 <= key < len(self):
       raise IndexError(f"index {key} out of range for {self}")
     return getattr(self, str(key))
 
-- 
2.43.0


From 3adb1dce3860d39652803f116b2487a05cc0c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 27/35] fix: Sequence wrote the context into the dict an
 element returned

An element that returns a dict it keeps had the context of the first call
stored in it, and later calls without a context used that one.
---
 nnx/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index f98539a..bb46f6f 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -89,7 +89,8 @@ class Sequence(Module, tp.Generic[A]):
           args = (output,)
           kwargs = {}
       if ctx is not None and has_keyword_arg(f, "ctx"):
-        kwargs["ctx"] = ctx
+        # never written into a dict that an element returned
+        kwargs = {**kwargs, "ctx": ctx}
 
       output = f(*args, **kwargs)
 
-- 
2.43.0


From 2b8c53c8f4fdb7706f8b9058280fd8bff1b7d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 28/35] fix: a trace is only reused for the very same static
 values

---
 nnx/containers.py | 51 +++++++++++++++++++++++++++++++++++++++--------
 nnx/module.py     | 23 ++++-----------------
 nnx/pytreelib.py  |  7 +++----
 3 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index 969645d..f19cf52 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -1,5 +1,6 @@
 import dataclasses
 import functools
+import math
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -15,6 +16,39 @@ F = tp.TypeVar("F", bound=tp.Callable[..., tp.Any])
 Sharding = tp.Tuple[tp.Optional[str], ...]
 
 
+def static_equal(a: tp.Any, b: tp.Any) -> bool:
+  """Equality that tells values of different types apart, e.g. 1, 1.0 and True."""
+  if a is b:
+    return True
+  if type(a) is not type(b):
+    return False
+  if isinstance(a, (tuple, list)):
+    return len(a) == len(b) and all(static_equal(x, y) for x, y in zip(a, b))
+  if isinstance(a, dict):
+    return a.keys() == b.keys() and all(static_equal(v, b[k]) for k, v in a.items())
+  if isinstance(a, float) and a == b:
+    return math.copysign(1, a) == math.copysign(1, b)
+  return bool(a == b)
+
+
+class StaticData:
+  """Static part of a pytree, a cached trace is only used for the very same data."""
+
+  __slots__ = ("value",)
+
+  def __init__(self, value: tp.Any):
+    self.value = value
+
+  def __eq__(self, other: tp.Any) -> bool:
+    return isinstance(other, StaticData) and static_equal(self.value, other.value)
+
+  def __hash__(self) -> int:
+    return hash(type(self.value))
+
+  def __repr__(self) -> str:
+    return repr(self.value)
+
+
 @dataclasses.dataclass
 class ContainerMetadata(tp.Generic[A]):
   value: A
@@ -121,12 +155,10 @@ class NodeBase(Container[A]):
       else:
         node = value
 
-      return (node,), attributes
+      return (node,), StaticData(attributes)
 
-    def _node_unflatten(
-        metadata: tp.Mapping[str, tp.Any], children: tp.Tuple[A]
-    ) -> NodeBase[A]:
-      return cls(children[0], **metadata)
+    def _node_unflatten(metadata: StaticData, children: tp.Tuple[A]) -> NodeBase[A]:
+      return cls(children[0], **metadata.value)
 
     jtu.register_pytree_with_keys(
         cls,
@@ -173,16 +205,19 @@ class Static(Container[A], reprlib.Representable):
   def __init__(self, value: A):
     super().__init__(value)
 
+  def __eq__(self, other: object) -> bool:
+    return type(self) is type(other) and static_equal(vars(self), vars(other))
+
   def __hash__(self) -> int:
     return hash(self.value)
 
 
 def _static_flatten(x: Static[tp.Any]):
-  return (), x.value
+  return (), StaticData(x.value)
 
 
-def _static_unflatten(metadata: A, _) -> Static[A]:
-  return Static(metadata)
+def _static_unflatten(metadata: StaticData, _) -> Static[tp.Any]:
+  return Static(metadata.value)
 
 
 jtu.register_pytree_node(Static, _static_flatten, _static_unflatten)
diff --git a/nnx/module.py b/nnx/module.py
index 20dfd79..3115741 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -120,7 +120,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
     return (
         self._type == other._type
         and self._submodules == other._submodules
-        and self._static_fields == other._static_fields
+        and containers.static_equal(self._static_fields, other._static_fields)
         and self._module_state == other._module_state
     )
 
@@ -168,26 +168,11 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
 
 
 def _moddef_flatten(moduledef: ModuleDef[M]):
-  return (), (
-      moduledef._type,
-      moduledef._index,
-      moduledef._submodules,
-      moduledef._static_fields,
-      moduledef._module_state,
-  )
+  return (), moduledef
 
 
-def _moddef_unflatten(
-    metadata: tp.Tuple[
-        tp.Type[M],
-        int,
-        tp.Tuple[tp.Tuple[str, tp.Union["ModuleDef[Module]", int]], ...],
-        tp.Tuple[tp.Tuple[str, tp.Any], ...],
-        "ModuleStateTuple",
-    ],
-    _,
-) -> ModuleDef[M]:
-  return ModuleDef(*metadata)
+def _moddef_unflatten(moduledef: ModuleDef[M], _) -> ModuleDef[M]:
+  return moduledef
 
 
 jtu.register_pytree_node(ModuleDef, _moddef_flatten, _moddef_unflatten)
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 7263517..2dbd3fa 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -6,7 +6,6 @@ import typing as tp
 from abc import ABCMeta
 from copy import copy
 from functools import partial
-from types import MappingProxyType
 
 import jax
 
@@ -191,18 +190,18 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
       else:
         static[field] = value
 
-    return node_values, (tuple(node_names), MappingProxyType(static))
+    return node_values, (tuple(node_names), containers.StaticData(static))
 
   @classmethod
   def _pytree__unflatten(
       cls: tp.Type[P],
-      metadata: tp.Tuple[tp.Tuple[str, ...], tp.Mapping[str, tp.Any]],
+      metadata: tp.Tuple[tp.Tuple[str, ...], containers.StaticData],
       node_values: tp.Tuple[tp.Any, ...],
   ) -> P:
     node_names, static_fields = metadata
     pytree = object.__new__(cls)
     pytree.__dict__.update(zip(node_names, node_values))
-    pytree.__dict__.update(static_fields)
+    pytree.__dict__.update(static_fields.value)
     return pytree
 
   @classmethod
-- 
2.43.0


From a1c7998f9746e027e7ab1060ac6100bd406f0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 29/35] fix: a copy of a context of another trace level is
 refused

---
 nnx/contextlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index 3f689d4..cbb740e 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -116,6 +116,10 @@ class Context:
     return jax.random.fold_in(stream.key, fold_data)
 
   def copy(self) -> "Context":
+    if not self._trace_state.is_valid():
+      # the copy draws from the same streams
+      raise errors.TraceContextError("Cannot use Context from a different trace level")
+
     return Context(rngs=self._rngs, flags=self._flags)
 
   def has_flag(self, name: str) -> bool:
-- 
2.43.0


From 980b12d3cfeb65f736036a58b05d5430a9139c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 30/35] fix: a context keeps a copy of the flags it was given

---
 nnx/contextlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index cbb740e..ed72855 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -149,7 +149,7 @@ def context(
     flags: tp.Optional[tp.Mapping[str, bool]] = None,
     **rngs: tp.Union[int, KeyArray, RngStream],
 ) -> Context:
-  _flags = flags or {}
+  _flags = dict(flags or {})
 
   if params is not None:
     rngs["params"] = params
-- 
2.43.0


From 96aa50c2b02a24e272c3139c0069337b86ae5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 31/35] fix: an unpickled module has its own identity and the
 current trace level

---
 nnx/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 3115741..c817e2f 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -406,6 +406,10 @@ class ModuleState(reprlib.Representable):
     del memo
     return copy.copy(self)
 
+  def __reduce__(self):
+    # the same goes for unpickled modules, possibly in another process
+    return type(self).from_tuple, (self.to_tuple(),)
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
-- 
2.43.0


From 0c40d8efb83e7e184f1616f3b0d948a74f198afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:32 +0000
Subject: [PATCH 32/35] fix: deep copied and unpickled contexts can be used

---
 nnx/tracers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nnx/tracers.py b/nnx/tracers.py
index cb8ce13..19410b0 100644
--- a/nnx/tracers.py
+++ b/nnx/tracers.py
@@ -79,6 +79,15 @@ class TraceState(reprlib.Representable):
     self._jax_trace = current_jax_trace()
     self._nnx_trace = current_nnx_trace()
 
+  def __deepcopy__(self, memo) -> "TraceState":
+    # the traces are compared by identity, a copy of them is no trace level
+    del memo
+    return self
+
+  def __reduce__(self):
+    # traces do not outlive their process, unpickled objects belong to the current level
+    return type(self), ()
+
   @property
   def jax_trace(self):
     return self._jax_trace
-- 
2.43.0


From 2e0581720dd69c9a8ec3c70ee6d3fb63e261519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:55 +0000
Subject: [PATCH 33/35] fix: nnx.grad has a trace level of its own when nothing
 is differentiated

---
 nnx/tracers.py    | 8 ++++++++
 nnx/transforms.py | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nnx/tracers.py b/nnx/tracers.py
index 19410b0..f1c9b57 100644
--- a/nnx/tracers.py
+++ b/nnx/tracers.py
@@ -42,6 +42,14 @@ def get_all_traces(pytree: tp.Union[tp.Any, Tracer]) -> tp.Set[MainTrace]:
     }
 
 
+def new_trace(pytree: tp.Any) -> MainTrace:
+  """Returns the top trace of the inputs of a transform, or a trace of its own if it
+  has no inputs."""
+  if jax.tree_util.tree_leaves(pytree):
+    return get_top_trace(pytree)
+  return MainTrace(0, jax.core.EvalTrace)
+
+
 def trace_level(main):
   """Returns the level of the trace of -infinity if it is None."""
   if main:
diff --git a/nnx/transforms.py b/nnx/transforms.py
index a85058f..b46d2c3 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -202,7 +202,7 @@ class GradTransform:
         moduledef: ModuleDef[Module],
         *args: tp.Any,
     ):
-      with tracers.nnx_trace(tracers.get_top_trace(diff)):
+      with tracers.nnx_trace(tracers.new_trace(diff)):
         module = moduledef.merge(diff, non_diff)
         out = fun(module, *args)
 
-- 
2.43.0


From 13de07d7ea48f7301065455e0956df9a798a8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:01 +0000
Subject: [PATCH 34/35] fix: later steps of a scan use the broadcast variables
 created by the first step

---
 nnx/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index b46d2c3..adca19a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -672,7 +672,7 @@ def scan_apply(
 
     return carry, out
 
-  scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
+  scan_partial = lambda length, unroll, scan_fn=scan_fn: lambda carry, axes: jax.lax.scan(
       scan_fn,
       carry,
       axes,
@@ -711,8 +711,11 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
+    # (as a new function: jax must not reuse the trace of the first step, where the
+    # new broadcast state did not exist)
     axes_rest = jax.tree_map(lambda x: x[rest], axes)
-    carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
+    rest_fn = lambda carry, axes: scan_fn(carry, axes)
+    carry, scan_out = scan_partial(length - 1, options.unroll, rest_fn)(carry, axes_rest)
     carry_state, carry_out = carry
     # the new broadcast state is the one created by the first step
     axes_states_rest, _, carry_state_new, out_rest = scan_out
-- 
2.43.0


From cd6395a199c25a63ab9f54d713ba321c901ca2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 35/35] fix: transformed calls that build submodules are
 refused before anything is written

---
 nnx/transforms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index adca19a..e0d53f7 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -60,6 +60,16 @@ def _get_updates(module: Module, before: tp.Iterable[str]) -> State:
 def _apply_updates(module: Module, updates: State) -> None:
   removed = State({k: v for k, v in updates.items() if isinstance(v, containers.Static)})
 
+  # refuse before anything is written, so that a call updates everything or nothing
+  for path in updates - removed:
+    owner, _ = _get_owner(module, path)
+    if not isinstance(owner, Module):
+      raise ValueError(
+          f"Cannot update '{path}': submodules created inside a transformed function "
+          "are not supported"
+      )
+    owner._check_trace_level()
+
   for path, value in updates.items():
     owner, name = _get_owner(module, path)
     if not isinstance(owner, Module) or name not in vars(owner):
-- 
2.43.0

