From 67e16359c002131de6732878e8efc4b4734b27a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 1/6] fix: kd_functools.unwrap on unhashable callables and
 custom equality

unwrap() kept the visited callables in a set, so it raised TypeError for an
unhashable callable and stopped early when two different callables of the chain
compared equal. Track identities, as inspect.unwrap does.
---
 py/koladata/util/kd_functools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/koladata/util/kd_functools.py b/py/koladata/util/kd_functools.py
index 3514213..3d12124 100644
--- a/py/koladata/util/kd_functools.py
+++ b/py/koladata/util/kd_functools.py
@@ -20,12 +20,13 @@ from typing import Any
 
 def unwrap(fn: Callable[..., Any]) -> Callable[..., Any]:
   """Unwraps the function from all the decorators."""
-  visited = set()
+  # Memoise by id: callables may be unhashable or have a custom equality.
+  visited = {}
   while (
-      fn not in visited
+      id(fn) not in visited
       and hasattr(fn, '__wrapped__')
       and callable(fn.__wrapped__)
   ):
-    visited.add(fn)
+    visited[id(fn)] = fn
     fn = fn.__wrapped__
   return fn
-- 
2.43.0


From 295fd93dcb5961d30d24a4b762b704911e859877 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 2/6] fix: comparing a made dataclass with a dataclass type

dataclasses.is_dataclass() is also true for dataclass types, on which asdict()
raises TypeError; such a comparison is now simply unequal.
---
 py/koladata/base/py_conversions/dataclasses_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/koladata/base/py_conversions/dataclasses_util.py b/py/koladata/base/py_conversions/dataclasses_util.py
index d7a3c30..1da6785 100644
--- a/py/koladata/base/py_conversions/dataclasses_util.py
+++ b/py/koladata/base/py_conversions/dataclasses_util.py
@@ -24,9 +24,11 @@ _Type = type[Any] | types.UnionType | types.GenericAlias | typing.Optional[Any]
 
 def _eq(x, y):
   """Checks whether two dataclasses are equal ignoring types."""
-  return dataclasses.is_dataclass(y) and dataclasses.asdict(
-      x
-  ) == dataclasses.asdict(y)
+  return (
+      dataclasses.is_dataclass(y)
+      and not isinstance(y, type)
+      and dataclasses.asdict(x) == dataclasses.asdict(y)
+  )
 
 
 def make_dataclass(class_name: str, attr_names):
-- 
2.43.0


From ee3e4479a47eb6e37fdf3a9a95c15e4cedcce06b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 3/6] fix: get_class_field_type on an unparametrised mapping

Asking for the key type of typing.Dict (no parameters) raised IndexError
instead of the ValueError raised for its value type.
---
 py/koladata/base/py_conversions/dataclasses_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/koladata/base/py_conversions/dataclasses_util.py b/py/koladata/base/py_conversions/dataclasses_util.py
index 1da6785..393c06c 100644
--- a/py/koladata/base/py_conversions/dataclasses_util.py
+++ b/py/koladata/base/py_conversions/dataclasses_util.py
@@ -199,11 +199,11 @@ def get_class_field_type(
         and issubclass(origin_type, typing.Mapping)
         and attr_name != '__items__'
     ):
+      args = typing.get_args(py_obj)
       # `dict[Obj, int]`
-      if attr_name == '__keys__':
-        return maybe_decay_optional(typing.get_args(py_obj)[0])
+      if attr_name == '__keys__' and args:
+        return maybe_decay_optional(args[0])
       # `dict[int, Obj]`
-      args = typing.get_args(py_obj)
       if len(args) != 2:
         raise ValueError(
             f'expected dict; got instead: {typing.get_origin(py_obj)}'
-- 
2.43.0


From 24700dac7e8673b6e952682f63308b48cf9f6fce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 4/6] fix: storage directories whose names contain glob
 characters

---
 .../storage/bare_root_initial_data_manager.py    |  3 ++-
 .../storage/composite_initial_data_manager.py    |  3 ++-
 py/koladata/ext/storage/data_bag_manager.py      | 16 +++++++++++-----
 py/koladata/ext/storage/data_slice_manager.py    | 12 ++++++++----
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/py/koladata/ext/storage/bare_root_initial_data_manager.py b/py/koladata/ext/storage/bare_root_initial_data_manager.py
index 9efe4c0..70f105c 100644
--- a/py/koladata/ext/storage/bare_root_initial_data_manager.py
+++ b/py/koladata/ext/storage/bare_root_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self, cast
 
@@ -100,7 +101,7 @@ class BareRootInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/composite_initial_data_manager.py b/py/koladata/ext/storage/composite_initial_data_manager.py
index 81c85bc..df34064 100644
--- a/py/koladata/ext/storage/composite_initial_data_manager.py
+++ b/py/koladata/ext/storage/composite_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self
 
@@ -102,7 +103,7 @@ class CompositeInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..66681b3 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 import collections
 import concurrent.futures
 import dataclasses
+import glob
 import os
 from typing import AbstractSet, Collection, Iterable, cast
 import uuid
@@ -128,7 +129,8 @@ class DataBagManager:
 
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):  # if not empty dir:
+    # If not empty dir:
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           'the persistence_dir must be empty or not exist yet. Got'
           f' {persistence_dir}'
@@ -173,7 +175,8 @@ class DataBagManager:
       raise ValueError(
           f'the persistence_dir does not exist. Got {persistence_dir}'
       )
-    if not fs.glob(os.path.join(persistence_dir, '*')):  # if empty dir:
+    # If empty dir:
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the persistence_dir must not be empty. Got {persistence_dir}'
       )
@@ -354,7 +357,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -416,7 +419,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -825,7 +828,10 @@ def _read_latest_metadata(
 ) -> metadata_pb2.DataBagManagerMetadata:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir),
+          f'metadata-{update_number_pattern}.pb',
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   with fs.open(latest_metadata_filepath, 'rb') as f:
diff --git a/py/koladata/ext/storage/data_slice_manager.py b/py/koladata/ext/storage/data_slice_manager.py
index 5ef2206..051d669 100644
--- a/py/koladata/ext/storage/data_slice_manager.py
+++ b/py/koladata/ext/storage/data_slice_manager.py
@@ -23,6 +23,7 @@ import base64
 import copy
 import dataclasses
 import datetime
+import glob
 import os
 from typing import Collection, Generator, cast
 import uuid
@@ -206,7 +207,7 @@ class DataSliceManager(
         raise ValueError(
             f'persistence_dir should be a directory. Got: {persistence_dir}'
         )
-      if fs.glob(os.path.join(persistence_dir, '*')):
+      if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
         raise ValueError(
             f'persistence_dir should be empty. Got: {persistence_dir}'
         )
@@ -318,7 +319,7 @@ class DataSliceManager(
     """
     fs = fs or kd.file_io.get_default_file_system_interaction()
 
-    if not fs.glob(os.path.join(persistence_dir, '*')):
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'persistence_dir {persistence_dir} should contain artifacts'
           ' persisted previously by a DataSliceManager'
@@ -1135,7 +1136,7 @@ class DataSliceManager(
           raise ValueError(
               f'the output_dir {output_dir} exists but it is not a directory'
           )
-        if branch_fs.glob(os.path.join(output_dir, '*')):
+        if branch_fs.glob(os.path.join(glob.escape(output_dir), '*')):
           raise ValueError(f'the output_dir {output_dir} is not empty')
     else:
       output_dir = _get_dir_for_new_branch(self._persistence_dir, branch_fs)
@@ -1404,7 +1405,10 @@ def _get_latest_metadata_version(
 ) -> int:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir),
+          f'metadata-{update_number_pattern}.pb',
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   latest_metadata_filename = os.path.basename(latest_metadata_filepath)
-- 
2.43.0


From 8dc9484f4c916320645fd1a52973410cd5fd4443 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 5/6] fix: extract_bags keeps the custom metadata of the bags

---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 66681b3..154a654 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -353,6 +353,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    bag_custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -372,6 +373,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=bag_custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From 486d633482487856fe1ce44be5a9796cdabc95c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 6/6] fix: a suppressed notebook progress bar is not displayed
 after its delay

tqdm_notebook.__init__ resets `displayed`, so setting it before the base
constructor had no effect: with delay > 0 the widget appeared although
suppress_display was configured. Set it afterwards, and only where the user
did not pass `display` explicitly.
---
 py/koladata/ext/tqdm/tqdm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/py/koladata/ext/tqdm/tqdm.py b/py/koladata/ext/tqdm/tqdm.py
index defa9f7..1d60be9 100644
--- a/py/koladata/ext/tqdm/tqdm.py
+++ b/py/koladata/ext/tqdm/tqdm.py
@@ -61,11 +61,14 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     self._reporter = reporter
     is_notebook = isinstance(self, _tqdm_notebook.tqdm_notebook)
 
+    suppress_widget = False
     if self._reporter is not None:
+      suppress_widget = (
+          is_notebook
+          and self._reporter.tqdm_config.suppress_display
+          and 'display' not in kwargs
+      )
       kwargs = self._get_configured_kwargs(kwargs, is_notebook)
-      if is_notebook and self._reporter.tqdm_config.suppress_display:
-        # Ensure the widget never displays if check_delay is triggered later.
-        self.displayed = True
       self._bar_id = uuid.uuid4().hex
 
     # tqdm tracks whether close() has been called via self.disable, so we
@@ -76,6 +79,10 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     # our display() and _set_progress() hooks to broadcast the initial state.
     # This happens immediately unless delay > 0 is passed.
     super().__init__(*args, **kwargs)
+    if suppress_widget:
+      # Ensure the widget never displays if check_delay is triggered later.
+      # (tqdm_notebook.__init__ resets this flag.)
+      self.displayed = True
 
   def _get_configured_kwargs(
       self, kwargs: dict[str, Any], is_notebook: bool
-- 
2.43.0

