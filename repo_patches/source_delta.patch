From d71429f88297a28d97dbba352a4b73f0e7608a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 01/67] fix: save graph files atomically

A crash or I/O error while a graph was being saved left a truncated file in
place of the previously saved graph. Write to a temp file next to the target
and replace the target once everything has been written.
---
 nxt/atomic_file.py | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 nxt/nxt_io.py      |  6 ++++--
 2 files changed, 51 insertions(+), 2 deletions(-)
 create mode 100644 nxt/atomic_file.py

diff --git a/nxt/atomic_file.py b/nxt/atomic_file.py
new file mode 100644
index 0000000..650a5f4
--- /dev/null
+++ b/nxt/atomic_file.py
@@ -0,0 +1,47 @@
+"""Write files such that neither a crash nor an I/O error can leave a file
+half written. This module must not import any other nxt code.
+"""
+# Builtin
+import errno
+import os
+import uuid
+from contextlib import contextmanager
+
+
+@contextmanager
+def open_atomic(filepath, mode='w'):
+    """Context manager that opens a file for writing. The data is written to
+    a temp file next to the given path, which only takes the place of the
+    given path once everything has been written successfully.
+    If an exception is raised the file at the given path is left untouched.
+
+    :param filepath: Path to the file to write
+    :type filepath: str
+    :param mode: 'w' or 'wb'
+    :type mode: str
+    """
+    # Write through links, the same as a plain open call
+    filepath = os.path.realpath(filepath)
+    permissions = None
+    if os.path.exists(filepath):
+        if os.path.isdir(filepath):
+            raise IOError(errno.EISDIR, os.strerror(errno.EISDIR), filepath)
+        if not os.access(filepath, os.W_OK):
+            raise IOError(errno.EACCES, os.strerror(errno.EACCES), filepath)
+        permissions = os.stat(filepath).st_mode & 0o7777
+    temp_path = '{}.{}.tmp'.format(filepath, uuid.uuid4().hex)
+    try:
+        with open(temp_path, mode) as file_object:
+            yield file_object
+            file_object.flush()
+            os.fsync(file_object.fileno())
+        if permissions is not None:
+            os.chmod(temp_path, permissions)
+        replace = getattr(os, 'replace', os.rename)  # Python 2 has no replace
+        replace(temp_path, filepath)
+    except BaseException:
+        try:
+            os.remove(temp_path)
+        except OSError:
+            pass
+        raise
diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..a71438d 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -13,6 +13,7 @@ if sys.version_info[0] == 2:
     import nxt_path
     import clean_json
     import legacy
+    from atomic_file import open_atomic
     from constants import FILE_FORMAT, GRAPH_VERSION
     from nxt_layer import SAVE_KEY
 else:
@@ -21,6 +22,7 @@ else:
     from . import nxt_path
     from . import clean_json
     from . import legacy
+    from .atomic_file import open_atomic
     from .constants import FILE_FORMAT, GRAPH_VERSION
     from .nxt_layer import SAVE_KEY
 
@@ -136,11 +138,11 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
         filepath += ext
     if file_format == FILE_FORMAT.BINARY:
         gc.disable()
-        with open(filepath, 'wb') as out_file:
+        with open_atomic(filepath, 'wb') as out_file:
             pickle.dump(save_data, out_file, protocol=-1)
         gc.enable()
     else:
-        with open(filepath, 'w') as out_file:
+        with open_atomic(filepath, 'w') as out_file:
             json.dump(save_data, out_file, indent=4, sort_keys=False,
                       separators=(',', ': '))
     logger.info('Successfully saved "' + filepath + '"')
-- 
2.43.0


From f28d017e055d9f9948eb2710b50ba9c15e49b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 02/67] fix: convert graph files atomically

With --replace an interrupted or failing conversion destroyed the graph.
---
 nxt/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..1dae116 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -8,6 +8,7 @@ import pickle
 
 # Internal
 from . import clean_json
+from .atomic_file import open_atomic
 from .constants import GRAPH_VERSION
 
 #
@@ -595,7 +596,7 @@ def cli_file_convert(file_path, replace=False):
     out_file_name = out_file_name + ending + ext
     out_file_dir = os.path.dirname(file_path)
     out_file_path = os.path.join(out_file_dir, out_file_name)
-    with open(out_file_path, 'w') as out_file:
+    with open_atomic(out_file_path) as out_file:
         json.dump(file_data, out_file, indent=4, sort_keys=False,
                   separators=(',', ': '))
         logger.info('Successfully saved "' + out_file_path + '"')
-- 
2.43.0


From ceba91b79ecf2d0af073aaaae8a6b3d72f6e3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 03/67] fix: restore the working directory when opening a graph
 fails

---
 nxt/stage.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..49fd3d9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -352,6 +352,21 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
+        try:
+            self._load_references(layer_data, parent_layer)
+        finally:
+            os.chdir(old_cwd)
+
+    def _load_references(self, layer_data, parent_layer):
+        """Loads the layers referenced by the given layer data, paths are
+        expanded from the current working directory. References that can't be
+        opened are skipped.
+
+        :param layer_data: Clean dict of an nxt save file
+        :param parent_layer: `Layer` object made from the layer data
+        :return: None
+        """
+        real_path = layer_data['real_path']
         for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
             try:
                 layer_data = nxt_io.load_file_data(sub_layer_path)
@@ -372,7 +387,6 @@ class Stage:
                     parent_layer.sub_layers.remove(dat)
                 continue
             self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 5e8d25f147327e1b3ed17238866d9e322c3101c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/67] fix: keep references that could not be opened when
 saving

A reference that failed to open, even if only for a moment, was silently
dropped from the graph file by the next save.
---
 nxt/nxt_layer.py | 6 ++++++
 nxt/stage.py     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..829ccd9 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -122,6 +122,8 @@ class SpecLayer(object):
         self.comp_overrides = layer_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
         self.sub_layer_paths = []
         self.sub_layers = []
+        # Index and path of references that could not be opened
+        self.missing_references = []
         for layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
             if not layer_path:
                 continue
@@ -693,6 +695,10 @@ class SpecLayer(object):
         refs = []
         for ref in self.sub_layers:
             refs += [ref[SAVE_KEY.FILEPATH]]
+        opened_refs = tuple(refs)
+        for idx, path in self.missing_references:
+            if path not in opened_refs:
+                refs.insert(idx, path)
         return refs
 
     def _get_meta_attr(self, meta_attr, over_dict_attr=None, local=False,
diff --git a/nxt/stage.py b/nxt/stage.py
index 49fd3d9..adf3344 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -384,6 +384,10 @@ class Stage:
                     if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
                         bad_layer_dat += [sub_layer_dat]
                 for dat in bad_layer_dat:
+                    # Remembered so that saving the layer keeps the reference
+                    missing = parent_layer.missing_references
+                    idx = parent_layer.sub_layers.index(dat) + len(missing)
+                    missing.append((idx, sub_layer_path))
                     parent_layer.sub_layers.remove(dat)
                 continue
             self.load_from_file(layer_data, parent_layer=parent_layer)
-- 
2.43.0


From 75e4d0f71d05133063bca8bc00e8178100144c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 05/67] fix: skip references that lead back to a file being
 opened

Opening graphs that reference each other ended in a RecursionError.
---
 nxt/stage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index adf3344..2dac693 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -372,6 +372,10 @@ class Stage:
                 layer_data = nxt_io.load_file_data(sub_layer_path)
                 if not layer_data:
                     continue
+                if self.check_for_layer_ref_cycle(parent_layer,
+                                                  layer_data['real_path']):
+                    raise IOError('{} is already being '
+                                  'opened'.format(layer_data['real_path']))
             except IOError as e:
                 msg_pattern = "Failed to open {} referenced by {}"
                 logger.exception(msg_pattern.format(sub_layer_path, real_path))
-- 
2.43.0


From 267b345fc227d703b89508ccd16ca290bfbe3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 06/67] fix: keep a layer's muted and soloed state when opening
 it

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 829ccd9..8bf3add 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE) or False
+        self.solo = layer_data.get(SAVE_KEY.SOLO) or False
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From 79dedf388c5060eaa92ee6be831f216c2fb69da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 07/67] fix: move every descendant along when a node is renamed

---
 nxt/stage.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 2dac693..9ed3136 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1339,6 +1339,13 @@ class Stage:
             child_node = layer.lookup(child_path)
             if child_node is not None:
                 children += [child_node]
+        # Descendants whose parent does not exist on this layer
+        implied_children = []
+        for path, desc in layer.descendants(return_type=layer.RETURNS.NodeTable):
+            if desc in children or not nxt_path.is_ancestor(path, old_node_path):
+                continue
+            if layer.ancestors(path)[0] is node:
+                implied_children += [desc]
 
         if not force:
             # Get the comp layer as the scope where possible to avoid re-comp
@@ -1379,6 +1386,11 @@ class Stage:
         layer.clear_node_child_cache(old_node_path)
         if children:
             self.parent_nodes(children, new_node_path, layer, check_names=False)
+        for desc in implied_children:
+            desc_parent = getattr(desc, INTERNAL_ATTRS.PARENT_PATH)
+            desc_parent = nxt_path.replace_ancestor(desc_parent, old_node_path,
+                                                    new_node_path)
+            self.parent_nodes([desc], desc_parent, layer, check_names=False)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From 5999ab2be266814bbaf31e096e26453810846add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 08/67] fix: do not reuse the name of a node on a muted layer

---
 nxt/stage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9ed3136..34dcd72 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -471,10 +471,12 @@ class Stage:
                 name = name + '1'
         else:
             name = 'node'
+        # A muted layer's own nodes are not part of the comp layer
+        spec_layer = layer
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+        if not layer.lookup(test_path) and not spec_layer.lookup(test_path):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -482,7 +484,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not layer.lookup(test_ns) and not spec_layer.lookup(test_ns):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
-- 
2.43.0


From c343c16261a4a8fc2f8a9f23ddcc4201a7245f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 09/67] fix: do not overwrite the attributes of a muted layer's
 node

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 8bf3add..568bab8 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1122,7 +1122,7 @@ def get_node_local_attr_names(node_path, layers):
     """Get all attribute names that are local to the given node path within
     the given layers.
 
-    NOTE that layers are filtered to active layers.
+    NOTE that layers are filtered to active layers if there are several.
 
     :param node_path: node path to find local attributes of
     :type node_path: str
@@ -1134,6 +1134,9 @@ def get_node_local_attr_names(node_path, layers):
     local_attrs = []
     # TODO should we filter for active layers or expect callers to?
     active_layers = get_active_layers(layers)
+    if len(layers) == 1:
+        # The attrs of one layer are still there when that layer is muted
+        active_layers = layers
     for layer in active_layers:
         node = layer.lookup(node_path)
         if not node:
-- 
2.43.0


From 4aaeabc1f2957774bdd616eed123e094636844cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 10/67] fix: delete a node whose descendants have missing
 parents

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 34dcd72..a80f683 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -844,7 +844,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            # Implied descendants have no spec to remove
+            remove_node_paths += [p for p in descendants if layer.lookup(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From fda22b79ded795da7e3f4dccb0bb9669b8497243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 11/67] fix: save a layer's locked state

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 568bab8..39f3774 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -887,6 +887,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.get_locked(local=True):
+            save_dict[SAVE_KEY.LOCK] = True
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
-- 
2.43.0


From 9bad1f2b5b042db0addc8baefb8e8ce9f8fec8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 12/67] fix: remove a lock override

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 39f3774..2436cb1 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -818,7 +818,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From ef7cfb5f4008926a5e64fe08d6b2ee346bc1e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 13/67] fix: save a session's graph by its path

---
 nxt/session.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..9534c60 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -115,12 +115,11 @@ class Session(object):
         current_path = None
         if graph_file_path:
             current_path = os.path.normcase(graph_file_path)
-        if current_path in (k[0] for k in self._loaded_files.keys()):
-            self._loaded_files[current_path].save_layer(filepath=target_path)
-            if current_path != target_path:
-                changed_graph = self._loaded_files.pop(current_path)
-                self._loaded_files[target_path] = changed_graph
-            return True
+        for stage in self._loaded_files.values():
+            real_path = stage.top_layer.real_path
+            if not real_path or os.path.normcase(real_path) != current_path:
+                continue
+            return stage.top_layer.save(filepath=target_path) is not None
         else:
             return False
 
-- 
2.43.0


From 7eb717a54487f6a45d119fde645178285762468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 14/67] fix: give every open graph its own uid

---
 nxt/stage.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a80f683..f99d7cb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4261,13 +4261,24 @@ def composite_lists(list_1, list_2):
     return composite_list
 
 
+_last_float_uuid = 0.0
+
+
 def nxt_uuid(extra=0, f=False):
     """Creates an ALMOST guaranteed unique id int.
     :param f: If True the float value will be returned else int will
     :param extra: An extra int that helps with the uniqueness problem.
     :return: int"""
+    global _last_float_uuid
     if f:
-        return float((time.time()) + extra)
+        uid = float((time.time()) + extra)
+        # The clock can be too coarse to tell two calls apart, or be set back.
+        step = 1e-6
+        while uid <= _last_float_uuid:
+            uid = _last_float_uuid + step
+            step *= 2
+        _last_float_uuid = uid
+        return uid
     else:
         uid = (time.time() * 10) + extra
         return int(uid)
-- 
2.43.0


From 8c331e853556eea2bb822a074136f357e7f8d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 15/67] fix: name new graphs apart

---
 nxt/nxt_layer.py | 3 ++-
 nxt/stage.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 2436cb1..56f5744 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -4,6 +4,7 @@
 import os
 import json
 import copy
+import re
 import logging
 import time
 import sys
@@ -832,7 +833,7 @@ class SpecLayer(object):
         filepath = filepath or self.real_path
         # Update graph name
         graph_name = os.path.splitext(os.path.basename(filepath))[0]
-        if self.get_alias(local=True) == UNTITLED:
+        if re.match(UNTITLED + r'\d*$', str(self.get_alias(local=True))):
             self.set_alias(graph_name)
         save_data = self.get_save_data()
         try:
diff --git a/nxt/stage.py b/nxt/stage.py
index f99d7cb..80dd57a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -148,7 +148,7 @@ class Stage:
         if layer_data:
             self.load_from_file(layer_data)
         else:
-            self.new_layer(0, {'name': name})
+            self.new_layer(0, {SAVE_KEY.ALIAS: name})
 
     @property
     def next_node(self):
-- 
2.43.0


From a85a12f16c5d5fab508ea7ca643c08e43930c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 16/67] fix: let two processes create the user directory at
 once

---
 nxt/constants.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nxt/constants.py b/nxt/constants.py
index c9f984b..4d6b744 100644
--- a/nxt/constants.py
+++ b/nxt/constants.py
@@ -44,14 +44,24 @@ if SITE_DIR_ENV_VAR in os.environ:
 CONFIG_VERSION = str(API_VERSION.MAJOR)
 USER_CONFIG_DIR = os.path.join(USER_DIR, 'config', CONFIG_VERSION)
 if not os.path.isdir(USER_CONFIG_DIR):
-    os.makedirs(USER_CONFIG_DIR)
+    try:
+        os.makedirs(USER_CONFIG_DIR)
+    except OSError:
+        # Another process may have just made it
+        if not os.path.isdir(USER_CONFIG_DIR):
+            raise
 SITE_CONFIG_DIR = os.path.join(SITE_DIR, 'config', CONFIG_VERSION)
 # Plugins
 PLUGIN_DIR_NAME = 'plugins'
 BUILTIN_PLUGIN_DIR = os.path.join(os.path.dirname(__file__), PLUGIN_DIR_NAME)
 USER_PLUGIN_DIR = os.path.join(USER_CONFIG_DIR, PLUGIN_DIR_NAME)
 if not os.path.isdir(USER_PLUGIN_DIR):
-    os.makedirs(USER_PLUGIN_DIR)
+    try:
+        os.makedirs(USER_PLUGIN_DIR)
+    except OSError:
+        # Another process may have just made it
+        if not os.path.isdir(USER_PLUGIN_DIR):
+            raise
 SITE_PLUGIN_DIR = os.path.join(SITE_CONFIG_DIR, PLUGIN_DIR_NAME)
 PLUGIN_DIRS = [USER_PLUGIN_DIR, SITE_PLUGIN_DIR, BUILTIN_PLUGIN_DIR]
 
-- 
2.43.0


From c4e585e5cf8b6be52b13a02a91185ff1c82a4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 17/67] fix: keep track of session logs when the tracking file
 fails

---
 nxt/nxt_log.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..73f7049 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -19,6 +19,7 @@ else:
 
 # Internal
 from .constants import USER_DIR
+from .atomic_file import open_atomic
 
 VERBOSE_ENV_VAR = 'NXT_VERBOSE'
 
@@ -108,13 +109,16 @@ def track_log_file(path):
     remove_age = 60*60*48  # in seconds (currently 48 hours)
 
     existing_logs = []
+    unreadable = False
     try:
         with open(meta_log_location, 'r') as meta_log_file:
             # stripping of trailing newlines
             existing_logs = [line.rstrip() for line in meta_log_file.readlines()]
-    except IOError:
+    except IOError as err:
         logger.exception('Error tracking log file!')
-        pass
+        unreadable = err.errno != errno.ENOENT
+    except ValueError:
+        logger.exception('Error reading tracked log files!')
     # Remove old logs
     for log_path in existing_logs[:]:
         is_file = os.path.isfile(log_path)
@@ -142,7 +146,12 @@ def track_log_file(path):
     # add given log and write meta log
     existing_logs.append(path)
     try:
-        with open(meta_log_location, 'w') as meta_log_file:
+        # The logs in an unreadable meta log still exist, don't forget them.
+        open_meta_log = open if unreadable else open_atomic
+        with open_meta_log(meta_log_location,
+                           'a' if unreadable else 'w') as meta_log_file:
+            if unreadable:
+                meta_log_file.write('\n')
             # add trailing newlines to make meta log human readable.
             meta_log_file.writelines([line + '\n' for line in existing_logs])
     except IOError:
-- 
2.43.0


From c2e0368c5188f18250287885656a63bf66017054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 18/67] fix: give every session a log file of its own

---
 nxt/nxt_log.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 73f7049..a9e269e 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -268,7 +268,19 @@ def get_new_session_log_filename():
             raise
     log_filename_template = "nxt_session_{time}.log"
     log_filename = log_filename_template.format(time=str(int(time.time())))
-    return os.path.join(log_dir, log_filename)
+    base_path, ext = os.path.splitext(os.path.join(log_dir, log_filename))
+    log_path = base_path + ext
+    count = 0
+    while True:
+        # Sessions started within the same second must not share a log.
+        try:
+            os.close(os.open(log_path, os.O_CREAT | os.O_EXCL, 0o666))
+            return log_path
+        except OSError as err:
+            if err.errno != errno.EEXIST:
+                raise
+        count += 1
+        log_path = '{}_{}{}'.format(base_path, count, ext)
 
 
 def stop_session_log(filename):
-- 
2.43.0


From bb2f19729dad160531c0e360821ab98977e4f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 19/67] fix: receive log records that arrive in pieces

---
 nxt/nxt_log.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index a9e269e..49104f5 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -323,13 +323,13 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
         according to whatever policy is configured locally.
         """
         while True:
-            chunk = self.connection.recv(4)
+            chunk = self.receive(4)
             if len(chunk) < 4:
                 break
             slen = struct.unpack('>L', chunk)[0]
-            chunk = self.connection.recv(slen)
-            while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+            chunk = self.receive(slen)
+            if len(chunk) < slen:
+                break
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
@@ -337,6 +337,22 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             record = logging.makeLogRecord(obj)
             self.handle_log_record(record)
 
+    def receive(self, size):
+        """Receive exactly the given number of bytes, which can take several
+        reads. Fewer bytes are returned only if the connection was closed.
+
+        :param size: number of bytes to receive
+        :type size: int
+        :rtype: bytes
+        """
+        data = b''
+        while len(data) < size:
+            chunk = self.connection.recv(size - len(data))
+            if not chunk:
+                break
+            data += chunk
+        return data
+
     def un_pickle(self, data):
         return pickle.loads(data)
 
-- 
2.43.0


From aee3d82ef53f6c32423c4d4fd7921a7f75cdda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 20/67] fix: let go of the port when the log receiver is
 stopped

---
 nxt/nxt_log.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 49104f5..e4d9453 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -377,6 +377,8 @@ class LogRecordSocketReceiver(SocketServer.ThreadingTCPServer):
     """
 
     allow_reuse_address = 1
+    # Clients that stay connected must not keep this process from exiting
+    daemon_threads = True
 
     def __init__(self, host='localhost',
                  port=logging.handlers.DEFAULT_TCP_LOGGING_PORT,
@@ -397,6 +399,8 @@ class LogRecordSocketReceiver(SocketServer.ThreadingTCPServer):
             if rd:
                 self.handle_request()
             abort = self.abort
+        # Free the port
+        self.socket.close()
 
 
 record_receiver = None
@@ -414,6 +418,7 @@ def startup_log_socket(stream_handler=LogRecordStreamHandler):
     record_receiver = LogRecordSocketReceiver(handler=stream_handler)
     logging.info('About to start logging TCP server...')
     tcp_thread = threading.Thread(target=record_receiver.serve_until_stopped)
+    record_receiver.tcp_thread = tcp_thread
     tcp_thread.start()
 
 
@@ -421,3 +426,6 @@ def shutdown_log_socket():
     global record_receiver
     if record_receiver:
         record_receiver.kill = True
+        # The port can't be used again until the thread has closed the socket
+        record_receiver.tcp_thread.join()
+        record_receiver = None
-- 
2.43.0


From c9fe23282451f2a8de3871a19271f72bcf1e3afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 21/67] fix: end the execution order of nodes executing in a
 circle

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 56f5744..1adeab0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -621,6 +621,8 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
+                if self.get_node_path(root) in exec_order:
+                    continue  # Nodes executing in a circle would never end
                 prev_root_path = self.get_node_path(root)
                 exec_order += [prev_root_path]
                 break  # for loop
-- 
2.43.0


From 6918761349f9e7926d9f7417f087f2d652c715d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 22/67] fix: give a node its own self back after a nested
 execute

---
 nxt/stage.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 80dd57a..cd0c474 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4020,7 +4020,7 @@ class Stage:
         if parameters:
             self.set_runtime_parameters(parameters, runtime_layer)
 
-        def execute(paths=(), start=None, parameters=None):
+        def nested_execute(paths=(), start=None, parameters=None):
             if (paths and start) or (not paths and not start) or not \
                     isinstance(paths, (list, tuple)):
                 raise ValueError("Must give either a start point or a list of,"
@@ -4030,6 +4030,22 @@ class Stage:
                              parameters=parameters)
             else:
                 self.execute_nodes(paths, runtime_layer, parameters=parameters)
+
+        def execute(paths=(), start=None, parameters=None):
+            # Give control back to the calling node whatever happens
+            console = runtime_layer._console
+            caller = console.globals.get('self')
+            caller_path = console.node_path
+            caller_lines = console.running_lines
+            running = runtime_layer.running
+            try:
+                nested_execute(paths, start, parameters)
+            finally:
+                console.globals['self'] = caller
+                console.node_path = caller_path
+                console.running_lines = caller_lines
+                runtime_layer.running = running
+
         # Setup console for this runtime layer
         console_globals = {'STAGE': layer_node,
                            '__stage__': self,
-- 
2.43.0


From 7f48a38cd9cacc48118ace0758661021169bf556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 23/67] fix: time a node that executes itself

---
 nxt/nxt_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 1adeab0..5f57725 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1020,7 +1020,8 @@ class CacheLayer(SpecLayer):
             node_runs = self.node_time_map[node_path]
         except IndexError:
             raise IndexError('No start time set for {}'.format(node_path))
-        for run_time in node_runs:
+        # A node can run again within its own run, the innermost ends first
+        for run_time in reversed(node_runs):
             if run_time[1] is None:
                 run_time.pop(1)
                 run_time += [t]
-- 
2.43.0


From cc24bdf17332fca26d39b56f202e43022c3ba58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:56 +0000
Subject: [PATCH 24/67] fix: leave a clean runtime layer when a node is
 interrupted

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index cd0c474..dcc168d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4160,6 +4160,12 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
+    except BaseException:
+        # Interrupted, e.g. by KeyboardInterrupt
+        if not console.run_as_global:
+            clean_globals(lines, good_keys, console.globals)
+        runtime_layer.running = False
+        raise
     runtime_layer.running = False
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
-- 
2.43.0


From d7d37cda576fda8c708d5f36d283de0ed84d1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:03 +0000
Subject: [PATCH 25/67] fix: keep nodes collapsed when they or their ancestors
 move

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index dcc168d..a92ddda 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1212,6 +1212,9 @@ class Stage:
                     updated_path = nxt_path.replace_ancestor(path, old_path,
                                                              new_path)
                     _path_data[updated_path] = _path_data.pop(path)
+                    for data in (_collapse_data, _top_collapse_data):
+                        if path in data:
+                            data[updated_path] = data.pop(path)
                     _node_data[n] = updated_path
                     n_parent_path = getattr(n, INTERNAL_ATTRS.PARENT_PATH)
                     new_parent_path = nxt_path.replace_ancestor(n_parent_path,
@@ -1382,6 +1385,9 @@ class Stage:
             active_dict = self.top_layer.positions
             if old_node_path in list(active_dict.keys()):
                 active_dict[new_node_path] = active_dict.pop(old_node_path)
+            active_dict = self.top_layer.collapse
+            if old_node_path in list(active_dict.keys()):
+                active_dict[new_node_path] = active_dict.pop(old_node_path)
         if node not in layer._nodes_node_as_key.keys():
             raise Exception("Node rename failed!")
         layer._nodes_node_as_key[node] = new_node_path
-- 
2.43.0


From 07c58d405e84781697fc6abab7093ba9c646ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 26/67] fix: look up the rpc server whatever its info file
 holds

---
 nxt/remote/__init__.py | 29 +++++++++++++++++++++++------
 nxt/remote/server.py   |  3 ++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/nxt/remote/__init__.py b/nxt/remote/__init__.py
index a2cd15b..b310ce2 100644
--- a/nxt/remote/__init__.py
+++ b/nxt/remote/__init__.py
@@ -12,12 +12,11 @@ def get_running_server_address(as_str=True):
     server_info_filepath = get_server_info_filepath()
     valid_data = False
     if os.path.isfile(server_info_filepath):
-        with open(server_info_filepath, 'r') as fp:
-            lines = fp.readlines()
-            if len(lines) == 2:
-                _, port = lines
-                port = int(port)
-                valid_data = True
+        lines = read_server_info(server_info_filepath)
+        if len(lines) == 2 and is_port_number(lines[1]):
+            _, port = lines
+            port = int(port)
+            valid_data = True
     if not valid_data:
         logger.error('No running server could be found, returning defaults!')
     if as_str:
@@ -26,6 +25,24 @@ def get_running_server_address(as_str=True):
         return host, port
 
 
+def read_server_info(server_info_filepath):
+    """Reads the lines of the server info file, anyone can write to the temp
+    dir so the file may be gone, unreadable or not ours at all.
+    """
+    try:
+        with open(server_info_filepath, 'r') as fp:
+            return fp.readlines()
+    except (IOError, OSError, ValueError):
+        return []
+
+
+def is_port_number(text):
+    try:
+        return 0 < int(text) < 65536
+    except ValueError:
+        return False
+
+
 def get_server_info_filepath():
     temp_dir = tempfile.gettempdir()
     server_info_filepath = os.path.join(temp_dir, 'NXT_RPC_SERVER')
diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..1589f0f 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -20,6 +20,7 @@ from nxt.stage import GraphError
 from nxt.remote import get_server_info_filepath
 import nxt.remote.contexts
 from nxt import nxt_path, nxt_io, nxt_log
+from nxt.atomic_file import open_atomic
 
 server = None
 logger = logging.getLogger('nxt')
@@ -178,7 +179,7 @@ def secure_address():
     s.bind(('', 0))
     s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
     _, port = s.getsockname()
-    with open(server_info_filepath, 'w+') as fp:
+    with open_atomic(server_info_filepath) as fp:
         fp.write('localhost' + '\n')
         fp.write(str(port))
     return 'localhost', port
-- 
2.43.0


From 04e34b5956d4c926196d4fd40502eec6e976a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 27/67] fix: leave no rpc server behind, and no one else's
 stopped

---
 nxt/remote/server.py |  7 +++++
 nxt/session.py       | 67 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 1589f0f..db67a50 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -63,6 +63,13 @@ class ServerFunctions(object):
         logger.info("rpc server is alive and ready")
         return True
 
+    @staticmethod
+    def get_pid():
+        """Simple method for clients to find out which process the server is.
+        :return: int
+        """
+        return os.getpid()
+
     @staticmethod
     def exec_in_headless(filepath, start_node, cache_path,
                          parameters, context_name):
diff --git a/nxt/session.py b/nxt/session.py
index 9534c60..2ce7d50 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -259,6 +259,7 @@ class Session(object):
 
 class RPCServerProcess(object):
     STARTUP_TIMEOUT = 5
+    SHUTDOWN_TIMEOUT = 5
 
     def __init__(self, use_custom_stdout=False, stdout_filepath=None,
                  socket_log=False, stream_handler=None):
@@ -316,6 +317,25 @@ class RPCServerProcess(object):
             _, port = get_running_server_address(as_str=False)
             raise OSError('Port {} is not available!'.format(port))
         old_env_verbosity = os.environ.get(nxt_log.VERBOSE_ENV_VAR, None)
+        try:
+            self._launch()
+        except BaseException:
+            # Until there is a sub-process any running server is not ours
+            if self.terminal:
+                self.terminate()
+            raise
+        finally:
+            if old_env_verbosity is not None:
+                os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
+            else:
+                os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
+        return True
+
+    def _launch(self):
+        """Starts the sub-process and waits for the server to answer.
+
+        :raises: OSError
+        """
         if self.socket_logging:
             os.environ[nxt_log.VERBOSE_ENV_VAR] = 'socket'
         if self.use_custom_stdout:
@@ -330,8 +350,16 @@ class RPCServerProcess(object):
         call = [sys.executable, '-m', 'nxt.remote.server', self.server_log_file]
         logger.debug("Calling: ")
         logger.debug(str(call))
-        self.terminal = subprocess.Popen(call, stdout=server_log_handle,
-                                         stderr=server_log_handle)
+        try:
+            self.terminal = subprocess.Popen(call, stdout=server_log_handle,
+                                             stderr=server_log_handle)
+        except OSError:
+            if self.use_custom_stdout:
+                nxt_log.shutdown_log_socket()
+            raise
+        finally:
+            if server_log_handle:
+                server_log_handle.close()
         count = 0
         while count < self.STARTUP_TIMEOUT:
             logger.debug('Waiting on rpc server...')
@@ -339,12 +367,9 @@ class RPCServerProcess(object):
             count += 1
             if self.is_running():
                 break
-        if count == self.STARTUP_TIMEOUT:
+        else:
             raise OSError('Failed to start RPC server!')
         logger.debug('rpc server started')
-        if old_env_verbosity is not None:
-            os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
-        return True
 
     def is_running(self):
         """Attempts to connect to the rpc server as a client, if that fails
@@ -368,13 +393,17 @@ class RPCServerProcess(object):
 
     def terminate(self):
         """Attempts to kill the rpc server.
-        Note: The server is killed even if it isn't owned by this class!
+        Note: If this instance didn't start a server, the running one is
+        killed even though it isn't owned by this class!
 
         :return: None
         """
+        told = False
         try:
             proxy = NxtClient()
-            proxy.kill()
+            if not self.terminal or proxy.get_pid() == self.terminal.pid:
+                proxy.kill()
+                told = True
         except Exception as e:
             if getattr(e, 'errno', -1) == 10061 and self.terminal:
                 try:
@@ -391,8 +420,30 @@ class RPCServerProcess(object):
                     logger.debug('RPC server has shutdown!')
                 except:
                     logger.warning('Unable to kill rpc process!')
+        self._end_subprocess(told)
         nxt_log.shutdown_log_socket()
 
+    def _end_subprocess(self, told):
+        """Makes sure the sub-process this instance started is gone.
+
+        :param told: True if the server was told to shut down
+        """
+        if not self.terminal:
+            return
+        stops = [self.terminal.terminate, self.terminal.kill]
+        if told:
+            stops.insert(0, lambda: None)
+        for stop in stops:
+            try:
+                stop()
+            except OSError:
+                logger.warning('Unable to kill rpc process!')
+            for _ in range(self.SHUTDOWN_TIMEOUT * 10):
+                if self.terminal.poll() is not None:
+                    self.terminal = None
+                    return
+                time.sleep(.1)
+
     @staticmethod
     def is_port_available():
         """Checks if the rpc port is occupied.
-- 
2.43.0


From 5a7bd835d9bd16452e5eaa25efc0e6ac22bae2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 28/67] fix: refuse connections once the rpc server has shut
 down

---
 nxt/remote/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index db67a50..d68e030 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -205,6 +205,8 @@ def run_server(address=None, log_requests=False):
     logger.info('Threaded nxt rpc server started!')
     logger.debug('Listening on:  {}'.format(address))
     server.serve_forever()
+    # Whoever connects from now on must be refused, not left waiting
+    server.server_close()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From a224e4a20470eade6ed932c0001e3b994afcf973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:29 +0000
Subject: [PATCH 29/67] fix: keep false, zero and empty values when saving
 nodes

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1a6560f 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 6f96b2a2acecceb07cea7e6d0c704f9f2621927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 30/67] fix: start execution at the given start point index

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a92ddda..457f22f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3829,7 +3829,7 @@ class Stage:
             start_nodes = self.get_layer_start_nodes(layer)
             if not start_nodes:
                 raise ValueError("No start specified and no start nodes.")
-            start_path = start_nodes[0]
+            start_path = start_nodes[start or 0]
         exec_order = layer.get_exec_order(start_path)
         return self.execute_nodes(exec_order, layer, parameters)
 
-- 
2.43.0


From 72e8a431d1dde0570505a86147ee97730c60a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 31/67] fix: remote executions see and return what local ones
 do

---
 nxt/builtin/_context.nxt        |  8 +++++++-
 nxt/builtin/remote_contexts.nxt | 10 +++++++---
 nxt/remote/client.py            | 12 ++++++++++++
 nxt/remote/server.py            | 13 +++++++++++--
 nxt/session.py                  |  6 ++++++
 5 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/nxt/builtin/_context.nxt b/nxt/builtin/_context.nxt
index c46d708..012c9d5 100644
--- a/nxt/builtin/_context.nxt
+++ b/nxt/builtin/_context.nxt
@@ -124,9 +124,15 @@
                 "            continue", 
                 "        if attr_name in ('_graph_path', '_start', '_parameters'):", 
                 "            continue", 
+                "        # Ours, not the sub graph's", 
+                "        if attr_name in ('_cache_file', 'cache_file', 'graph_file', 'parameters_file', 'start_node'):", 
+                "            continue", 
                 "        attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)", 
                 "        self._parameters[attr_path] = attr_val", 
-                "    result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    try:", 
+                "        result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    except ExitGraph as exit_graph:", 
+                "        result_rt_layer = exit_graph.runtime_layer", 
                 "    if self._cache_file:", 
                 "        result_rt_layer.cache_layer.save('${_cache_file}')", 
                 "    # Bring attributes back from world node onto this node", 
diff --git a/nxt/builtin/remote_contexts.nxt b/nxt/builtin/remote_contexts.nxt
index 844ad52..82fd174 100644
--- a/nxt/builtin/remote_contexts.nxt
+++ b/nxt/builtin/remote_contexts.nxt
@@ -45,10 +45,12 @@
                 "",
                 "logger = logging.getLogger('nxt')",
                 "proxy = NxtClient()",
-                "parameters = {}",
+                "parameters = dict(${_parameters} or {})",
                 "node_dict = get_node_as_dict(self)",
                 "node_attrs = node_dict.get(nxt_io.SAVE_KEY.ATTRS, {})",
                 "for attr_name, attr_dict in node_attrs.items():",
+                "    if attr_name in ('_graph_path', '_start', '_parameters', '_context'):",
+                "        continue",
                 "    attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)",
                 "    try:",
                 "        val = attr_dict[META_ATTRS.VALUE]",
@@ -60,14 +62,16 @@
                 "cache_path = None",
                 "cache_file = None",
                 "# Call the rpc server",
-                "cache_file = proxy.exec_in_headless(self._graph_path, start, cache_path, ",
+                "# The server has another working directory",
+                "graph_path = nxt_path.full_file_expand(self._graph_path)",
+                "cache_file = proxy.exec_in_headless(graph_path, start, cache_path, ",
                 "                                    parameters, context)",
                 "self.ret = cache_file",
                 "file_data = {}",
                 "try:",
                 "    file_data = nxt_io.load_file_data(cache_file)",
                 "except:",
-                "    raise GraphError('Failed to open cache from remote sub graph. '",
+                "    raise RuntimeError('Failed to open cache from remote sub graph. '",
                 "                     'Usually this means the sub graph did not execute')",
                 "nodes = file_data.get(nxt_io.SAVE_KEY.NODES, {})",
                 "world_node = nodes.get(nxt_path.WORLD, {})",
diff --git a/nxt/remote/client.py b/nxt/remote/client.py
index ac330b6..3281706 100644
--- a/nxt/remote/client.py
+++ b/nxt/remote/client.py
@@ -1,4 +1,5 @@
 # Builtin
+import json
 import sys
 if sys.version_info[0] == 2:
     from xmlrpclib import ServerProxy
@@ -16,5 +17,16 @@ class NxtClient(ServerProxy, object):
         self.address = address
         super(NxtClient, self).__init__(self.address, allow_none=True)
 
+    def exec_in_headless(self, filepath, start_node, cache_path,
+                         parameters, context_name):
+        """See `nxt.remote.server.ServerFunctions.exec_in_headless`. The
+        parameters are sent as json because xml can't carry every string and
+        number they may hold.
+        """
+        if parameters:
+            parameters = json.dumps(parameters)
+        call = self.__getattr__('exec_in_headless')
+        return call(filepath, start_node, cache_path, parameters, context_name)
+
     def __repr__(self):
         return self.address
diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index d68e030..d1c7589 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -112,6 +112,9 @@ class ServerFunctions(object):
         if parameters:
             parameters_file = nxt_io.generate_temp_file()
             parameters_file = parameters_file.replace(os.sep, '/')
+            if not isinstance(parameters, dict):
+                # Sent as json by the NxtClient
+                parameters = json.loads(parameters)
             with open(parameters_file, 'w+') as fp:
                 json.dump(parameters, fp, separators=(',', ': '))
         else:
@@ -123,6 +126,9 @@ class ServerFunctions(object):
                     'Context Graph: {}\n'.format(context, context_exe,
                                                  context_graph))
         logger.info('Cache location: {}\n'.format(cache_path))
+        # Whatever it holds is not the result of this execution
+        if os.path.isfile(cache_path):
+            os.remove(cache_path)
         # Format the cli call
         safe_graph_path = nxt_path.full_file_expand(filepath)
         # open context with graph and parameters
@@ -130,6 +136,8 @@ class ServerFunctions(object):
         cli_args = ['exec', context_graph, '-p',
                     '/.graph_file', safe_graph_path,
                     '/.cache_file', cache_path]
+        if start_node:
+            cli_args += ['/enter/call_graph._start', start_node]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
@@ -142,8 +150,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
@@ -157,6 +163,9 @@ class ServerFunctions(object):
         except subprocess.CalledProcessError:
             raise RuntimeError('Remote context graph "{}" failed! See log...'
                                ''.format(safe_graph_path))
+        if not os.path.isfile(cache_path):
+            raise RuntimeError('Remote context graph "{}" failed! See log...'
+                               ''.format(safe_graph_path))
         return cache_path
 
     def kill(self):
diff --git a/nxt/session.py b/nxt/session.py
index 2ce7d50..9c408fb 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -176,6 +176,12 @@ class Session(object):
             finally:
                 self.shutdown_rpc_server()
         else:
+            # The server has another working directory
+            filepath = nxt_path.full_file_expand(filepath)
+            if start is not None and not isinstance(start, str):
+                # The server only knows node paths
+                start_nodes = stage.get_layer_start_nodes(stage.build_stage())
+                start = start_nodes[start]
             self._start_rpc_server()
             proxy = NxtClient()
             try:
-- 
2.43.0


From 4ae5ce603a090e06eaf6f301392f7354a311b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 32/67] fix: close and remove the temp files of remote
 executions

---
 nxt/nxt_io.py        | 3 ++-
 nxt/remote/server.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index a71438d..b3f062a 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -157,7 +157,8 @@ def generate_temp_file(suffix='.nxt'):
     :param suffix: Optional suffix for the file, default is `.nxt`
     :return: String filepath
     """
-    _, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    fd, cache_filepath = tempfile.mkstemp(suffix=suffix)
+    os.close(fd)
     return cache_filepath.replace(os.sep, '/')
 
 
diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index d1c7589..a3b7fdb 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -163,6 +163,12 @@ class ServerFunctions(object):
         except subprocess.CalledProcessError:
             raise RuntimeError('Remote context graph "{}" failed! See log...'
                                ''.format(safe_graph_path))
+        finally:
+            try:
+                if parameters_file:
+                    os.remove(parameters_file)
+            except OSError:
+                logger.debug('Failed to remove ' + parameters_file)
         if not os.path.isfile(cache_path):
             raise RuntimeError('Remote context graph "{}" failed! See log...'
                                ''.format(safe_graph_path))
-- 
2.43.0


From ebb0074bb83f113b062359ae066c17f620bf4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 33/67] fix: create contexts that find the graph they were
 given

---
 nxt/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index b1d47b8..2709a9f 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -125,10 +125,8 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         if not os.path.isfile(expanded_context_graph):
             raise IOError('The context graph you provided does not exist! '
                           '"{}"'.format(context_graph))
-        root = os.path.commonprefix((context_graph, context_py_filepath))
-        if root:
-            context_graph = os.path.relpath(context_graph, root)
-        context_graph.replace(os.sep, '/')
+        # Whoever loads the context has another working directory
+        context_graph = expanded_context_graph
 
     py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
                            context_graph=context_graph, args=exe_script_args)
-- 
2.43.0


From 9a63ab8168ec6a3f5627711c314d3875f98806c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:50 +0000
Subject: [PATCH 34/67] fix: save to a temp file when no path is given

---
 nxt/nxt_io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index b3f062a..bbaaa94 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -126,13 +126,12 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     """
     start = time.time()
     ext = file_format
+    filepath = filepath or generate_temp_file(suffix=ext)
     _, filepath_ext = os.path.splitext(filepath)
     if filepath_ext not in FILE_FORMAT._ALL:
         raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
     elif filepath_ext != ext:
         ext = filepath_ext
-    filepath = filepath or tempfile.mkstemp(prefix='nxt_tmp_',
-                                            suffix=ext)[1]
     filepath = filepath.replace(os.sep, '/')
     if not filepath.endswith(ext):
         filepath += ext
-- 
2.43.0


From f396a87e3de340173426b8ce2dc3724eb2356ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:50 +0000
Subject: [PATCH 35/67] fix: send whole messages to the listener, or none

---
 nxt/remote/nxt_socket.py | 52 +++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index bd3ed3c..64c1407 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -4,6 +4,7 @@ import json
 import logging
 import socket
 import pickle
+import threading
 
 # Internal
 from nxt.stage import Stage
@@ -25,6 +26,8 @@ MODEL_VAR = '__nxt_model__'
 global __nxt_server__
 __nxt_server__ = None
 SERVER_VAR = '__nxt_server__'
+# Messages of different threads must not end up inside of each other
+_send_lock = threading.RLock()
 
 
 class COM_TYPE(object):
@@ -45,7 +48,11 @@ def setup():
     """
     s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
     s.setblocking(1)
-    s.connect((HOST, COM_PORT))
+    try:
+        s.connect((HOST, COM_PORT))
+    except Exception:
+        s.close()
+        raise
     logger.socket('Connected to: {}:{}'.format(HOST, COM_PORT))
     global __nxt_server__
     __nxt_server__ = s
@@ -193,9 +200,12 @@ class SocketClientModel(object):
         :return: None
         """
         logger.socket('Connecting to listener...')
-        self.server = setup()
         global __nxt_server__
+        previous = __nxt_server__
+        self.server = setup()
         __nxt_server__ = self.server
+        if previous:
+            previous.close()
         setup_socket_log = True
         for log_handler in logger.handlers:
             if isinstance(log_handler, NXTSocketLogHandler):
@@ -233,7 +243,7 @@ def send_log(record):
     :return: None
     """
     links = getattr(record, 'links', None)
-    data_dict = format_msg([record.levelno, record.message, links],
+    data_dict = format_msg([record.levelno, record.getMessage(), links],
                            COM_TYPE.LOG)
     send_to_server(data_dict)
 
@@ -252,15 +262,25 @@ def send_to_server(data_dict):
         logger.error("No server! Try toggling the command port.")
         return
     msg = pickle.dumps(data_dict)
-    header = bytes("{:<{}}".format(len(msg), HEADER_SIZE))
+    header = "{:<{}}".format(len(msg), HEADER_SIZE).encode('ascii')
     data = header + msg
     # logger.debug('Size of data: {}'.format(sys.getsizeof(data)))
     try:
-        __nxt_server__.sendall(data)
+        with _send_lock:
+            server = __nxt_server__
+            if not server:
+                return
+            try:
+                server.sendall(data)
+            except Exception:
+                # Part of the message may have been sent, nothing that
+                # follows could be understood
+                if server is __nxt_server__:
+                    __nxt_server__ = None
+                server.close()
+                raise
     except Exception as e:
-        if e.errno == 10053:  # Stale socket
-            __nxt_server__ = None
-        else:
+        if getattr(e, 'errno', None) != 10053:  # Stale socket
             logger.exception('Failed to send data to socket server!')
 
 
@@ -279,14 +299,14 @@ class IPCWait(object):
             return
         # logger.debug('Telling nxt to wait {}'.format(state))
         send_to_server(format_msg(state, COM_TYPE.WAIT))
-        self.server.settimeout(HANDSHAKE_TIMEOUT)
         try:
+            self.server.settimeout(HANDSHAKE_TIMEOUT)
             okay = self.server.recv(1024)
+            self.server.settimeout(None)
         except Exception as e:
             logger.exception('Failed to receive data from server! Try '
                              'toggling the command port.')
             return
-        self.server.settimeout(None)
         # logger.debug('Server gave okay msg: {}'.format(okay))
         if not okay:
             logger.error('Failed to handshake!')
@@ -306,6 +326,16 @@ class NXTSocketLogHandler(logging.Handler):
     """
     def __init__(self):
         logging.Handler.__init__(self)
+        self._local = threading.local()
 
     def emit(self, record):
-        send_log(record)
+        if getattr(self._local, 'emitting', False):
+            # Sending a record is what made this one
+            return
+        self._local.emitting = True
+        try:
+            send_log(record)
+        except Exception:
+            self.handleError(record)
+        finally:
+            self._local.emitting = False
-- 
2.43.0


From 8dd621a8658c94e0d885932e83ce6c7d93d29c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 36/67] fix: find the children of a node by its path, not by
 the string object

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 5f57725..aaa57ca 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -331,7 +331,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -369,7 +369,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
-- 
2.43.0


From f7c0e0a026742193ef7c387fcb0aa36dc3443b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 37/67] fix: drop the comment of an attribute instead of
 keeping an empty one

---
 nxt/stage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 457f22f..f8b7fa4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1273,6 +1273,8 @@ class Stage:
                                '"{}"'.format(sub_attr))
                 continue
             full_meta_attr = attr + meta_attr
+            if value is None:
+                continue
             setattr(node, full_meta_attr, value)
         if tracked:
             source = (layer.real_path, node_path)
@@ -1504,6 +1506,11 @@ class Stage:
                     self.set_node_code_lines(node, code_lines, comp_layer)
                     continue
                 # Any other attrs
+                if value is None and full_attr_name != attr:
+                    # An empty opinion is not saved, so it can't be kept here
+                    if full_attr_name in vars(node):
+                        delattr(node, full_attr_name)
+                    continue
                 setattr(node, full_attr_name, value)
                 if sub_attr == META_ATTRS.VALUE and tracked:
                     type_name = determine_nxt_type(value)
-- 
2.43.0


From 62d7379b29c9691137045d4bce89a525cd289f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 38/67] fix: transfer a node's data without its place and layer

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f8b7fa4..d5bc964 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1433,13 +1433,16 @@ class Stage:
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
+                val = copy.copy(val)  # The source node keeps its own lists
                 setattr(node, internal_attr, val)
                 setattr(node, internal_attr + META_ATTRS.SOURCE,
                         (layer.real_path, node_path))
         # Un-tracked attrs
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
+            if internal_attr is not INTERNAL_ATTRS.CHILD_ORDER:
+                continue  # Where a node is and its layer are not its data
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
-            val = node_data.get(attr_key)
+            val = copy.copy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
-- 
2.43.0


From 7979f32361e7268b22f16960af94c2cb42f4af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 39/67] fix: keep the place of an implied node that other nodes
 still need

---
 nxt/stage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index d5bc964..a7fd072 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1177,6 +1177,14 @@ class Stage:
                         dummy_root = nxt_path.get_root_path(split_path)
                         child_name = nxt_path.node_name_from_node_path(dummy_root)
                         co = getattr(ancestor, INTERNAL_ATTRS.CHILD_ORDER)
+                        # Others may keep the implied child in its place
+                        for path in list(_path_data.keys()):
+                            if (path.startswith(ancestor_path + child_name +
+                                                nxt_path.NODE_SEP) and
+                                    path != old_path and not
+                                    nxt_path.is_ancestor(path, old_path)):
+                                co = []
+                                break
                         if child_name in co:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
-- 
2.43.0


From b8991908884287d8781e9e536abf715a8f733f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 40/67] fix: list a renamed child once

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index a7fd072..91c7d63 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1380,6 +1380,8 @@ class Stage:
             child_order_copy = child_order[:]
             del child_order[:]
             for item in child_order_copy:
+                if item == name != old_name:
+                    continue  # Never list a child twice
                 if item != old_name:
                     child_order += [item]
                 else:
-- 
2.43.0


From 4b5f9bce030ab4c9f88655f5ed1ab911605d2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 41/67] fix: duplicate children under their own names

---
 nxt/stage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 91c7d63..697b729 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -794,8 +794,13 @@ class Stage:
                 data = get_node_as_dict(ref_child)
                 parent = new_parent
                 lay_idx = layer.layer_idx()
+                # A child by this name may only come from an instance
+                path = nxt_path.join_node_paths(layer.get_node_path(parent),
+                                                name)
+                fix_names = layer.lookup(path) is not None
                 new, new_dirty = self.add_node(name=name, data=data,
-                                               parent=parent, layer=lay_idx)
+                                               parent=parent, layer=lay_idx,
+                                               fix_names=fix_names)
                 dirty += new_dirty
                 created += new
                 desc_parent = new[-1]
-- 
2.43.0


From 8c0ae6934eaa80b0eb74807152ea4f185df5226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:19 +0000
Subject: [PATCH 42/67] fix: order nodes the same before and after saving

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index aaa57ca..9b66459 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -191,6 +191,8 @@ class SpecLayer(object):
         self.sort_node_table()
 
     def sort_node_table(self):
+        # Saved files hold nodes sorted by path, order them the same before
+        self._node_table.sort(key=lambda entry: entry[0])
         self._node_table = sort_multidimensional_list(self._node_table,
                                                       sort_by_idx=0)
 
-- 
2.43.0


From 742d9239ec127fc0c7734d33c71ce5f9c3446966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 43/67] fix: list the children a new node already has

---
 nxt/stage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 697b729..49f2023 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -683,6 +683,13 @@ class Stage:
         layer.clear_node_child_cache(node_parent_path)
         node_ns = nxt_path.str_path_to_node_namespace(node_path)
         layer._node_table += [[node_ns, new_node]]
+        # Children of a node that was only implied so far, as when loading
+        own_order = getattr(new_node, INTERNAL_ATTRS.CHILD_ORDER)
+        for child_path in sorted(layer.children(node_path,
+                                                layer.RETURNS.Path)):
+            child_name = nxt_path.node_name_from_node_path(child_path)
+            if child_name not in own_order:
+                own_order += [child_name]
         setattr(new_node, INTERNAL_ATTRS.SOURCE_LAYER, layer.real_path)
         new_path = layer.get_node_path(new_node)
         logger.info("Added node: " + new_path, links=[new_path])
-- 
2.43.0


From fca5b9e8d9df85052901c7e42cf14d8038c2650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:44 +0000
Subject: [PATCH 44/67] fix: name nodes apart on muted layers too

---
 nxt/stage.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 49f2023..ebe1559 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -440,7 +440,7 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, spec_layer=None):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -459,6 +459,8 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param spec_layer: Layer the node is on, if layer is a comp layer
+        :type spec_layer: SpecLayer
         :return: an unused node name.
         :rtype: str
         """
@@ -472,7 +474,7 @@ class Stage:
         else:
             name = 'node'
         # A muted layer's own nodes are not part of the comp layer
-        spec_layer = layer
+        spec_layer = spec_layer or layer
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
@@ -664,7 +666,8 @@ class Stage:
             name = self.get_unique_node_name(name=name,
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
-                                             layer_only=bool(comp_layer))
+                                             layer_only=bool(comp_layer),
+                                             spec_layer=layer)
         data = data or {}
         data['name'] = name
         if do_targeted_comp:
@@ -1379,7 +1382,8 @@ class Stage:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             spec_layer=layer)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From c916d367a304b3f7f34e2f2dc2f238a817a71dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 45/67] fix: keep the own children of a node listed when its
 data is replaced

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index ebe1559..b130437 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1471,6 +1471,12 @@ class Stage:
             val = copy.copy(node_data.get(attr_key))
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
+                # Children the node has here already stay listed
+                for child_path in sorted(layer.children(node_path,
+                                                        layer.RETURNS.Path)):
+                    name = nxt_path.node_name_from_node_path(child_path)
+                    if val is not None and name not in val:
+                        val += [name]
                 setattr(node, internal_attr, val)
         # User attrs
         attrs = node_data.get('attributes', {})
-- 
2.43.0


From 3c1d597a96a7313cc9817fcaa0289dd0c61b457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 46/67] fix: delete the nodes of a muted layer from a comp

---
 nxt/stage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index b130437..82fd88e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -902,6 +902,10 @@ class Stage:
             other_specs = []
             dirties = comp_layer.get_node_dirties(remove_path)
             dirty_nodes += dirties
+            if comp_node is None:
+                # The nodes of a muted layer are not in the comp
+                idx += 1
+                continue
             for base in comp_node.__bases__:
                 is_comp_node = base.__name__ == CompNode.__name__
                 if is_comp_node:
-- 
2.43.0


From f0a5168a25053dbc625a8ed7c52ddbfb5f613199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:24 +0000
Subject: [PATCH 47/67] fix: keep a moved node's descendants from replacing
 other nodes

---
 nxt/stage.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 82fd88e..a78234d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -440,7 +440,8 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False, spec_layer=None):
+                             layer_only=False, spec_layer=None,
+                             descendants=()):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -461,6 +462,9 @@ class Stage:
         :type layer_only: bool
         :param spec_layer: Layer the node is on, if layer is a comp layer
         :type spec_layer: SpecLayer
+        :param descendants: Relative paths of descendants that keep their
+        names, and that may not take the place of other nodes of spec_layer
+        :type descendants: iterable of str
         :return: an unused node name.
         :rtype: str
         """
@@ -478,7 +482,12 @@ class Stage:
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path) and not spec_layer.lookup(test_path):
+
+        def taken(path):
+            paths = [nxt_path.join_node_paths(path, d) for d in descendants]
+            return layer.lookup(path) or any(spec_layer.lookup(p)
+                                             for p in [path] + paths)
+        if not taken(test_path):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -486,7 +495,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns) and not spec_layer.lookup(test_ns):
+            if not taken(test_ns):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
@@ -1208,9 +1217,12 @@ class Stage:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
+                own = [p[len(old_path) + 1:] for p in _path_data
+                       if nxt_path.is_ancestor(p, old_path)]
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
-                                                     parent_path=parent_path)
+                                                     parent_path=parent_path,
+                                                     descendants=own)
                 setattr(node, INTERNAL_ATTRS.NAME, new_name)
             else:
                 new_name = name
@@ -1385,9 +1397,13 @@ class Stage:
         if not force:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
+            own = [p[len(old_node_path) + 1:] for p in
+                   layer._nodes_path_as_key
+                   if nxt_path.is_ancestor(p, old_node_path)]
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
                                              parent_path=parent_path,
-                                             spec_layer=layer)
+                                             spec_layer=layer,
+                                             descendants=own)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From bfd1975d6f85a5f4875faf4469d4b647123e3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:06 +0000
Subject: [PATCH 48/67] fix: rename an untitled layer only once it is saved

---
 nxt/nxt_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 9b66459..e2556d2 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -837,9 +837,9 @@ class SpecLayer(object):
         filepath = filepath or self.real_path
         # Update graph name
         graph_name = os.path.splitext(os.path.basename(filepath))[0]
-        if re.match(UNTITLED + r'\d*$', str(self.get_alias(local=True))):
-            self.set_alias(graph_name)
         save_data = self.get_save_data()
+        if re.match(UNTITLED + r'\d*$', str(self.get_alias(local=True))):
+            save_data[SAVE_KEY.ALIAS] = graph_name
         try:
             json.dumps(save_data, indent=4, sort_keys=False)
         except TypeError:
@@ -849,6 +849,7 @@ class SpecLayer(object):
             return
         logger.info("Save Data Generated")
         nxt_io.save_file_data(save_data=save_data, filepath=filepath)
+        self.set_alias(save_data[SAVE_KEY.ALIAS])
         if filepath != self.real_path:
             self.real_path = filepath
             self.propegate_real_path()
-- 
2.43.0


From f0ab3e5f5470d8045cfd4f51c759b5f1d2cf432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 49/67] fix: errors in snippets name the line that failed

---
 nxt/stage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a78234d..512828c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2440,8 +2440,9 @@ class Stage:
         :return: code
         """
         if custom_code:
-            func_lines = custom_code
-            code_lines = func_lines.split('\n')
+            code_lines = custom_code.split('\n')
+            # Same offset as below
+            func_lines = '\n'.join(['# Blank Line', custom_code])
         else:
             resolved = DATA_STATE.RESOLVED
             code_lines = self.get_node_code_lines(node=node, layer=layer,
-- 
2.43.0


From 35b0100102f65a7073cabc30c17b1a477f27dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 50/67] fix: an empty snippet must not run the code of its node

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 512828c..f253841 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2439,7 +2439,7 @@ class Stage:
         actual compute.
         :return: code
         """
-        if custom_code:
+        if custom_code is not None:
             code_lines = custom_code.split('\n')
             # Same offset as below
             func_lines = '\n'.join(['# Blank Line', custom_code])
@@ -4181,7 +4181,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     rt_path = runtime_layer.get_node_path(rt_node)
     frame_node = type('frame', (), {})
     setattr(frame_node, INTERNAL_ATTRS.NODE_PATH, rt_path)
-    if custom_code:
+    if custom_code is not None:
         code = custom_code
     else:
         code = stage.get_node_code_string(node=rt_node,
-- 
2.43.0


From 6933d504e458f038864aeb2951786f2eec59cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:52 +0000
Subject: [PATCH 51/67] fix: names declared global together are kept, others
 are not

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f253841..6bd96c3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4261,9 +4261,11 @@ def clean_globals(code_lines, good_keys, global_dict):
     cur_keys = list(global_dict.keys())
     sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
+    # More than one name can be declared, or just one that starts alike.
+    decl = r'(^|[:;])\s*global\s+(\w+\s*,\s*)*{}\b'
     for sus_key in sus_keys:
         for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
+            if re.search(decl.format(re.escape(sus_key)), line):
                 safe_keys += [sus_key]
                 break
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
-- 
2.43.0


From b47e6456151f94c8790db084ef5c121538b1afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 52/67] fix: start without plugins that can't be loaded

---
 nxt/plugin_loader.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nxt/plugin_loader.py b/nxt/plugin_loader.py
index 278fd02..b6425da 100644
--- a/nxt/plugin_loader.py
+++ b/nxt/plugin_loader.py
@@ -19,7 +19,12 @@ def load_plugins():
     for plugin_dir in PLUGIN_DIRS:
         if not os.path.isdir(plugin_dir):
             continue
-        for file_name in os.listdir(plugin_dir):
+        try:
+            file_names = os.listdir(plugin_dir)
+        except OSError:
+            logger.exception('Failed to list plugins in ' + plugin_dir)
+            continue
+        for file_name in file_names:
             mod_name, _ = os.path.splitext(file_name)
             if mod_name in _nxt_loaded_plugin_module_names:
                 continue
@@ -27,6 +32,17 @@ def load_plugins():
                 found = imp.find_module(mod_name, [plugin_dir])
             except ImportError:
                 continue
-            mod = imp.load_module(mod_name, *found)
+            except Exception:
+                logger.exception('Failed to read plugin ' + file_name)
+                continue
+            try:
+                mod = imp.load_module(mod_name, *found)
+            except Exception:
+                # One bad plugin must not stop nxt or the other plugins
+                logger.exception('Failed to load plugin ' + file_name)
+                continue
+            finally:
+                if found[0]:
+                    found[0].close()
             _nxt_loaded_plugin_module_names += [mod_name]
             _nxt_loaded_plugin_modules += [mod]
-- 
2.43.0


From e4d13ec1f8136bc152a8d3fef618cd4ab4bd0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 53/67] fix: create contexts completely or not at all

---
 nxt/__init__.py                       | 20 +++++++++++++++++---
 nxt/remote/remote_context_template.py |  6 +++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index 2709a9f..1b0b918 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -18,6 +18,7 @@ if sys.version_info[0] == 2:
     from session import Session
     import nxt_path
     import nxt_layer
+    from atomic_file import open_atomic
     from remote import contexts
 else:
     from . import plugin_loader
@@ -25,6 +26,7 @@ else:
                             GRID_SIZE, USER_PLUGIN_DIR, USER_DIR_ENV_VAR)
     from .session import Session
     from . import nxt_path, nxt_layer
+    from .atomic_file import open_atomic
     from .remote import contexts
 
 # Load plugins
@@ -95,9 +97,11 @@ def create_context(custom_name, interpreter_exe=sys.executable,
 
     context_py_file = 'custom_{name}_context.py'.format(name=custom_name)
     context_py_filepath = os.path.join(_user_plugin_dir, context_py_file)
-    if os.path.exists(context_py_filepath):
+    taken = contexts.find_context_by_name(custom_name) is not None
+    if taken or os.path.exists(context_py_filepath):
         raise IOError('The context name you selected is already taken. '
                       '"{}"'.format(custom_name))
+    new_graph = None
     if context_graph is None:
         context_graph = default_c_path
         file_name = 'custom_{name}_context.nxt'.format(name=custom_name)
@@ -119,6 +123,8 @@ def create_context(custom_name, interpreter_exe=sys.executable,
             layer = nxt_layer.SpecLayer()
             layer.add_reference(layer_path=contexts._context_graph)
         layer.set_alias('custom_{name}_context'.format(name=custom_name))
+        if not os.path.exists(dest_path):
+            new_graph = dest_path
         layer.save(filepath=dest_path)
     else:
         expanded_context_graph = nxt_path.full_file_expand(context_graph)
@@ -130,7 +136,15 @@ def create_context(custom_name, interpreter_exe=sys.executable,
 
     py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
                            context_graph=context_graph, args=exe_script_args)
-    with open(context_py_filepath, 'w+') as fp:
-        fp.write(py_str)
+    try:
+        with open_atomic(context_py_filepath, 'w') as fp:
+            fp.write(py_str)
+    except Exception:
+        if new_graph:
+            try:
+                os.remove(new_graph)
+            except OSError:
+                logger.exception('Failed to remove ' + new_graph)
+        raise
     exec(py_str)
     return custom_name
diff --git a/nxt/remote/remote_context_template.py b/nxt/remote/remote_context_template.py
index e5ee5ce..9934f18 100644
--- a/nxt/remote/remote_context_template.py
+++ b/nxt/remote/remote_context_template.py
@@ -5,9 +5,9 @@ import os
 from nxt.remote.contexts import RemoteContext, register_context
 
 # Setup Context
-_name = '{name}'
-_exe = '{interpreter_exe}'
-_graph = '{context_graph}'
+_name = {name!r}
+_exe = {interpreter_exe!r}
+_graph = {context_graph!r}
 _args = {args}
 _context = RemoteContext(_name, _exe, _graph, _args)
 register_context(_context)
-- 
2.43.0


From 2ec8f043709ad20c20169f7ecb68439e08cab772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:59 +0000
Subject: [PATCH 54/67] fix: remove every layer a removed layer references

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 6bd96c3..f06920f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -276,7 +276,7 @@ class Stage:
             layer = self._sub_layers[layer]
         file_path = layer.filepath
         layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
+        for remove_sub_data in layer_data[:]:
             layer_data.remove(remove_sub_data)
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
-- 
2.43.0


From 5206e7f625b7ac9bcb1f47dbf6fba8db3398f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:59 +0000
Subject: [PATCH 55/67] fix: keep the order of references of an added layer

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f06920f..cfd9bf7 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -254,6 +254,7 @@ class Stage:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
+        ref_idx = idx + 1
         for ref in new_sublayer.sub_layers:
             if ref.get('layer'):
                 continue
@@ -264,7 +265,9 @@ class Stage:
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
             deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
+            count = len(self._sub_layers)
+            self.new_sublayer(deep_sub_layer_data, idx=ref_idx)
+            ref_idx += len(self._sub_layers) - count
         else:
             new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
-- 
2.43.0


From 0098e9758cc24b9600d6a1e429270a9aac71f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:59 +0000
Subject: [PATCH 56/67] fix: add a layer with everything it references or not
 at all

---
 nxt/stage.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index cfd9bf7..145db7b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -207,6 +207,17 @@ class Stage:
                 return layer
 
     def new_sublayer(self, layer_data=None, idx=0):
+        stack = self._sub_layers[:]
+        try:
+            return self._new_sublayer(layer_data, idx)
+        except Exception:
+            # Without everything it references a layer is not added at all
+            for layer in self._sub_layers[:]:
+                if layer not in stack:
+                    self.remove_sublayer(layer)
+            raise
+
+    def _new_sublayer(self, layer_data=None, idx=0):
         new_sublayer = self.new_layer(idx, layer_data=layer_data)
         sub_layer_data = {SAVE_KEY.FILEPATH: new_sublayer.filepath,
                           'layer': new_sublayer}
-- 
2.43.0


From a4dd10636a8617375847a0f41d570759eb902335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:59 +0000
Subject: [PATCH 57/67] fix: leave out instances of nodes that are only implied

---
 nxt/stage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 145db7b..d8af945 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3186,6 +3186,7 @@ class Stage:
         proxy_count = 0
         loops = 0
         implied_proxies = []
+        implied_paths = set()
         # Create all the proxy nodes called for by instance paths
         while node_count != new_node_count:
             new_node_count = node_count
@@ -3204,7 +3205,11 @@ class Stage:
             for new_tgt_ns, new_source_path, new_tgt_path, in to_do:
                 new = self.create_instance_node(new_source_path, new_tgt_path,
                                                 comp_layer, new_tgt_ns)
+                # What instances an implied node is implied as well
+                if new_source_path in implied_paths:
+                    new = False
                 if not new:
+                    implied_paths.add(new_tgt_path)
                     implied_node = comp_layer.lookup(new_tgt_path)
                     implied_proxies += [(implied_node, new_tgt_path,
                                          new_tgt_ns)]
-- 
2.43.0


From c3b0cf09295f6bc11f142210a821c30aa1523556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:59 +0000
Subject: [PATCH 58/67] fix: give nodes every proxy, whichever layers make them

---
 nxt/stage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index d8af945..a349c1a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3187,9 +3187,12 @@ class Stage:
         loops = 0
         implied_proxies = []
         implied_paths = set()
+        inst_paths = []
+        new_inst_paths = None
         # Create all the proxy nodes called for by instance paths
-        while node_count != new_node_count:
+        while node_count != new_node_count or inst_paths != new_inst_paths:
             new_node_count = node_count
+            new_inst_paths = inst_paths
             loops += 1
             added_inst_count = 0
             to_do = []
@@ -3216,6 +3219,9 @@ class Stage:
                 node_count += 1
                 added_inst_count += 1
             proxy_count += added_inst_count
+            # Nodes that were there already may instance what they didn't yet
+            inst_paths = [getattr(node, INTERNAL_ATTRS.INSTANCE_PATH, None)
+                          for _, node in comp_layer._node_table]
         for implied_proxy, implied_proxy_path, ns in implied_proxies:
             proxy_count -= 1
             self.remove_node_from_comp_layer(implied_proxy_path,
-- 
2.43.0


From aa21f4e807e1a0447c139a68d6e546735f002bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:43 +0000
Subject: [PATCH 59/67] fix: give every layer of a temp copy a file of its own

---
 nxt/stage.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a349c1a..c96337a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4176,24 +4176,39 @@ class Stage:
             output_dir = nxt_io.generate_temp_dir()
         s, e = comp_layer._layer_range
         layers = self._sub_layers[s:e]
+        # Layers from different folders may have the same file name
+        file_names = []
+        for layer in layers:
+            file_name = os.path.basename(layer.real_path)
+            base, ext = os.path.splitext(file_name)
+            idx = 0
+            while file_name.lower() in [n.lower() for n in file_names]:
+                idx += 1
+                file_name = '{}_{}{}'.format(base, idx, ext)
+            file_names += [file_name]
         temp_path = None
-        for layer in reversed(layers):
+        for layer, file_name in reversed(list(zip(layers, file_names))):
             save_data = layer.get_save_data()
             cwd = layer.get_cwd()
             save_data[SAVE_KEY.CWD] = cwd
-            refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
-                ref_file_name = os.path.basename(ref)
-                if ref_file_name == ref:
-                    continue
-                comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
-                for path, over in list(comp_overs.items()):
-                    if path == ref:
-                        comp_overs[ref_file_name] = comp_overs.pop(ref)
-                refs[idx] = ref_file_name
-                idx += 1
-            file_name = os.path.basename(layer.real_path)
+            # What overrides a layer may be named otherwise, or not saved
+            save_data[SAVE_KEY.MUTE] = layer.get_muted()
+            save_data[SAVE_KEY.SOLO] = layer.get_soloed()
+            save_data.pop(SAVE_KEY.COMP_ORVERRIDES, None)
+            refs = []
+            for ref in save_data.get(SAVE_KEY.REFERENCES, []):
+                # References that are not open are left out
+                for sub_layer, ref_file_name in zip(layers, file_names):
+                    if (sub_layer.parent_layer is layer
+                            and sub_layer.filepath == ref
+                            and ref_file_name not in refs):
+                        refs += [ref_file_name]
+            if layer is layers[0]:
+                # All else in the comp must be found from the top
+                refs += [name for sub_layer, name in zip(layers, file_names)
+                         if sub_layer is not layer
+                         and sub_layer.parent_layer not in layers]
+            save_data[SAVE_KEY.REFERENCES] = refs
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
         save_time = str(int(round((time.time() - start) * 1000)))
-- 
2.43.0


From ce30209efcc9c08dd008746bc6d2402b88326e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:26 +0000
Subject: [PATCH 60/67] fix: remove layers before anything is composed

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index c96337a..c88d584 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -288,6 +288,8 @@ class Stage:
     def remove_sublayer(self, layer):
         if isinstance(layer, int):
             layer = self._sub_layers[layer]
+        # Until they are composed layers don't know what they reference
+        self.assign_layer_parents(self._sub_layers)
         file_path = layer.filepath
         layer_data = layer.sub_layers
         for remove_sub_data in layer_data[:]:
-- 
2.43.0


From ca0f21cc32003fe78c83e2698cb3f85ae0e6957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:09 +0000
Subject: [PATCH 61/67] fix: keep the context template a Python file

---
 nxt/__init__.py                       | 6 ++++--
 nxt/remote/remote_context_template.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index 1b0b918..2a91cb4 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -134,8 +134,10 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         # Whoever loads the context has another working directory
         context_graph = expanded_context_graph
 
-    py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
-                           context_graph=context_graph, args=exe_script_args)
+    py_str = py_str.format(name=repr(custom_name),
+                           interpreter_exe=repr(interpreter_exe),
+                           context_graph=repr(context_graph),
+                           args=exe_script_args)
     try:
         with open_atomic(context_py_filepath, 'w') as fp:
             fp.write(py_str)
diff --git a/nxt/remote/remote_context_template.py b/nxt/remote/remote_context_template.py
index 9934f18..fa2a180 100644
--- a/nxt/remote/remote_context_template.py
+++ b/nxt/remote/remote_context_template.py
@@ -5,9 +5,9 @@ import os
 from nxt.remote.contexts import RemoteContext, register_context
 
 # Setup Context
-_name = {name!r}
-_exe = {interpreter_exe!r}
-_graph = {context_graph!r}
+_name = {name}
+_exe = {interpreter_exe}
+_graph = {context_graph}
 _args = {args}
 _context = RemoteContext(_name, _exe, _graph, _args)
 register_context(_context)
-- 
2.43.0


From 64a811bb0dd84dea79ec442fe6bfec0f3ef026a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 62/67] fix: expand paths without changing the working
 directory

---
 nxt/nxt_path.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..6e4c758 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -11,8 +11,8 @@ logger = logging.getLogger(__name__)
 
 def full_file_expand(path, start=None):
     """A combination of commonly used os.path functions called to completely
-    expand given `path`. If `start` is given, os.cwd is temporarily changed
-    in order to influence the start of relative path expansion.
+    expand given `path`. If `start` is given, relative paths are expanded from
+    there. The cwd is not changed, as all threads share it.
     Return value will always use forward slashes as seperator.
 
     :param path: path to expand
@@ -23,15 +23,12 @@ def full_file_expand(path, start=None):
     variables, and user character "~" are expanded.
     :rtype: [type]
     """
-    orig_cwd = os.getcwd()
-    if start:
-        os.chdir(start)
-
     full_path = unify_env_vars(path)
     full_path = os.path.expandvars(full_path)
     full_path = os.path.expanduser(full_path)
+    if start:
+        full_path = os.path.join(start, full_path)
     full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 16c94c1c454b1771a1313be53c9aca5af904325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 63/67] fix: resolve what file tokens lead to on the node it
 belongs to

---
 nxt/plugins/file_fallbacks.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..961c5d2 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -199,26 +199,35 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
             source_path = nxt_path.expand_relative_node_path(source_path,
                                                              node_path)
         source_node = comp_layer.lookup(source_path)
-        historical_node = stage.infer_lower_comp(source_node, comp_layer,
+        historical_node = None
+        # Nodes that don't exist have no value
+        if source_node is not None:
+            historical_node = stage.infer_lower_comp(source_node, comp_layer,
                                                  active_layers,
                                                  historical_depth)
 
         value = getattr(historical_node, attr_name, None) or ''
         more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
                                                          file_fallback_token))
+        rest = value
+        value = ''
         for token_content in more:
             token = stage.determine_token_type(get_token_content(token_content))
+            before, _, rest = rest.partition(token_content)
+            rep = token_content
             if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
+                rep = historical_resolve_attr_ref(stage, token_content,
+                                                  source_node, comp_layer,
+                                                  active_layers,
+                                                  historical_depth)
             elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
+                rep = historical_resolve_file_ref(stage, source_node,
+                                                  token_content, comp_layer,
+                                                  active_layers,
+                                                  token,
+                                                  historical_depth)
+            value += before + rep
+        value += rest
         raw_token = make_token_str(attr_ref)
         resolved_token = resolved_token.replace(raw_token, value)
     return resolved_token
-- 
2.43.0


From 22f3dd829753d52bf9f91a29f037f16281a1855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 64/67] fix: files that are not text have no contents

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c88d584..9c625da 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2116,7 +2116,8 @@ class Stage:
         try:
             with open(file_path) as fp:
                 contents = fp.read()
-        except IOError:
+        except (IOError, ValueError):
+            # ValueError as the file may not be a text file
             logger.error('Failed to get contents of {}'.format(file_path))
             return ''
         # pipe contents back through resolve in case contents have tokens.
-- 
2.43.0


From 393a6145778c679acfae88288ee559207ded6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 65/67] fix: resolve tokens that contain the text of another
 one

---
 nxt/stage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9c625da..9782b74 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1980,7 +1980,8 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
+        rest = text
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -2009,8 +2010,10 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Other tokens may contain this one, they are resolved as a whole
+            before, _, rest = rest.partition(token)
+            resolved += before + rep
+        return resolved + rest
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From d451c8dde40d2cda098ddba1ba74855f8767db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:25 +0000
Subject: [PATCH 66/67] fix: show edited code and enabled states as the
 strongest opinion says

Editing either on a composed graph made the edited opinion, or the one of
any one other layer, show over stronger ones, and overwrote what instances
of instances say themselves.
---
 nxt/stage.py | 103 +++++++++++++++++++++++----------------------------
 1 file changed, 46 insertions(+), 57 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9782b74..71118c4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2510,49 +2510,56 @@ class Stage:
 
     def set_node_code_lines(self, node, code_lines, comp_layer):
         node_path = get_node_path(node)
-        comp_node = comp_layer.lookup(node_path)
-        new_comp_lines = None
-        if not code_lines:
-            inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
-            if inst:
-                new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
+        self.update_comp_opinions(node_path, INTERNAL_ATTRS.COMPUTE,
+                                  comp_layer)
+        return live_lines
 
-        live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
-        if not code_lines and new_comp_lines is None:
+    @staticmethod
+    def update_comp_opinions(node_path, attr, comp_layer):
+        """Updates the given attr on the node with the given path and on
+        every node instancing it, directly or not, to accurately reflect the
+        opinions of their sources, strongest first, without building a new
+        comp layer.
+        :param node_path: Path of the node whose opinion changed
+        :param attr: Internal attr that is inherited by instances
+        :param comp_layer: Current comp layer
+        :return: List of dirty node paths
+        """
+        dirties = [p for p in comp_layer.get_node_dirties(node_path)
+                   if p != node_path]
+        outdated = {}
+        for path in [node_path] + dirties:
+            comp_node = comp_layer.lookup(path)
+            if comp_node:
+                outdated[comp_node] = path
+
+        def update(comp_node):
+            if outdated.pop(comp_node, None) is None:
+                return
             arcs = CompArc.get_bases_arc_dict(comp_node, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            for ref in refs:
-                _code = getattr(ref, INTERNAL_ATTRS.COMPUTE)
-                if _code:
-                    new_comp_lines = _code
-                    break
-        if new_comp_lines is None:
-            new_comp_lines = live_lines
-        if live_comp_code is not live_lines or not live_lines:
-            setattr(comp_node, INTERNAL_ATTRS.COMPUTE, new_comp_lines)
-            live_comp_code = new_comp_lines
-
-        for dirty_path in comp_layer.get_node_dirties(node_path):
-            dirty_comp = comp_layer.lookup(dirty_path)
-            if not dirty_comp:
-                break
-            arcs = CompArc.get_bases_arc_dict(dirty_comp, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            stop = False
-            for ref in refs:
-                if getattr(ref, INTERNAL_ATTRS.COMPUTE):
-                    stop = True
+            sources = [n for n in arcs.get(CompArc.REFERENCE, [])
+                       if not getattr(n, INTERNAL_ATTRS.PROXY)]
+            inst = comp_layer.lookup(Stage.instance_is_possible(
+                get_node_path(comp_node), comp_node, comp_layer))
+            if inst:
+                update(inst)
+                sources += [inst]
+            for source in sources:
+                value, has_op = get_opinion(source, attr)
+                if has_op:
                     break
-            if stop:
-                break
-            old_dirty_code = getattr(dirty_comp, INTERNAL_ATTRS.COMPUTE)
-            if live_comp_code is old_dirty_code and old_dirty_code:
-                break
-            setattr(dirty_comp, INTERNAL_ATTRS.COMPUTE, live_comp_code)
-        return live_lines
+            else:
+                value = INTERNAL_ATTRS.DEFAULTS.get(attr)
+                if callable(value):
+                    value = value()
+            setattr(comp_node, attr, value)
+
+        for outdated_node in list(outdated):
+            update(outdated_node)
+        return dirties
 
     @staticmethod
     def clear_code_lines(node):
@@ -4037,26 +4044,8 @@ class Stage:
         dirties = []
         if not comp_node:
             return dirties
-        update_it = True
-        for n in comp_node.__mro__[1:]:
-            # Ignore parents, self, and abstract base classes
-            if n in (spec_node, comp_node, object, SpecNode, Node):
-                continue
-            p = get_node_path(n)
-            if p in node_path:
-                continue
-            influencer_opinion = getattr(n, INTERNAL_ATTRS.ENABLED)
-            if influencer_opinion is None:
-                influencer_opinion = state
-            if influencer_opinion != state:
-                update_it = False
-        if update_it:
-            setattr(comp_node, INTERNAL_ATTRS.ENABLED, state)
-            for dnp in comp_layer.get_node_dirties(node_path):
-                dirties += [dnp]
-                dirty_node = comp_layer.lookup(dnp)
-                setattr(dirty_node, INTERNAL_ATTRS.ENABLED, state)
-        return dirties
+        return Stage.update_comp_opinions(node_path, INTERNAL_ATTRS.ENABLED,
+                                          comp_layer)
 
     @staticmethod
     def get_layer_start_nodes(layer):
-- 
2.43.0


From f0f3045da46a737d5268192472be7f2c015f018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:25 +0000
Subject: [PATCH 67/67] fix: keep the order of children as layers say when a
 weaker layer's is edited

---
 nxt/stage.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 71118c4..6d1418a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3731,15 +3731,12 @@ class Stage:
                 inst_co = self.get_node_child_order(inst)
                 comp_safe_co = list_merger(comp_safe_co, inst_co)
         else:
-            lower_child_orders = []
-            for layer in self._sub_layers[target_layer.layer_idx():]:
-                lower_node = layer.lookup(node_path)
-                if lower_node:
-                    lower_co = self.get_node_child_order(lower_node)
-                    lower_child_orders += [lower_co]
-            merged_lower_co = child_order
-            for lower_co in lower_child_orders:
-                merged_lower_co = list_merger(merged_lower_co, lower_co)
+            # Weakest to strongest, whichever of them was changed
+            merged_lower_co = []
+            bases_dict = CompArc.get_bases_arc_dict(source_node, comp_layer)
+            for ref in reversed(bases_dict.get(CompArc.REFERENCE, [])):
+                ref_co = self.get_node_child_order(ref)
+                merged_lower_co = list_merger(ref_co, merged_lower_co)
             comp_safe_co = list_merger(merged_lower_co, comp_co)
         setattr(source_node, INTERNAL_ATTRS.CHILD_ORDER, comp_safe_co)
         dirty = self.propagate_child_order(source_node_path=node_path,
-- 
2.43.0

