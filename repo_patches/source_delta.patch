From 65c937c28256962f52f603c2aed8156bf247fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 01/63] fix: relative node paths that reach the world, and
 replacing the world as ancestor

expand_relative_node_path returned '' for a step above a root and '//name'
for a name stepped into from the world; replace_ancestor never recognised the
world as the old ancestor and returned the path unchanged.
---
 nxt/nxt_path.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..6e33e53 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -134,9 +134,11 @@ def expand_relative_node_path(rel_path, start_node_path):
         if directive == '':
             continue
         # If we get this far, it must be the name of something.
-        current_path += NODE_SEP
+        if not current_path.endswith(NODE_SEP):
+            current_path += NODE_SEP
         current_path += directive
-    return current_path
+    # Stepping up from a root (or the world) gets us to the world.
+    return current_path or WORLD
 
 
 def path_attr_partition(str_path):
@@ -304,13 +306,13 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :return: New path with `old_ancestor` replaced with `new_ancestor`
     :rtype: str
     """
+    if old_ancestor == WORLD:
+        new_path = new_ancestor.rstrip(NODE_SEP) + path.rstrip(NODE_SEP)
+        return new_path or WORLD
     path = _add_path_terminator(path)
     old_ancestor = _add_path_terminator(old_ancestor)
     new_ancestor = _add_path_terminator(new_ancestor)
-    new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
-    if not old_ancestor_is_world:
-        new_path = path.replace(old_ancestor, new_ancestor, 1)
+    new_path = path.replace(old_ancestor, new_ancestor, 1)
     new_path = new_path[:-1]
     return new_path.replace(NODE_SEP+NODE_SEP, NODE_SEP)
 
-- 
2.43.0


From fd4ee06cdb540b455c53cebcd50da9cc3a8580b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 02/63] fix: refuse a relative instance path that reaches the
 world as an ancestor

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..330367b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3014,7 +3014,7 @@ class Stage:
             return to_do
         real_inst_path = _expand(instance_path, node_path)
         # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        if nxt_path.is_ancestor(node_path, real_inst_path):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return to_do
@@ -3309,7 +3309,7 @@ class Stage:
             return
         real_inst_path = _expand(instance_path, node_path)
         # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        if nxt_path.is_ancestor(node_path, real_inst_path):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return
-- 
2.43.0


From 244a0c77716731e832254c42094c2cc3ee88a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 03/63] fix: refuse cyclic and self-containing instances
 instead of hanging the build

---
 nxt/stage.py | 72 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 330367b..90cdd48 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3019,7 +3019,9 @@ class Stage:
                          ''.format(node_path), links=[node_path])
             return to_do
         dirties = comp_layer.get_node_dirties(node_path)
-        if real_inst_path in dirties:
+        if (real_inst_path in dirties or
+                Stage.instance_is_cyclic(node_path, real_inst_path,
+                                         comp_layer)):
             logger.error('{} attempted to instance dependant!'
                          ''.format(node_path), links=[node_path])
             return to_do
@@ -3052,7 +3054,8 @@ class Stage:
                                        INTERNAL_ATTRS.INSTANCE_PATH, None)
                 if ex_inst_path != '':
                     setattr(target, INTERNAL_ATTRS.INSTANCE_PATH, inst_child_src_path)
-            else:
+            elif not self.instance_is_cyclic(tgt_path, inst_child_src_path,
+                                             comp_layer):
                 to_do += [(target_ns, inst_child_src_path, tgt_path)]
         sort_multidimensional_list(to_do, 0)
         return to_do
@@ -3133,6 +3136,12 @@ class Stage:
                     if base_path == nxt_path.WORLD:
                         del node_path, comp_node
                         continue
+                    if (comp_layer.lookup(base_path) and
+                            not self.instance_is_possible(node_path, comp_node,
+                                                          comp_layer)):
+                        # The bad instance has been reported
+                        del node_path, comp_node
+                        continue
                 base = comp_layer._nodes_path_as_key.get(base_path)
                 if not base:
                     if base_path and base_path is not nxt_path.WORLD:
@@ -3314,12 +3323,69 @@ class Stage:
                          ''.format(node_path), links=[node_path])
             return
         dirties = comp_layer.get_node_dirties(node_path)
-        if real_inst_path in dirties:
+        if (real_inst_path in dirties or
+                Stage.instance_is_cyclic(node_path, real_inst_path,
+                                         comp_layer)):
             logger.error('{} attempted to instance dependant!'
                          ''.format(node_path), links=[node_path])
             return
         return real_inst_path
 
+    @staticmethod
+    def instance_is_cyclic(node_path, source_path, comp_layer):
+        """Checks if the instance would make a node depend on itself. That is
+        the case if a node ends up inheriting from itself, or if the source
+        (or something it instances) holds the given node in its hierarchy.
+        Only the instances already mapped by the comp layer are considered.
+
+        :param node_path: String of path to the node instancing the source
+        :param source_path: String of path to the instance source
+        :param comp_layer: CompLayer
+        :return: True if the instance is cyclic
+        """
+        if node_path in comp_layer._dirty_map.get(source_path, ()):
+            # Was checked when it was mapped
+            return False
+        sources = {node_path: [source_path]}
+        for src, targets in comp_layer._dirty_map.items():
+            for tgt in targets:
+                sources.setdefault(tgt, []).append(src)
+
+        def mirrored(path):
+            return [nxt_path.replace_ancestor(path, tgt, src)
+                    for tgt in [path] + nxt_path.all_ancestor_paths(path)
+                    for src in sources.get(tgt, ())]
+
+        checked = set()
+
+        def inherits_itself(path, trail=()):
+            if path in trail:
+                return True
+            if path in checked:
+                return False
+            checked.add(path)
+            trail += (path,)
+            bases = nxt_path.all_ancestor_paths(path) + mirrored(path)
+            return any(inherits_itself(base, trail) for base in bases)
+
+        if inherits_itself(node_path):
+            return True
+        contained = set()
+        to_do = [source_path]
+        while to_do:
+            path = to_do.pop()
+            if path in contained:
+                continue
+            contained.add(path)
+            if (path == node_path or nxt_path.is_ancestor(node_path, path) or
+                    inherits_itself(path)):
+                return True
+            to_do += mirrored(path)
+            for tgt, tgt_sources in sources.items():
+                if nxt_path.is_ancestor(tgt, path):
+                    to_do += tgt_sources
+        return False
+
     @staticmethod
     def update_inherited_attrs(comp_node, comp_layer, arcs=CompArc.ALL_ARCS):
         handled_arcs = []
-- 
2.43.0


From 57bb81abc2be1809788410a731c2bb8638404d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 04/63] fix: a conflicting inheritance order of one node no
 longer aborts the composite

---
 nxt/stage.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 90cdd48..26005e6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3176,10 +3176,16 @@ class Stage:
                     setattr(comp_node, attr, attr_value)
                     src_attr = attr + META_ATTRS.SOURCE
                     setattr(comp_node, src_attr, (src_layer, node_path))
-                if arc == CompArc.INSTANCE:
-                    self._safe_mro_add_base_class(comp_node, base)
-                else:
-                    self._add_base_class(comp_node, base)
+                try:
+                    if arc == CompArc.INSTANCE:
+                        self._safe_mro_add_base_class(comp_node, base)
+                    else:
+                        self._add_base_class(comp_node, base)
+                except TypeError:
+                    # The inheritance order of the base conflicts with ours
+                    logger.error('Unable to comp {} of {}'
+                                 ''.format(arc, node_path), links=[node_path])
+                    comp_layer.failure = traceback.format_exc()
                 # Assemble roots and node count
                 parent_path = getattr(comp_node, INTERNAL_ATTRS.PARENT_PATH)
                 no_parent = parent_path is nxt_path.WORLD
-- 
2.43.0


From 01d66cca5ac78ccf6bf9f2cd10d2d28ec5ca98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 05/63] fix: a local instance path wins over the one mirrored
 from an instanced parent

---
 nxt/stage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 26005e6..174c2bd 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3052,8 +3052,9 @@ class Stage:
                 # Can be empty string to overload a lower layer
                 ex_inst_path = getattr(target,
                                        INTERNAL_ATTRS.INSTANCE_PATH, None)
-                if ex_inst_path != '':
-                    setattr(target, INTERNAL_ATTRS.INSTANCE_PATH, inst_child_src_path)
+                if ex_inst_path is None:
+                    setattr(target, INTERNAL_ATTRS.INSTANCE_PATH,
+                            inst_child_src_path)
             elif not self.instance_is_cyclic(tgt_path, inst_child_src_path,
                                              comp_layer):
                 to_do += [(target_ns, inst_child_src_path, tgt_path)]
-- 
2.43.0


From 3e571754dad9b354364357cc00636c4d140d35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:39 +0000
Subject: [PATCH 06/63] fix: children and descendants: complete and without
 repetition in every result form

---
 nxt/nxt_layer.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..489b303 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -247,7 +247,7 @@ class SpecLayer(object):
                 elif return_type == LayerReturnTypes.NodeTable:
                     node_table += [[parent_path, _node]]
                 elif return_type == LayerReturnTypes.NameDict:
-                    key = getattr(node, nxt_node.INTERNAL_ATTRS.NAME)
+                    key = getattr(_node, nxt_node.INTERNAL_ATTRS.NAME)
                     name_dict[key] = _node
                 node = _node
                 ppath_attr = nxt_node.INTERNAL_ATTRS.PARENT_PATH
@@ -298,14 +298,6 @@ class SpecLayer(object):
             name_dict = copy.copy(children_cache[LayerReturnTypes.NameDict])
             cache_real = False
         else:
-            self._cached_children[node_path] = {LayerReturnTypes.Node:
-                                                children_nodes,
-                                                LayerReturnTypes.Path:
-                                                children_paths,
-                                                LayerReturnTypes.NodeTable:
-                                                node_table,
-                                                LayerReturnTypes.NameDict:
-                                                name_dict}
             cache_real = True
         # Lookup implied cache
         cache_implied = False
@@ -328,7 +320,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -337,14 +329,22 @@ class SpecLayer(object):
                 if not include_implied or not cache_implied:
                     continue
                 # TODO: Caching the ancestors could save around 51ms per loop
-                if nxt_path.is_ancestor(path, node_path):
+                if (path != node_path and
+                        nxt_path.is_ancestor(path, node_path)):
                     trim_depth = nxt_path.get_path_depth(node_path) + 1
                     trimmed = nxt_path.trim_to_depth(path, trim_depth)
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            # The lists we return are not the ones we keep
+            self._cached_children[node_path] = {LayerReturnTypes.Node:
+                                                children_nodes[:],
+                                                LayerReturnTypes.Path:
+                                                children_paths[:],
+                                                LayerReturnTypes.NodeTable:
+                                                node_table[:],
+                                                LayerReturnTypes.NameDict:
+                                                copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
@@ -390,7 +390,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
@@ -449,7 +449,10 @@ class SpecLayer(object):
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
-            descendants += _temp
+            else:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type)
+            descendants = descendants + _temp
             more_descendants = _temp
         return descendants
 
@@ -560,10 +563,9 @@ class SpecLayer(object):
             self._cached_children.pop(parent_path)
         except KeyError:
             pass
-        try:
-            self._cached_implied_children.pop(parent_path)
-        except KeyError:
-            pass
+        # A node can be what implies a child of any of its ancestors
+        for path in [parent_path] + nxt_path.all_ancestor_paths(parent_path):
+            self._cached_implied_children.pop(path, None)
 
     def get_exec_order(self, start_path):
         if start_path == nxt_path.WORLD:
-- 
2.43.0


From 71e21f0103bf08043ed747af247ec2efe88fb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 07/63] fix: the execution order ends when the execute-in chain
 leads back into itself

---
 nxt/nxt_layer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 489b303..4d24e9e 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -618,9 +618,11 @@ class SpecLayer(object):
                     match = exec_in == prev_root_path
                 except AttributeError:
                     continue
-                if not match:
+                root_path = self.get_node_path(root)
+                # A chain that leads back into itself ends there
+                if not match or root_path in exec_order:
                     continue
-                prev_root_path = self.get_node_path(root)
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From 229eba6b27cce30768f0873ec873bca7855b753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 08/63] fix: a layer keeps its saved mute and solo state when
 it is loaded

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 4d24e9e..3a53da6 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From 5b4a4fda506cd494bfd85f670aabead4679c3a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 09/63] fix: an existing node that becomes an instance while
 proxies are made is expanded too

---
 nxt/stage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 174c2bd..d26bf27 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3067,12 +3067,16 @@ class Stage:
         _node_data = comp_layer._nodes_node_as_key
         # Counters
         new_node_count = -1
+        inst_count = new_inst_count = 0
         proxy_count = 0
         loops = 0
         implied_proxies = []
-        # Create all the proxy nodes called for by instance paths
-        while node_count != new_node_count:
+        # Create all the proxy nodes called for by instance paths. Existing
+        # nodes may become instances without any new node being created.
+        while (node_count != new_node_count or
+               inst_count != new_inst_count):
             new_node_count = node_count
+            new_inst_count = inst_count
             loops += 1
             added_inst_count = 0
             to_do = []
@@ -3094,6 +3098,8 @@ class Stage:
                                          new_tgt_ns)]
                 node_count += 1
                 added_inst_count += 1
+            inst_count = len([n for n in _node_data if
+                              getattr(n, INTERNAL_ATTRS.INSTANCE_PATH, None)])
             proxy_count += added_inst_count
         for implied_proxy, implied_proxy_path, ns in implied_proxies:
             proxy_count -= 1
-- 
2.43.0


From 548858e8a67eab8d1cb362ad5614322db584deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 10/63] fix: inheritance of an instance is settled after that
 of its source and ancestors

---
 nxt/stage.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index d26bf27..85e7580 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3119,6 +3119,9 @@ class Stage:
         instance_sorted_nodes = self.sort_instances(comp_layer)
         for arc in CompArc.POST_PROXY_ARCS:
             overload_attrs = CompArc.INHERITANCE_MAP[arc]
+            if arc is CompArc.INSTANCE:
+                instance_sorted_nodes = self.sort_sources_first(
+                    instance_sorted_nodes, comp_layer)
             for _, comp_node in instance_sorted_nodes:
                 base_path = None
                 node_path = comp_layer.get_node_path(comp_node)
@@ -3531,6 +3534,40 @@ class Stage:
 
         return deep_sorted_nodes
 
+    @staticmethod
+    def sort_sources_first(instance_sorted_nodes, comp_layer):
+        """Sorts instances such that every node comes after its ancestors and
+        after its instance source. Otherwise the inheritance of a node is
+        settled while the inheritance of its source is still about to change.
+
+        :param instance_sorted_nodes: List of items as returned by
+        `sort_instances`
+        :param comp_layer: CompLayer
+        :return: Sorted list of the same items
+        """
+        items = {comp_layer.get_node_path(i[1]): i
+                 for i in instance_sorted_nodes}
+        source_sorted = []
+        visited = set()
+
+        def visit(path):
+            if path in visited:
+                return
+            visited.add(path)
+            item = items.get(path)
+            for ancestor_path in nxt_path.all_ancestor_paths(path):
+                visit(ancestor_path)
+            if not item:
+                return
+            source_path = getattr(item[1], INTERNAL_ATTRS.INSTANCE_PATH, None)
+            if source_path:
+                visit(nxt_path.expand_relative_node_path(source_path, path))
+            source_sorted.append(item)
+
+        for node_path in items:
+            visit(node_path)
+        return source_sorted
+
     @staticmethod
     def get_instance_sources(node, trace_list, comp_layer):
         """Fill a list (trace_list) with all of the nodes in the instance
-- 
2.43.0


From 32384d2319c826e792e31e23b269042302c94d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 11/63] fix: the execution order of a node below a root that is
 only implied

---
 nxt/nxt_layer.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 3a53da6..a62713d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -578,18 +578,19 @@ class SpecLayer(object):
             if not start_found and root_path == start_path:
                 start_found = True
             node = self.lookup(root_path)
-            enabled = nxt_node.get_node_enabled(node)
+            if node is None:
+                # A root that only exists because nodes below it do
+                enabled = True
+            else:
+                enabled = nxt_node.get_node_enabled(node)
             if enabled is None:
                 enabled = True
             if start_found and not enabled:
                 continue
-            if start_found:
+            if start_found and node is not None:
                 exec_order += [root_path]
-            path_rt_type = LayerReturnTypes.Path
             disabled_desc = []
-            for desc_path in self.descendants(node_path=root_path,
-                                              ordered=True,
-                                              return_type=path_rt_type):
+            for desc_path in self._exec_descendants(root_path):
                 if not start_found and desc_path == start_path:
                     start_found = True
                 desc_node = self.lookup(desc_path)
@@ -608,6 +609,20 @@ class SpecLayer(object):
                     exec_order += [desc_path]
         return exec_order
 
+    def _exec_descendants(self, node_path):
+        """Ordered paths of the nodes below the given path, which may be the
+        path of a node that is only implied.
+        """
+        desc = []
+        implied = self.lookup(node_path) is None
+        for child_path in self.children(node_path, ordered=True,
+                                        return_type=LayerReturnTypes.Path,
+                                        include_implied=implied):
+            if self.lookup(child_path) is not None:
+                desc += [child_path]
+            desc += self._exec_descendants(child_path)
+        return desc
+
     def get_root_exec_order(self, start_root_path):
         exec_order = [start_root_path]
         prev_root_path = start_root_path
-- 
2.43.0


From d6e57c69a306c8876e99f1616b442d7dae12d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 12/63] fix: settling inheritance order follows only instances
 that were taken up

---
 nxt/stage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 85e7580..46018e5 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3560,8 +3560,9 @@ class Stage:
             if not item:
                 return
             source_path = getattr(item[1], INTERNAL_ATTRS.INSTANCE_PATH, None)
-            if source_path:
-                visit(nxt_path.expand_relative_node_path(source_path, path))
+            # Instances that were refused are not mapped
+            if path in comp_layer._dirty_map.get(source_path, ()):
+                visit(source_path)
             source_sorted.append(item)
 
         for node_path in items:
-- 
2.43.0


From 2f67e06a4736b917515ac9c664ea85efb624d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 13/63] fix: overrides of a referencing layer are set, merged
 and cleared on their own

---
 nxt/nxt_layer.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a62713d..c0ae95c 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -656,11 +656,9 @@ class SpecLayer(object):
         self.mute = state
 
     def set_mute_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        # Only this layer's own overrides, not those of the layers above
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.MUTE] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def get_soloed(self, local=False):
         soloed = getattr(self, SAVE_KEY.SOLO, False)
@@ -674,11 +672,9 @@ class SpecLayer(object):
         self.solo = state
 
     def set_solo_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        # Only this layer's own overrides, not those of the layers above
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.SOLO] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def add_reference(self, layer_path=None, layer=None, insert_idx=None):
         """Given a layer path, a layer object, or both, add a reference to
@@ -768,6 +764,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set alias override on top layer!')
+            return
         if alias is None:
             if layer_path in list(root.aliases.keys()):
                 root.aliases.pop(layer_path)
@@ -796,6 +793,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if color is None:
             if layer_path in list(root.colors.keys()):
                 root.colors.pop(layer_path)
@@ -830,8 +828,9 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
@@ -1164,11 +1163,13 @@ def get_node_local_attr_names(node_path, layers):
 
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
-    over_dict.update(getattr(layer, over_dict_attr, {}))
-    parent = layer.parent_layer
-    while parent:
-        over_dict.update(getattr(parent, over_dict_attr, {}))
-        parent = parent.parent_layer
+    while layer:
+        for layer_path, over in getattr(layer, over_dict_attr, {}).items():
+            if isinstance(over, dict):
+                # Every setting is overridden on its own
+                over = dict(over_dict.get(layer_path, {}), **over)
+            over_dict[layer_path] = over
+        layer = layer.parent_layer
     return over_dict
 
 
-- 
2.43.0


From 266694b9851079c935c5ac2ce1d6a38d7f2583b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 14/63] fix: the lock state of a layer is saved

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index c0ae95c..d6dc884 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -899,6 +899,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.get_locked(local=True):
+            save_dict[SAVE_KEY.LOCK] = True
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
-- 
2.43.0


From 8893f2519c84e38251f5006c943996a90b70f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:45 +0000
Subject: [PATCH 15/63] fix: a node that runs others from its code goes on as
 itself afterwards

---
 nxt/stage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 46018e5..8f7fafe 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4209,6 +4209,9 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # A node may run others from its own code, it goes on where it left off.
+    outer = (console.node_path, console.running_lines,
+             console.globals.get('self'), runtime_layer.running)
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4219,12 +4222,13 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        (console.node_path, console.running_lines,
+         console.globals['self'], runtime_layer.running) = outer
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From 978dc8e2ee31554710bbd2e74aa52504375ed5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 16/63] fix: exactly the names declared global outlive the code
 of a node

---
 nxt/stage.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8f7fafe..6e97b06 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1,4 +1,5 @@
 # Built-in
+import ast
 import copy
 import logging
 import os
@@ -4244,21 +4245,17 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
 
 
 def clean_globals(code_lines, good_keys, global_dict):
-    """Super hack that tries to remove non global keyword var from the globals
+    """Removes non global keyword var from the globals
     :param code_lines: list of strings
     :param good_keys: list of expected global keys
     :param global_dict: global dict to clean
     :return: None
     """
-    code_lines = [l for l in code_lines if not l.startswith(('#', "'", '"'))]
     cur_keys = list(global_dict.keys())
-    sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
-    for sus_key in sus_keys:
-        for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
-                safe_keys += [sus_key]
-                break
+    for statement in ast.walk(ast.parse('\n'.join(code_lines))):
+        if isinstance(statement, ast.Global):
+            safe_keys += statement.names
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
         global_dict.pop(bad_key)
 
-- 
2.43.0


From 35dac0845b7cef12db1d39a7822a3d6392635df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 17/63] fix: leaving the world code, and values that can not be
 copied, compared or were deleted, no longer break a run

---
 nxt/stage.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 6e97b06..305f0e9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2359,6 +2359,8 @@ class Stage:
             after_args[1] = lineno
             new_err = err_type(err.args[0], tuple(after_args))
             raise GraphSyntaxError(new_err, layer.real_path, path, lineno)
+        except ValueError as err:  # Source that is no text, like null bytes
+            raise GraphSyntaxError(err, layer.real_path, path, 0)
         return _code, code_lines
 
     def get_node_code_lines(self, node, layer, data_state=DATA_STATE.RAW):
@@ -4061,6 +4063,9 @@ class Stage:
                 logger.error('Got an invalid node path "{}"'.format(node_path))
                 continue
             attr_name = nxt_path.attr_name_from_attr_path(attr_path)
+            if not attr_name:
+                logger.error('Got an invalid attr path "{}"'.format(attr_path))
+                continue
             _, has_it = get_opinion(node, attr_name)
             if has_it:
                 logger.info('Setting {} = {}'.format(attr_path, value),
@@ -4126,7 +4131,13 @@ class Stage:
         _code, lines = self.get_node_code(layer_node, runtime_layer)
         runtime_layer._console.node_path = nxt_path.WORLD
         runtime_layer._console.running_lines = lines
-        runtime_layer._console.runcode(_code)
+        try:
+            runtime_layer._console.runcode(_code)
+        except ExitNode as exit_node:
+            logger.debug('Exited Node {}: {}'.format(nxt_path.WORLD, exit_node))
+        except ExitGraph as exit_graph:
+            exit_graph.runtime_layer = runtime_layer
+            raise
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         return runtime_layer
 
@@ -4202,7 +4213,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         try:
             pre_run_cache[attr] = copy.deepcopy(real)
             setattr(frame_node, attr, copy.deepcopy(real))
-        except RuntimeError:
+        except (RuntimeError, TypeError):
             pre_run_cache[attr] = real
             setattr(frame_node, attr, real)
     # Cache the node before exec so we can see what it tried to run if it fails
@@ -4233,8 +4244,14 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-        post_run_val = getattr(frame_node, attr_name)
-        if pre_run_val == post_run_val:
+        # The code may have deleted it, which changes nothing
+        post_run_val = getattr(frame_node, attr_name, pre_run_val)
+        try:
+            changed = (type(pre_run_val) is not type(post_run_val) or
+                       bool(pre_run_val != post_run_val))
+        except Exception:  # Not every value can be compared
+            changed = True
+        if not changed:
             continue
         # Push only changed values back to rt_node, which represents
         # what is inherited by children/instances
-- 
2.43.0


From 2a3d8a28669fadf3eaf4fde77cac09d7be2999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 18/63] fix: executing from the start point of a given index

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 305f0e9..780e8da 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3906,7 +3906,7 @@ class Stage:
             start_nodes = self.get_layer_start_nodes(layer)
             if not start_nodes:
                 raise ValueError("No start specified and no start nodes.")
-            start_path = start_nodes[0]
+            start_path = start_nodes[start or 0]
         exec_order = layer.get_exec_order(start_path)
         return self.execute_nodes(exec_order, layer, parameters)
 
-- 
2.43.0


From 5c9796cfa1f00f77586a25f5d8d33455f3f9bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 19/63] fix: the code of the world works on its own copy of the
 values of the graph

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 780e8da..a13a9b6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4102,6 +4102,12 @@ class Stage:
             layer_node = CompNode.new(spec_layer)
             self.add_node_to_comp_layer(nxt_path.WORLD, layer_node, comp_layer,
                                         add_to_child_order=False)
+        # The code of the layer node runs on the node itself, what it does to a
+        # value must not reach the layers the value comes from.
+        for attr in self.get_node_attr_names(layer_node):
+            value = getattr(layer_node, attr)
+            if isinstance(value, (list, dict)):
+                setattr(layer_node, attr, copy.deepcopy(value))
         # Set parameter overloads
         if parameters:
             self.set_runtime_parameters(parameters, runtime_layer)
-- 
2.43.0


From bf9d0e29e5f113fe0fa76a8a371cbdd998eaa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 20/63] fix: empty and other falsy values, types and comments
 of attributes are saved

---
 nxt/nxt_node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..016be41 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -253,11 +253,11 @@ def get_node_as_dict(spec_node):
         typ = get_node_attr(spec_node, key + META_ATTRS.TYPE)
         value = get_node_attr(spec_node, key)
         sub_attrs = OrderedDict()
-        if comment:
+        if comment is not None:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
-        if typ:
+        if typ is not None:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 528cc2f73f4943567c8f05729de4265b9f9885be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 21/63] fix: a save of data that can not be written leaves the
 file as it was

---
 nxt/nxt_io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..bd8674d 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -134,15 +134,18 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     filepath = filepath.replace(os.sep, '/')
     if not filepath.endswith(ext):
         filepath += ext
+    # The file is only opened once it is known that all data can be written
     if file_format == FILE_FORMAT.BINARY:
         gc.disable()
-        with open(filepath, 'wb') as out_file:
-            pickle.dump(save_data, out_file, protocol=-1)
+        file_contents = pickle.dumps(save_data, protocol=-1)
         gc.enable()
+        with open(filepath, 'wb') as out_file:
+            out_file.write(file_contents)
     else:
+        file_contents = json.dumps(save_data, indent=4, sort_keys=False,
+                                   separators=(',', ': '))
         with open(filepath, 'w') as out_file:
-            json.dump(save_data, out_file, indent=4, sort_keys=False,
-                      separators=(',', ': '))
+            out_file.write(file_contents)
     logger.info('Successfully saved "' + filepath + '"')
     update_time = str(int(round((time.time() - start) * 1000)))
     logger.debug("Saved in: " + update_time + "ms")
-- 
2.43.0


From 8175b4dfddc292b084a27bdf0cc47a6a955522a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 22/63] fix: positions and collapse data that were reset do not
 come back when saved

---
 nxt/nxt_layer.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index d6dc884..e047d98 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -870,16 +870,15 @@ class SpecLayer(object):
         colors = OrderedDict(sorted(self.colors.items(), key=lambda x: x[0]))
         locks = OrderedDict(sorted(self.locks.items(), key=lambda x: x[0]))
         meta_data = OrderedDict(self._input_metadata)
-        if aliases:
-            meta_data[META_DATA_KEY.ALIASES] = aliases
-        if colors:
-            meta_data[META_DATA_KEY.COLORS] = colors
-        if locks:
-            meta_data[META_DATA_KEY.LOCKS] = locks
-        if positions:
-            meta_data[META_DATA_KEY.POSITIONS] = positions
-        if collapsed:
-            meta_data[META_DATA_KEY.COLLAPSE] = collapsed
+        for key, data in ((META_DATA_KEY.ALIASES, aliases),
+                          (META_DATA_KEY.COLORS, colors),
+                          (META_DATA_KEY.LOCKS, locks),
+                          (META_DATA_KEY.POSITIONS, positions),
+                          (META_DATA_KEY.COLLAPSE, collapsed)):
+            if data:
+                meta_data[key] = data
+            else:  # What was loaded is not what there is now
+                meta_data.pop(key, None)
         return meta_data
 
     def get_comp_overrides(self):
-- 
2.43.0


From 44e5cca9625000513c3f97597e0bcdf49ce3af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 23/63] fix: a unique node name is free in the edited layer and
 for all that moves along

The scope of a new name was the composite only, a node of a muted layer
could be overwritten, and what a re-parented node takes along could end
up on top of existing nodes.
---
 nxt/stage.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a13a9b6..622a7aa 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -419,7 +419,8 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, target_layer=None,
+                             moved_path=None):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -438,6 +439,12 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param target_layer: Optional layer the name is going to be used in,
+        it might not be a part of the given (comp) layer.
+        :type target_layer: SpecLayer
+        :param moved_path: Optional path of a node in the target layer that
+        will be moved to the unique path, it takes its descendants along.
+        :type moved_path: str
         :return: an unused node name.
         :rtype: str
         """
@@ -450,10 +457,29 @@ class Stage:
                 name = name + '1'
         else:
             name = 'node'
+        layers = [layer]
+        if target_layer is not None:
+            layers += [target_layer]
         if not layer_only and not isinstance(layer, CompLayer):
-            layer = self.build_stage(from_idx=0)
+            # The layer itself may not be a part of the comp
+            layers += [self.build_stage(from_idx=0)]
+        moving = [moved_path]
+        if moved_path is not None:
+            moving += [p for p in target_layer._nodes_path_as_key
+                       if nxt_path.is_ancestor(p, moved_path)]
+
+        def is_used(path):
+            for p in moving:
+                if p != moved_path:
+                    p = nxt_path.replace_ancestor(p, moved_path, path)
+                else:
+                    p = path
+                if any(lay.lookup(p) for lay in layers):
+                    return True
+            return False
+
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+        if not is_used(test_path):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -461,7 +487,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not is_used(test_ns):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
@@ -641,7 +667,8 @@ class Stage:
             name = self.get_unique_node_name(name=name,
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
-                                             layer_only=bool(comp_layer))
+                                             layer_only=bool(comp_layer),
+                                             target_layer=layer)
         data = data or {}
         data['name'] = name
         if do_targeted_comp:
@@ -1159,7 +1186,9 @@ class Stage:
             if check_names:
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
-                                                     parent_path=parent_path)
+                                                     parent_path=parent_path,
+                                                     target_layer=layer,
+                                                     moved_path=old_path)
                 setattr(node, INTERNAL_ATTRS.NAME, new_name)
             else:
                 new_name = name
-- 
2.43.0


From 7cfc5df6b96c1b26177a70a3c749b5daf4e2f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 24/63] fix: renaming and re-parenting take along descendants
 below implied paths

Descendants below a path that has no node itself stayed behind when a
node was renamed, collapse data of descendants got lost.
---
 nxt/stage.py | 60 ++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 622a7aa..e61bb3a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1209,24 +1209,7 @@ class Stage:
             layer.clear_node_child_cache(parent_path)
             # Update descendants nodes
             old_paths += [old_path]
-            for path, n in list(_path_data.items()):
-                if path is new_path:
-                    continue
-                # Update all other paths that start with the old path
-                if nxt_path.is_ancestor(path, old_path):
-                    updated_path = nxt_path.replace_ancestor(path, old_path,
-                                                             new_path)
-                    _path_data[updated_path] = _path_data.pop(path)
-                    _node_data[n] = updated_path
-                    n_parent_path = getattr(n, INTERNAL_ATTRS.PARENT_PATH)
-                    new_parent_path = nxt_path.replace_ancestor(n_parent_path,
-                                                                old_path,
-                                                                new_path)
-                    layer.clear_node_child_cache(path)
-                    layer.clear_node_child_cache(updated_path)
-                    layer.clear_node_child_cache(new_parent_path)
-                    setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
-
+            self._update_descendant_paths(layer, old_path, new_path)
             # Update layer data
             if old_path in list(_collapse_data.keys()):
                 _collapse_data[new_path] = _collapse_data.pop(old_path)
@@ -1256,6 +1239,31 @@ class Stage:
             idx += 1
         return result_paths
 
+    @staticmethod
+    def _update_descendant_paths(layer, old_path, new_path):
+        """Moves everything in the layer below the old path to the new path.
+        :param layer: SpecLayer
+        :param old_path: String of path the descendants are currently under
+        :param new_path: String of path the descendants will be under
+        :return: None
+        """
+        for path, n in list(layer._nodes_path_as_key.items()):
+            if not nxt_path.is_ancestor(path, old_path):
+                continue
+            updated_path = nxt_path.replace_ancestor(path, old_path, new_path)
+            layer._nodes_path_as_key[updated_path] = \
+                layer._nodes_path_as_key.pop(path)
+            layer._nodes_node_as_key[n] = updated_path
+            n_parent_path = getattr(n, INTERNAL_ATTRS.PARENT_PATH)
+            new_parent_path = nxt_path.replace_ancestor(n_parent_path,
+                                                        old_path, new_path)
+            layer.clear_node_child_cache(path)
+            layer.clear_node_child_cache(updated_path)
+            layer.clear_node_child_cache(new_parent_path)
+            setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
+            if path in layer.collapse:
+                layer.collapse[updated_path] = layer.collapse.pop(path)
+
     def add_node_attr(self, node, attr, attr_data, layer, tracked=True):
         # TODO default values for args? If so, fix test_tokens.py
         node_path = layer.get_node_path(node)
@@ -1339,20 +1347,13 @@ class Stage:
             raise TypeError("Layer provided is not the same object as the "
                             "node's source layer")
         old_node_path = layer.get_node_path(node)
-        rt = layer.RETURNS.Path
-        children_paths = layer.children(old_node_path, return_type=rt,
-                                        include_implied=True)
-        children = []
-        for child_path in children_paths:
-            child_node = layer.lookup(child_path)
-            if child_node is not None:
-                children += [child_node]
-
         if not force:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             target_layer=layer,
+                                             moved_path=old_node_path)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
@@ -1385,8 +1386,7 @@ class Stage:
         layer._nodes_node_as_key[node] = new_node_path
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
-        if children:
-            self.parent_nodes(children, new_node_path, layer, check_names=False)
+        self._update_descendant_paths(layer, old_node_path, new_node_path)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From 1d3a7a8a30c4bb37cf240386c4467a8313f41b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 25/63] fix: renaming a node does not repeat a name in the
 child order

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e61bb3a..1f312ca 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1366,10 +1366,10 @@ class Stage:
             child_order_copy = child_order[:]
             del child_order[:]
             for item in child_order_copy:
-                if item != old_name:
+                if item == old_name:
+                    item = name
+                if item not in child_order:
                     child_order += [item]
-                else:
-                    child_order += [name]
 
         layer_data_dicts = [META_DATA_KEY.POSITIONS, META_DATA_KEY.COLLAPSE,
                             '_nodes_path_as_key']
-- 
2.43.0


From f9fc70b5d403fc91667d2b9c2a055554f5b5a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 26/63] fix: duplicated descendants keep their names and
 relative places

Names were made unique against other layers, descendants below implied
paths were not duplicated.
---
 nxt/stage.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1f312ca..764d66f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -791,22 +791,26 @@ class Stage:
 
         def dupe_descendants(new_parent, ref_parent, layer):
             ref_path = layer.get_node_path(ref_parent)
+            new_path = layer.get_node_path(new_parent)
             created = []
             dirty = []
-            for ref_child in layer.children(ref_path):
+            for child_path in layer.descendants(ref_path,
+                                                include_implied=True):
+                ref_child = layer.lookup(child_path)
+                if ref_child is None:
+                    continue
                 name = getattr(ref_child, INTERNAL_ATTRS.NAME)
                 data = get_node_as_dict(ref_child)
-                parent = new_parent
+                ref_parent_path = nxt_path.get_parent_path(child_path)
+                parent = nxt_path.replace_ancestor(ref_parent_path, ref_path,
+                                                   new_path)
                 lay_idx = layer.layer_idx()
+                # The descendants keep their names
                 new, new_dirty = self.add_node(name=name, data=data,
-                                               parent=parent, layer=lay_idx)
+                                               parent=parent, layer=lay_idx,
+                                               fix_names=False)
                 dirty += new_dirty
                 created += new
-                desc_parent = new[-1]
-                new_desc, desc_dirty = dupe_descendants(desc_parent, ref_child,
-                                                        layer)
-                dirty += desc_dirty
-                created += new_desc
             return created, dirty
         if descendants:
             desc_created, desc_dirty = dupe_descendants(new_nodes[-1], node,
-- 
2.43.0


From b6d9315b120c0281cf70368d5454fc06dca0910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 27/63] fix: deleting descendants skips paths that are only
 implied

The deletion stopped half way with an error.
---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 764d66f..5fdcac4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -852,7 +852,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            # There is nothing to remove at an implied path
+            remove_node_paths += [p for p in descendants if layer.lookup(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From 7c1ffef3152699266ec0f6f8885a1352f35c33f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 28/63] fix: attributes of a node in a muted layer can be
 edited

Attribute names were looked up in the active layers only, even for the
layer that is edited.
---
 nxt/nxt_layer.py | 21 +++++++++++++--------
 nxt/stage.py     | 10 +++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e047d98..2c3aec1 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1151,17 +1151,22 @@ def get_node_local_attr_names(node_path, layers):
         node = layer.lookup(node_path)
         if not node:
             continue
-        for attr in node.__dict__.keys():
-            if attr in local_attrs:
-                continue
-            if attr in nxt_node.INTERNAL_ATTRS.PROTECTED:
-                continue
-            if attr.endswith(nxt_node.META_ATTRS._suffix):
-                continue
-            local_attrs += [attr]
+        local_attrs += [attr for attr in get_spec_attr_names(node)
+                        if attr not in local_attrs]
     return local_attrs
 
 
+def get_spec_attr_names(spec_node):
+    """Get the names of all attributes the given spec node itself holds.
+
+    :param spec_node: SpecNode
+    :return: list of attribute names
+    """
+    return [attr for attr in spec_node.__dict__.keys()
+            if attr not in nxt_node.INTERNAL_ATTRS.PROTECTED and
+            not attr.endswith(nxt_node.META_ATTRS._suffix)]
+
+
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
     while layer:
diff --git a/nxt/stage.py b/nxt/stage.py
index 5fdcac4..0eda246 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -23,7 +23,7 @@ from .nxt_node import (Node, SpecNode, CompNode, get_node_attr,
                        META_ATTRS, INTERNAL_ATTRS)
 from .nxt_layer import (SpecLayer, CompLayer, SAVE_KEY, META_DATA_KEY,
                        sort_multidimensional_list, get_active_layers,
-                       get_node_local_attr_names)
+                       get_node_local_attr_names, get_spec_attr_names)
 from .tokens import TOKENTYPE, plugin_tokens, Token
 from .runtime import (GraphError, GraphSyntaxError, InvalidNodeError,
                       get_traceback_lineno, ExitNode, ExitGraph)
@@ -528,6 +528,10 @@ class Stage:
         test_name = attr_name
         while True:
             illegal_names = tuple(get_node_local_attr_names(node_path, layers))
+            if isinstance(layer, SpecLayer) and layer.lookup(node_path):
+                # The layer might not be active
+                illegal_names += tuple(
+                    get_spec_attr_names(layer.lookup(node_path)))
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
@@ -1312,7 +1316,7 @@ class Stage:
         new_name = self.get_unique_attr_name(node_path, layer,
                                              attr_name=new_attr_name)
         # rename
-        if attr_name in get_node_local_attr_names(node_path, [layer]):
+        if attr_name in get_spec_attr_names(node):
             setattr(node, new_name, getattr(node, attr_name))
             delattr(node, attr_name)
             for meta_attr_suffix in self.meta_attrs:
@@ -1441,7 +1445,7 @@ class Stage:
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
         node_path = layer.get_node_path(node)
-        local_attrs = tuple(get_node_local_attr_names(node_path, [layer]))
+        local_attrs = tuple(get_spec_attr_names(node))
         value_set = False
         dirties = []
         if attr == INTERNAL_ATTRS.NAME:
-- 
2.43.0


From 3b26c597595ebf7c9b7d9aeb1857a13548b0b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 29/63] fix: edits with a comp layer fail on nodes the comp
 layer does not have

Deleting, ordering or instancing a node that is not a part of the given
comp layer, or whose instance is refused there, raised errors with the
edit done half way.
---
 nxt/stage.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0eda246..ef0d90d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -899,6 +899,9 @@ class Stage:
             other_specs = []
             dirties = comp_layer.get_node_dirties(remove_path)
             dirty_nodes += dirties
+            if comp_node is None:  # The layer isn't a part of the comp
+                idx += 1
+                continue
             for base in comp_node.__bases__:
                 is_comp_node = base.__name__ == CompNode.__name__
                 if is_comp_node:
@@ -918,7 +921,7 @@ class Stage:
                 node_name = getattr(comp_node, INTERNAL_ATTRS.NAME)
                 if node_name in parent_inst_children.keys():
                     inst_src = getattr(comp_node, INTERNAL_ATTRS.INSTANCE_PATH)
-                    if inst_src not in other_removed_nodes:
+                    if inst_src and inst_src not in other_removed_nodes:
                         proxies_to_keep += [(inst_src, remove_path)]
                         paths_to_keep += [remove_path]
                         is_inst_child = True
@@ -971,6 +974,8 @@ class Stage:
         restored_paths = []
         for inst_src, path in proxies_to_keep:
             proxy = self.create_instance_node(inst_src, path, comp_layer)
+            if not proxy:  # The source is gone too
+                continue
             restored_proxies += [proxy]
             restored_paths += [path]
             proxy_map = self.targeted_comp_proxies(proxy, path, comp_layer)
@@ -1545,8 +1550,8 @@ class Stage:
             instance_path = str(instance_path)
         unchanged = True
         dirty_nodes = []
-        if comp_layer:
-            comp_node = comp_layer.lookup(node_path)
+        comp_node = comp_layer.lookup(node_path) if comp_layer else None
+        if comp_node:
             unchanged = has_stronger_opinion(comp_node,
                                              INTERNAL_ATTRS.INSTANCE_PATH,
                                              target_layer.real_path)
@@ -1580,7 +1585,7 @@ class Stage:
         setattr(node, INTERNAL_ATTRS.INSTANCE_PATH, instance_path)
         setattr(node, INTERNAL_ATTRS.INSTANCE_PATH + META_ATTRS.SOURCE,
                 (target_layer.real_path, node_path))
-        if comp_layer and not unchanged:
+        if comp_node and not unchanged:
             proxy_map = self.targeted_comp_proxies(comp_node, node_path,
                                                    comp_layer)
             dirty_nodes += self.targeted_comp_post_proxies(proxy_map,
@@ -2530,7 +2535,8 @@ class Stage:
                                         ns=new_tgt_ns)
             # This might be the wrong place to do this...
             parent_node = comp_layer.lookup(target_parent_path)
-            parent_layer = getattr(parent_node, INTERNAL_ATTRS.SOURCE_LAYER)
+            parent_layer = getattr(parent_node, INTERNAL_ATTRS.SOURCE_LAYER,
+                                   None)
             if force_source_layer:
                 setattr(new_target, INTERNAL_ATTRS.SOURCE_LAYER, parent_layer)
             # Setting the instance path on the comp node because it is
@@ -2920,6 +2926,10 @@ class Stage:
             instance_node = comp_layer.lookup(inst_path)
         else:
             instance_node = None
+        if instance_node and not self.instance_is_possible(node_path, comp_node,
+                                                           comp_layer):
+            # The bad instance has been reported
+            instance_node = None
         proxy_map[comp_node] = {CompArc.PARENT: parent_node,
                                 CompArc.INSTANCE: instance_node}
         for proxy_parent_path in dirty_nodes:
@@ -2946,6 +2956,9 @@ class Stage:
             proxy_target = comp_layer.lookup(proxy_target_path)
             if proxy_target is None:
                 continue
+            if not self.instance_is_possible(proxy_target_path, proxy_target,
+                                             comp_layer):
+                continue
             arc_dict = proxy_map.get(proxy_target, {})
             arc_dict[CompArc.INSTANCE] = comp_node
             proxy_map[proxy_target] = arc_dict
@@ -3289,7 +3302,15 @@ class Stage:
                     setattr(dirty_node, attr, attr_value)
                     src_attr = attr + META_ATTRS.SOURCE
                     setattr(dirty_node, src_attr, (src_layer, dirty_path))
-                self._safe_mro_add_base_class(dirty_node, base)
+                try:
+                    self._safe_mro_add_base_class(dirty_node, base)
+                except TypeError:
+                    # The inheritance order of the base conflicts with ours
+                    logger.error('Unable to comp {} of {}'
+                                 ''.format(arc, dirty_path),
+                                 links=[dirty_path])
+                    if comp_layer:
+                        comp_layer.failure = traceback.format_exc()
                 if comp_layer:
                     dirty_nodes += comp_layer.get_node_dirties(dirty_path)
 
@@ -3319,7 +3340,7 @@ class Stage:
             arc_src_path = getattr(comp_node, internal_attr, None)
             base = comp_layer.lookup(arc_src_path)
             cur_bases = list(comp_node.__bases__)
-            if base:
+            if base in cur_bases:
                 cur_bases.remove(base)
             if arc == CompArc.INSTANCE:
                 path = comp_layer.get_node_path(comp_node)
@@ -3730,9 +3751,9 @@ class Stage:
             return
         old_child_order = self.get_node_child_order(node)
         setattr(node, INTERNAL_ATTRS.CHILD_ORDER, child_order)
-        if not comp_layer:
+        source_node = comp_layer.lookup(node_path) if comp_layer else None
+        if not source_node:
             return dirty
-        source_node = comp_layer.lookup(node_path)
         comp_safe_co = child_order[:]
         comp_co = self.get_node_child_order(source_node)
         if old_child_order and not child_order:  # Must re-merge orders
-- 
2.43.0


From 9a4d8dc38c348a0f130d2f4ee7ad5f0f288c34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 30/63] fix: renamed and re-parented nodes leave the listed
 children of implied parents

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index ef0d90d..b8d322e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1220,6 +1220,7 @@ class Stage:
             _node_data[node] = new_path
             layer.clear_node_child_cache(new_path)
             layer.clear_node_child_cache(old_path)
+            layer.clear_node_child_cache(node_parent_path)
             layer.clear_node_child_cache(parent_path)
             # Update descendants nodes
             old_paths += [old_path]
@@ -1273,6 +1274,7 @@ class Stage:
                                                         old_path, new_path)
             layer.clear_node_child_cache(path)
             layer.clear_node_child_cache(updated_path)
+            layer.clear_node_child_cache(n_parent_path)
             layer.clear_node_child_cache(new_parent_path)
             setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
             if path in layer.collapse:
@@ -1400,6 +1402,7 @@ class Stage:
         layer._nodes_node_as_key[node] = new_node_path
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
+        layer.clear_node_child_cache(parent_path)
         self._update_descendant_paths(layer, old_node_path, new_node_path)
         layer.refresh()
         return new_node_path
-- 
2.43.0


From ef59c923fe1e90294be0ec29097b16cf1fc78380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 31/63] fix: resolving a token does not touch nested tokens or
 resolved values

Every occurrence of a token in the text was replaced, also those nested
in another token of the text and those in a value inserted before.
---
 nxt/stage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b8d322e..78f73b0 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1906,7 +1906,7 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1935,8 +1935,10 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Tokens of the text are replaced, not those in resolved values
+            before, _, text = text.partition(token)
+            resolved += before + rep
+        return resolved + text
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From 31e1bd2bb7cd19e98ef14aa770e5887dc722a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 32/63] fix: references that form a cycle resolve to nothing
 instead of recursing

---
 nxt/stage.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 78f73b0..eb9b3c5 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -146,6 +146,8 @@ class Stage:
         self.cached = None
         self.execute_order = None
         self.current_node = None
+        # What references are being resolved, outermost first
+        self._resolving = []
         if layer_data:
             self.load_from_file(layer_data)
         else:
@@ -1969,9 +1971,18 @@ class Stage:
             source_path = nxt_path.expand_relative_node_path(source_path,
                                                              node_path)
             resolve_source_node = layer.lookup(source_path)
-            return self.get_node_attr_value(resolve_source_node,
-                                            attr_name=attr_name, layer=layer,
-                                            resolved=True)
+            ref = (source_path, attr_name, layer)
+            if ref in self._resolving:
+                logger.error('"{}" refers to itself'.format(attr_ref),
+                             links=[source_path])
+                return ''
+            self._resolving += [ref]
+            try:
+                return self.get_node_attr_value(resolve_source_node,
+                                                attr_name=attr_name,
+                                                layer=layer, resolved=True)
+            finally:
+                self._resolving.pop()
         # NOTE: attr ref hierarchy is defined here.
         try:
             local_val = getattr(node, attr_name)
@@ -2047,8 +2058,16 @@ class Stage:
         except IOError:
             logger.error('Failed to get contents of {}'.format(file_path))
             return ''
+        ref = (file_path, layer.get_node_path(node), layer)
+        if ref in self._resolving:
+            logger.error('Contents of "{}" refer to itself'.format(file_path))
+            return ''
         # pipe contents back through resolve in case contents have tokens.
-        return self.resolve(node, contents, layer)
+        self._resolving += [ref]
+        try:
+            return self.resolve(node, contents, layer)
+        finally:
+            self._resolving.pop()
 
     def infer_lower_comp(self, comp_node, comp_layer, active_layers=None,
                          depth=1, inferred_comp_layer=None):
-- 
2.43.0


From 5aa6ca14409d4082a649ee6e50b59b7fb7b3053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 33/63] fix: tokens before a nested one are found as ready to
 resolve

---
 nxt/tokens.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/nxt/tokens.py b/nxt/tokens.py
index 8359f06..b1c9981 100644
--- a/nxt/tokens.py
+++ b/nxt/tokens.py
@@ -167,15 +167,14 @@ def get_atomic_tokens(value):
     :rtype: list
     """
     found = []
-    prefix, content, suffix = atomic_token_partition(value)
-    if not content:
-        return found
-    found += [content]
-    if prefix:
-        found += get_atomic_tokens(prefix)
-    if suffix:
-        found += get_atomic_tokens(suffix)
-    found = set(found)
+    before = value
+    while before:
+        before, sep, after = before.rpartition(TOKEN_PREFIX)
+        if not sep:
+            break
+        content, sep, _ = after.partition(TOKEN_SUFFIX)
+        # Without a closer there are other tokens nested in this one
+        token = make_token_str(content)
+        if sep and token not in found:
+            found += [token]
     return found
-
-
-- 
2.43.0


From e7d9c942d257301dfea6effbc894532e845fe356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 34/63] fix: working directory is restored when expanding a
 path fails

---
 nxt/nxt_path.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 6e33e53..dff7f3f 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -26,12 +26,13 @@ def full_file_expand(path, start=None):
     orig_cwd = os.getcwd()
     if start:
         os.chdir(start)
-
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 2215be02d1c34dd5f09ae3213a4d130842d11da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 35/63] fix: references that cannot be read are skipped and
 kept, also when saving

---
 nxt/stage.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index eb9b3c5..f24969d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -355,27 +355,28 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
-        for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
-            try:
-                layer_data = nxt_io.load_file_data(sub_layer_path)
-                if not layer_data:
-                    continue
-            except IOError as e:
-                msg_pattern = "Failed to open {} referenced by {}"
-                logger.exception(msg_pattern.format(sub_layer_path, real_path))
+        try:
+            for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
                 try:
-                    parent_layer.sub_layer_paths.remove(sub_layer_path)
-                except ValueError:
-                    pass
-                bad_layer_dat = []
+                    sub_data = nxt_io.load_file_data(sub_layer_path)
+                    if not sub_data:
+                        continue
+                    sub_layer = self.load_from_file(sub_data,
+                                                    parent_layer=parent_layer)
+                except Exception:
+                    # Still a reference of the layer, so it isn't lost when
+                    # the layer is saved.
+                    msg = "Failed to open {} referenced by {}"
+                    logger.exception(msg.format(sub_layer_path, real_path))
+                    continue
                 for sub_layer_dat in parent_layer.sub_layers:
-                    if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
-                        bad_layer_dat += [sub_layer_dat]
-                for dat in bad_layer_dat:
-                    parent_layer.sub_layers.remove(dat)
-                continue
-            self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
+                    if (sub_layer_dat[SAVE_KEY.FILEPATH] == sub_layer_path
+                            and not sub_layer_dat.get('layer')):
+                        sub_layer_dat['layer'] = sub_layer
+                        break
+        finally:
+            os.chdir(old_cwd)
+        return parent_layer
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 2e5d4d501d6f7e4558d8d2bb24b93a8a576e1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 36/63] fix: loading files that reference each other in a cycle
 terminates

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index f24969d..4c1b17c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -361,6 +361,9 @@ class Stage:
                     sub_data = nxt_io.load_file_data(sub_layer_path)
                     if not sub_data:
                         continue
+                    if self.check_for_layer_ref_cycle(parent_layer,
+                                                      sub_data['real_path']):
+                        continue
                     sub_layer = self.load_from_file(sub_data,
                                                     parent_layer=parent_layer)
                 except Exception:
-- 
2.43.0


From a696ee541ef012c9bca64f914248455deb65f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 37/63] fix: adding a sub layer loads its references in order,
 skipping broken ones

---
 nxt/stage.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4c1b17c..b4545e7 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -257,19 +257,27 @@ class Stage:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
+        layer_count = len(self._sub_layers)
         for ref in new_sublayer.sub_layers:
             if ref.get('layer'):
                 continue
             file_path = ref[SAVE_KEY.FILEPATH]
-            d = os.path.dirname(layer_data[SAVE_KEY.REAL_PATH])
-            real_file_path = nxt_path.full_file_expand(file_path, d)
-            deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
-            deep_sub_layer_data['parent_layer'] = new_sublayer
-            deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
-            deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
-        else:
-            new_sublayer.save()
+            deep_idx = idx + 1 + len(self._sub_layers) - layer_count
+            old_cwd = os.getcwd()
+            os.chdir(os.path.dirname(layer_data[SAVE_KEY.REAL_PATH]))
+            try:
+                deep_sub_layer_data = nxt_io.load_file_data(file_path)
+                real_path = deep_sub_layer_data[SAVE_KEY.REAL_PATH]
+                if self.check_for_layer_ref_cycle(new_sublayer, real_path):
+                    continue
+                deep_sub_layer_data['parent_layer'] = new_sublayer
+                self.new_sublayer(deep_sub_layer_data, idx=deep_idx)
+            except Exception:
+                logger.exception("Failed to open {} referenced by "
+                                 "{}".format(file_path, new_sublayer.real_path))
+            finally:
+                os.chdir(old_cwd)
+        new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
             sub_layer._layer_idx = idx
         return new_sublayer
-- 
2.43.0


From 693772a382a1460801906930f59b86ef147e55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 38/63] fix: removing a sub layer removes all it references and
 no other mention

---
 nxt/stage.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b4545e7..a5d699e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -285,10 +285,7 @@ class Stage:
     def remove_sublayer(self, layer):
         if isinstance(layer, int):
             layer = self._sub_layers[layer]
-        file_path = layer.filepath
-        layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
-            layer_data.remove(remove_sub_data)
+        for remove_sub_data in layer.sub_layers[:]:
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
                 continue
@@ -296,15 +293,12 @@ class Stage:
         for sub_layer in self._sub_layers:
             if sub_layer is layer:
                 continue
-            if file_path in sub_layer.sub_layer_paths:
-                sub_layer.sub_layer_paths.remove(file_path)
-            sub_layer_data = sub_layer.sub_layers
-            rm_d = [d for d in sub_layer_data
-                    if d[SAVE_KEY.FILEPATH] == file_path]
-            for rd in rm_d:
-                ref_layer = rd['layer']
-                if ref_layer is layer:
-                    sub_layer_data.remove(rd)
+            for rd in sub_layer.sub_layers[:]:
+                if rd.get('layer') is not layer:
+                    continue
+                sub_layer.sub_layers.remove(rd)
+                if rd[SAVE_KEY.FILEPATH] in sub_layer.sub_layer_paths:
+                    sub_layer.sub_layer_paths.remove(rd[SAVE_KEY.FILEPATH])
         if layer in self._sub_layers:
             self._sub_layers.remove(layer)
         for i, layer in enumerate(self._sub_layers):
-- 
2.43.0


From e2239666d664feaae1bc4ae03105a01d2a75f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 39/63] fix: a layer put on top references the former top layer

---
 nxt/stage.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a5d699e..f219276 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -234,13 +234,7 @@ class Stage:
                 parent_layer.sub_layers.insert(0, sub_layer_data)
         else:
             for lower_layer in self._sub_layers[idx + 1:]:
-                lower_file_path = lower_layer.filepath
-                skip = False
-                for higher_layer in reversed(self._sub_layers[:idx - 1]):
-                    if lower_file_path in higher_layer.sub_layer_paths:
-                        skip = True
-                        break
-                if skip:
+                if lower_layer.parent_layer is not None:
                     continue
                 lower_real_path = lower_layer.real_path
                 lower_sub_layer_data = {SAVE_KEY.FILEPATH: lower_real_path,
-- 
2.43.0


From 1a2df8b1d1a57784e313cd678b73944921bec3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:06 +0000
Subject: [PATCH 40/63] fix: converting a file of a newer version is refused
 instead of never ending

---
 nxt/legacy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..86a6595 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -61,6 +61,9 @@ class FileConverter(object):
                           'to open it in '
                           '{}'.format(file_version,
                                       GRAPH_VERSION.VERSION_STR))
+        elif (major_version, minor_version) > GRAPH_VERSION.VERSION_TUPLE:
+            raise IOError('File version v{} is newer than '
+                          '{}'.format(file_version, GRAPH_VERSION.VERSION_STR))
         return minor_version
 
     @classmethod
-- 
2.43.0


From d4014d5268277b5653750af7b4fe08093b853de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:06 +0000
Subject: [PATCH 41/63] fix: converted files carry the current version

---
 nxt/legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 86a6595..b4247f4 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -43,6 +43,7 @@ class FileConverter(object):
                 break
             # Step version number by 1
             v += 1
+        self.file_data['version'] = GRAPH_VERSION.VERSION_STR
 
     def determine_version(self):
         """Strips off the bug fix number then returns the major version
-- 
2.43.0


From 144f34a132d4a705423ec01f71e2f4ad6a09a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 42/63] fix: references inside file tokens are resolved at the
 node that holds them, missing and cyclic ones to nothing

---
 nxt/plugins/file_fallbacks.py | 108 +++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 41 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..52ce5be 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -131,7 +131,8 @@ def generate_historical_values(first, last, value, stage, comp_node,
 
 
 def historical_resolve_file_ref(stage, comp_node, value, comp_layer,
-                                active_layers, token, historical_depth=0):
+                                active_layers, token, historical_depth=0,
+                                resolving=()):
     """Attempts to resolve a file token in the attribute
     specified at the historical depth given. See `Stage.infer_lower_comp` for
     more details on comping at a historical depth. This method is not
@@ -144,6 +145,8 @@ def historical_resolve_file_ref(stage, comp_node, value, comp_layer,
     :param token: tokens.Token object
     :param historical_depth: number of layers to step back, relative to the
     comp layer, that the historical comp should be built at.
+    :param resolving: tuple of references being resolved, see
+    `historical_resolve_attr_ref`.
     :return: string of the resolved attribute value
     """
     resolved = value
@@ -159,7 +162,8 @@ def historical_resolve_file_ref(stage, comp_node, value, comp_layer,
         _, sep, raw = string.partition(token.prefix)
         resolved_token = historical_resolve_attr_ref(stage, raw, comp_node,
                                                      comp_layer, active_layers,
-                                                     historical_depth)
+                                                     historical_depth,
+                                                     resolving)
         if not resolved_token and raw:
             resolved_token = INVALID_PATH
         resolved_fp = file_root_fallback(resolved_token, layer_dir=layer_dir)
@@ -168,7 +172,8 @@ def historical_resolve_file_ref(stage, comp_node, value, comp_layer,
 
 
 def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
-                                active_layers, historical_depth=0):
+                                active_layers, historical_depth=0,
+                                resolving=()):
     """Attempts to resolve an attr ref token at the historical depth given.
     See `Stage.infer_lower_comp` for more details on comping at a historical
     depth. This method IS recursive, BUT only checks the exact historical
@@ -180,48 +185,69 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
     :param active_layers: list of active layers
     :param historical_depth: number of layers to step back, relative to the
     comp layer, that the historical comp should be built at.
+    :param resolving: tuple of the (path, attr name) references this call is
+    part of resolving, used to stop at references that form a cycle.
     :return: string of the resolved attribute token
     """
-    tokens = stage.get_tokens_from(string, token_type=TOKENTYPE.ATTR)
-    resolved_token = string
-    for attr_token in tokens:
-        attr_ref = get_token_content(attr_token)
-        ref_path, ref_attr_name = nxt_path.path_attr_partition(attr_ref)
-        if ref_path and ref_attr_name:
-            attr_name = ref_attr_name
-            source_path = ref_path
+    resolved = ''
+    for full_token in get_standalone_tokens(string):
+        token_content = get_token_content(full_token)
+        token = stage.determine_token_type(token_content)
+        if token == file_fallback_token:
+            value = historical_resolve_file_ref(stage, comp_node, full_token,
+                                                comp_layer, active_layers,
+                                                token, historical_depth,
+                                                resolving)
         else:
-            attr_name = attr_ref
-            source_path = get_node_path(comp_node)
-        # If this attr ref is to another node, go there and get the value
-        if source_path:
-            node_path = get_node_path(comp_node)
-            source_path = nxt_path.expand_relative_node_path(source_path,
-                                                             node_path)
-        source_node = comp_layer.lookup(source_path)
-        historical_node = stage.infer_lower_comp(source_node, comp_layer,
-                                                 active_layers,
-                                                 historical_depth)
-
-        value = getattr(historical_node, attr_name, None) or ''
-        more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
-                                                         file_fallback_token))
-        for token_content in more:
-            token = stage.determine_token_type(get_token_content(token_content))
+            value = historical_resolve_attr_ref(stage, token_content,
+                                                comp_node, comp_layer,
+                                                active_layers,
+                                                historical_depth, resolving)
             if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
-            elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
-        raw_token = make_token_str(attr_ref)
-        resolved_token = resolved_token.replace(raw_token, value)
-    return resolved_token
+                value = historical_attr_value(stage, value, comp_node,
+                                              comp_layer, active_layers,
+                                              historical_depth, resolving)
+            else:
+                value = make_token_str(value)
+        # Only the tokens of the string are replaced, not those in values
+        before, _, string = string.partition(full_token)
+        resolved += before + value
+    return resolved + string
+
+
+def historical_attr_value(stage, attr_ref, comp_node, comp_layer,
+                          active_layers, historical_depth, resolving):
+    """Get the resolved value the given attr ref has at the historical depth
+    given.
+    See `historical_resolve_attr_ref` for the args and their meaning.
+    :param attr_ref: string, either an attr name or an attr path
+    :return: string of the resolved value, empty if there is none
+    """
+    node_path = get_node_path(comp_node)
+    ref_path, ref_attr_name = nxt_path.path_attr_partition(attr_ref)
+    if ref_path and ref_attr_name:
+        attr_name = ref_attr_name
+        # If this attr ref is to another node, go there and get the value
+        source_path = nxt_path.expand_relative_node_path(ref_path, node_path)
+    else:
+        attr_name = attr_ref
+        source_path = node_path
+    source_node = comp_layer.lookup(source_path)
+    if source_node is None:
+        return ''
+    ref = (source_path, attr_name)
+    if ref in resolving:
+        logger.error('"{}" refers to itself'.format(attr_ref),
+                     links=[source_path])
+        return ''
+    historical_node = stage.infer_lower_comp(source_node, comp_layer,
+                                             active_layers, historical_depth)
+    value = getattr(historical_node, attr_name, None)
+    if value is None:
+        return ''
+    return historical_resolve_attr_ref(stage, str(value), source_node,
+                                       comp_layer, active_layers,
+                                       historical_depth, resolving + (ref,))
 
 
 def iter_env_roots(only_exsiting=True):
-- 
2.43.0


From c15b85d40dbdced4dc5b0581eda7108c9390a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 43/63] fix: new graphs get the unused name that was found for
 them

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f219276..e1d31bb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -151,7 +151,7 @@ class Stage:
         if layer_data:
             self.load_from_file(layer_data)
         else:
-            self.new_layer(0, {'name': name})
+            self.new_layer(0, {SAVE_KEY.ALIAS: name})
 
     @property
     def next_node(self):
-- 
2.43.0


From 25f911ed6ce4314621ff5de70d31141469f7a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 44/63] fix: a session finds the graphs it has already loaded

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e1d31bb..f2849f7 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -142,7 +142,7 @@ class Stage:
         self.uid = nxt_uuid(f=True)
         self._sub_layers = []
         self._active_sub_layers = []
-        self._filepath = layer_data.get('_filepath', 'untitled.nxt')
+        self._filepath = layer_data.get(SAVE_KEY.FILEPATH, 'untitled.nxt')
         self.cached = None
         self.execute_order = None
         self.current_node = None
-- 
2.43.0


From 457d58027c8c3b2b3f4f34f32cf6bd1a87df1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 45/63] fix: graphs made at the same time do not replace each
 other in a session

---
 nxt/session.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..0a97f42 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -37,9 +37,20 @@ class Session(object):
         :return: New graph object.
         """
         new_graph = Stage(name=self.get_unused_graph_name('untitled'))
-        self._loaded_files[new_graph.uid] = new_graph
+        self._add_stage(new_graph)
         return new_graph
 
+    def _add_stage(self, stage):
+        """Keep the given stage under its uid. The uid is made from the time, it
+        is moved on if another stage was made at the very same time.
+
+        :param stage: Stage object
+        :return: None
+        """
+        while stage.uid in self._loaded_files:
+            stage.uid += 1
+        self._loaded_files[stage.uid] = stage
+
     def get_unused_graph_name(self, name):
         """Used by new_file() to make sure that any new graph created won't
         conflict with the names of currently open graphs.
@@ -82,7 +93,7 @@ class Session(object):
         except IOError:
             logger.exception('Failed to open: "{}"'.format(filepath))
             raise
-        self._loaded_files[new_stage.uid] = new_stage
+        self._add_stage(new_stage)
         return new_stage
 
     def unload_file(self, uid):
-- 
2.43.0


From 38b6dcf8de4e088faf62d7b7cb64392bd914d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 46/63] fix: Session.save_file saves the graph it is given the
 path of

---
 nxt/session.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 0a97f42..6fea0b1 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -120,20 +120,14 @@ class Session(object):
 
         :return: True/False if successful
         """
-        target_path = graph_file_path
-        if new_path:
-            target_path = os.path.normcase(new_path)
-        current_path = None
-        if graph_file_path:
-            current_path = os.path.normcase(graph_file_path)
-        if current_path in (k[0] for k in self._loaded_files.keys()):
-            self._loaded_files[current_path].save_layer(filepath=target_path)
-            if current_path != target_path:
-                changed_graph = self._loaded_files.pop(current_path)
-                self._loaded_files[target_path] = changed_graph
+        for stage in self._loaded_files.values():
+            if stage.filepath != graph_file_path:
+                continue
+            self.save_layer(stage.top_layer, filepath=new_path)
+            if new_path:
+                stage.filepath = new_path
             return True
-        else:
-            return False
+        return False
 
     def save_layer(self, layer, filepath=None):
         layer.save(filepath=filepath)
-- 
2.43.0


From df65ffce7758e46451eb7eb35246cda408f016b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 47/63] fix: compare the paths of loaded graphs in the same
 form

---
 nxt/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index 6fea0b1..83462be 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -143,7 +143,7 @@ class Session(object):
         """
         norm_path = os.path.normcase(path)
         for uid, data in self._loaded_files.items():
-            if data.filepath == norm_path:
+            if os.path.normcase(data.filepath) == norm_path:
                 return self._loaded_files[uid]
         else:
             return self.load_file(path)
-- 
2.43.0


From fc7b3297d702ba4c10b0859c764b7e73fb452348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 48/63] fix: an execution shuts the rpc server down only if it
 started it, and then always

---
 nxt/session.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 83462be..b6dc8bf 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -176,30 +176,33 @@ class Session(object):
         """
         stage = self.get_stage(filepath)
         if context is None:
-            self.start_rpc_if_needed(stage)
+            started = self.start_rpc_if_needed(stage)
             try:
                 return stage.execute(start=start, parameters=parameters)
             finally:
-                self.shutdown_rpc_server()
+                if started:
+                    self.shutdown_rpc_server()
         else:
-            self._start_rpc_server()
-            proxy = NxtClient()
+            started = self._start_rpc_server()
             try:
+                proxy = NxtClient()
                 cache_file = proxy.exec_in_headless(filepath, start, None,
                                                     parameters, context)
                 return nxt_layer.CacheLayer.load_from_filepath(cache_file)
             finally:
-                self.shutdown_rpc_server()
+                if started:
+                    self.shutdown_rpc_server()
 
     def execute_nodes(self, filepath, node_paths, parameters=None):
         stage = self.get_stage(filepath)
-        self.start_rpc_if_needed(stage)
-        comp_layer = stage.build_stage()
+        started = self.start_rpc_if_needed(stage)
         try:
+            comp_layer = stage.build_stage()
             return stage.execute_nodes(node_paths=node_paths,
                                        layer=comp_layer, parameters=parameters)
         finally:
-            self.shutdown_rpc_server()
+            if started:
+                self.shutdown_rpc_server()
 
     def start_rpc_if_needed(self, stage):
         """Given a stage this method parses for the remote context node,
@@ -207,7 +210,7 @@ class Session(object):
         (if one is already run a new on will NOT be started)
 
         :param stage: stage.Stage instance
-        :return: None
+        :return: True if a server was started
         """
         # Remote Graphs
         remote_node_name = contexts.REMOTE_CONTEXT_BUILTIN_NODE
@@ -223,9 +226,9 @@ class Session(object):
                 start_rpc = True
                 break
         if start_rpc:
-            self._start_rpc_server()
-            return
+            return self._start_rpc_server()
         logger.info('It was determined you do not need an rpc server.')
+        return False
 
     def _start_rpc_server(self, custom_stdout=False, rpc_log_filepath=None,
                           socket_log=False, stream_handler=None):
@@ -237,14 +240,19 @@ class Session(object):
         no effect.
         :param socket_log: If True the a nxt logging messages will be
         directed to a socket handler.
-        :return: None
+        :return: True if a server was started, False if one was running already
+        or none can be started.
         """
         logger.debug('Starting rpc server!')
         rpc_server = RPCServerProcess.start(use_custom_stdout=custom_stdout,
                                             stdout_filepath=rpc_log_filepath,
                                             socket_log=socket_log,
                                             stream_handler=stream_handler)
+        if rpc_server is None:
+            # A server this session already owns is still its own
+            return False
         self.rpc_server = rpc_server
+        return True
 
     def shutdown_rpc_server(self):
         """Attempts to close THIS session's rpc server, if this session
-- 
2.43.0


From 096157ec83e5a9bdeec6fdb525a2ae413758225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:27 +0000
Subject: [PATCH 49/63] fix: an rpc server that does not come up is not left
 behind

---
 nxt/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index b6dc8bf..5d91349 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -353,7 +353,9 @@ class RPCServerProcess(object):
             count += 1
             if self.is_running():
                 break
-        if count == self.STARTUP_TIMEOUT:
+        else:
+            self.terminal.terminate()
+            self.terminal = None
             raise OSError('Failed to start RPC server!')
         logger.debug('rpc server started')
         if old_env_verbosity is not None:
-- 
2.43.0


From 2cdb90b36002f091bd23c0a7039a7f3796422b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:54 +0000
Subject: [PATCH 50/63] fix: an rpc server that cannot be reached is ended on
 every platform

---
 nxt/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index 5d91349..892f688 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -1,5 +1,6 @@
 # Built-in
 import os
+import errno
 import logging
 import subprocess
 import sys
@@ -392,7 +393,8 @@ class RPCServerProcess(object):
             proxy = NxtClient()
             proxy.kill()
         except Exception as e:
-            if getattr(e, 'errno', -1) == 10061 and self.terminal:
+            refused = getattr(e, 'errno', -1) in (10061, errno.ECONNREFUSED)
+            if refused and self.terminal:
                 try:
                     logger.info('Telling rpc server to shutdown...')
                     proxy = NxtClient()
-- 
2.43.0


From 9381efed1f8ab2b2835f7898c1ab59998e4dd9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 51/63] fix: an empty name is made legal as well

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f2849f7..7931c97 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -415,7 +415,7 @@ class Stage:
         `\w` regex: (a-z, A-Z, 0-9, _)
         Replaces illegal characters with underscore.
         """
-        if name[0].isdigit():
+        if not name or name[0].isdigit():
             name = '_' + name
         pattern = re.compile(r'\W')
         return re.sub(pattern, '_', name)
-- 
2.43.0


From c00c4ac70be11c21201e9d3a719dbcf7b63b9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 52/63] fix: an attribute that is added without a value is
 there

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7931c97..1a32270 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1286,6 +1286,9 @@ class Stage:
         # TODO default values for args? If so, fix test_tokens.py
         node_path = layer.get_node_path(node)
         attr = self.get_unique_attr_name(node_path, layer, attr)
+        if META_ATTRS.VALUE not in attr_data:
+            # Without a value of its own the attr would not be there at all
+            setattr(node, attr, None)
         # Parse for attrs
         for sub_attr, value in attr_data.items():
             if sub_attr == 'source':
-- 
2.43.0


From 00cdb1886cad095a557b8b32c65a73b49e998b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 53/63] fix: creating an attribute sets its values once

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1a32270..775aefc 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1520,8 +1520,10 @@ class Stage:
                     source = (layer.real_path, node_path)
                     setattr(node, attr + META_ATTRS.SOURCE, source)
             elif create:
+                # All of the given values are set at once
                 self.add_node_attr(node, attr, dict(**values), layer=layer)
-                local_attrs += (attr,)
+                value_set = META_ATTRS.VALUE in values
+                break
         if not value_set:
             return
         if attr == INTERNAL_ATTRS.PARENT_PATH:
-- 
2.43.0


From 3c1d70aea41e43ffee960677f290a3ca5d900658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 54/63] fix: only attributes the node itself holds are deleted

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 775aefc..a55f652 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1312,7 +1312,7 @@ class Stage:
 
     def delete_node_attr(self, node, attr_name):
         node = self.get_node_spec(node)
-        if not self.node_attr_exists(node, attr_name):
+        if attr_name not in get_spec_attr_names(node):
             return False
         for meta_attr_suffix in self.meta_attrs:
             meta_attr = attr_name + meta_attr_suffix
-- 
2.43.0


From a4a0360ea5ca2bdf5e6a4b60b83bd7d24d1178c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 55/63] fix: attributes are not given the names of meta data or
 of a class

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a55f652..a41a566 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -535,7 +535,10 @@ class Stage:
                 illegal_names += tuple(
                     get_spec_attr_names(layer.lookup(node_path)))
             illegal_names += INTERNAL_ATTRS.PROTECTED
-            if test_name not in illegal_names:
+            # Python's own names of a class and the names of our meta data
+            illegal_names += tuple(dir(type))
+            if (test_name not in illegal_names and
+                    not test_name.endswith(META_ATTRS._suffix)):
                 break
             num_suffix += 1
             test_name = base_name + str(num_suffix)
-- 
2.43.0


From 749c4d05aa4e2b929ec05ff8211cd5042d484022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 56/63] fix: parameters given to the command line must name an
 attribute

---
 nxt/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/cli.py b/nxt/cli.py
index 02b2bd3..7d39f9b 100644
--- a/nxt/cli.py
+++ b/nxt/cli.py
@@ -11,6 +11,7 @@ from nxt.session import Session
 
 from nxt import legacy
 from nxt import nxt_log
+from nxt import nxt_path
 from nxt.constants import (API_VERSION, GRAPH_VERSION, NXT_DCC_ENV_VAR,
                            STANDALONE)
 from nxt.remote.contexts import iter_context_names
@@ -130,6 +131,9 @@ def execute(args):
             if not key.startswith('/'):
                 raise Exception('Invalid attr path key {}, must be '
                                 'formatted as /node.attr'.format(key))
+            if not nxt_path.attr_name_from_attr_path(key):
+                raise Exception('Invalid attr path key {}, it names no '
+                                'attribute'.format(key))
             val = parameter_list[i + 1]
             parameters[key] = val
             i += 2
-- 
2.43.0


From d9767b1b23c6cd3ea698cd6a8a7e1d79badff142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 57/63] fix: a graph that exits early is no failure of the
 command line

---
 nxt/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nxt/cli.py b/nxt/cli.py
index 7d39f9b..35562e4 100644
--- a/nxt/cli.py
+++ b/nxt/cli.py
@@ -15,6 +15,7 @@ from nxt import nxt_path
 from nxt.constants import (API_VERSION, GRAPH_VERSION, NXT_DCC_ENV_VAR,
                            STANDALONE)
 from nxt.remote.contexts import iter_context_names
+from nxt.runtime import ExitGraph
 has_editor = False
 try:
     import nxt_editor
@@ -138,7 +139,11 @@ def execute(args):
             parameters[key] = val
             i += 2
     context = getattr(args, 'context', None)
-    Session().execute_graph(args.path[0], start, parameters, context)
+    try:
+        Session().execute_graph(args.path[0], start, parameters, context)
+    except ExitGraph as exit_graph:
+        # A graph that ends itself early has not failed
+        logger.execinfo('Exited Graph: {}'.format(exit_graph))
     logger.execinfo('Execution finished!')
 
 
-- 
2.43.0


From 59ed9de4197fe4a63db153b242afc888befbc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 58/63] fix: results with values that contain themselves can be
 saved

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 016be41..c5d0307 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -262,7 +262,7 @@ def get_node_as_dict(spec_node):
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
                 sub_attrs[META_ATTRS.as_save_key(META_ATTRS.VALUE)] = val_copy
-            except TypeError:  # value is not JSON serializable
+            except (TypeError, ValueError):  # value is not JSON serializable
                 pass
         sorted_sub_attrs = OrderedDict(sorted(sub_attrs.items(),
                                               key=lambda x: x[0]))
-- 
2.43.0


From 07dbb9ec2c171b61f71ea7c5d77e758f6c563a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 59/63] fix: the results hold the world node when its code
 exits the graph

---
 nxt/stage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index a41a566..c12edec 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4233,6 +4233,7 @@ class Stage:
         except ExitNode as exit_node:
             logger.debug('Exited Node {}: {}'.format(nxt_path.WORLD, exit_node))
         except ExitGraph as exit_graph:
+            runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
             exit_graph.runtime_layer = runtime_layer
             raise
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
-- 
2.43.0


From 4ed4948c5a6223a5d8db6802cf08bc9788b9bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 60/63] fix: contexts with arguments of their own are told
 where to start

---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..b494938 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node:
+            cli_args += ['/enter/call_graph._start', start_node]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 4bd38a9aef3312e4f880334ad1bede3caa96ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 61/63] fix: a remote run that fails is an error for its caller

---
 nxt/remote/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index b494938..9fd8955 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -145,7 +145,7 @@ class ServerFunctions(object):
         logger.debug('call:  {}'.format(args))
         # TODO: Find a clean way to raise exceptions from the subprocess.
         try:
-            subprocess.call(args)
+            subprocess.check_call(args)
         except subprocess.CalledProcessError:
             raise RuntimeError('Remote context graph "{}" failed! See log...'
                                ''.format(safe_graph_path))
-- 
2.43.0


From 6f433de5ed512d8d76559202af68634490935008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:59 +0000
Subject: [PATCH 62/63] fix: a graph that exits early gives its results back
 from a remote run too

---
 nxt/builtin/_context.nxt | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/builtin/_context.nxt b/nxt/builtin/_context.nxt
index c46d708..785f0a6 100644
--- a/nxt/builtin/_context.nxt
+++ b/nxt/builtin/_context.nxt
@@ -126,7 +126,10 @@
                 "            continue", 
                 "        attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)", 
                 "        self._parameters[attr_path] = attr_val", 
-                "    result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    try:", 
+                "        result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    except ExitGraph as exit_graph:", 
+                "        result_rt_layer = exit_graph.runtime_layer", 
                 "    if self._cache_file:", 
                 "        result_rt_layer.cache_layer.save('${_cache_file}')", 
                 "    # Bring attributes back from world node onto this node", 
-- 
2.43.0


From e53ece93c5153f3c1f3db9fb784360e868548ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:59 +0000
Subject: [PATCH 63/63] fix: remote sub-graphs are given their parameters

---
 nxt/builtin/remote_contexts.nxt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/builtin/remote_contexts.nxt b/nxt/builtin/remote_contexts.nxt
index 844ad52..5044730 100644
--- a/nxt/builtin/remote_contexts.nxt
+++ b/nxt/builtin/remote_contexts.nxt
@@ -45,7 +45,7 @@
                 "",
                 "logger = logging.getLogger('nxt')",
                 "proxy = NxtClient()",
-                "parameters = {}",
+                "parameters = dict(self._parameters or {})",
                 "node_dict = get_node_as_dict(self)",
                 "node_attrs = node_dict.get(nxt_io.SAVE_KEY.ATTRS, {})",
                 "for attr_name, attr_dict in node_attrs.items():",
-- 
2.43.0

