From 40421cd24e178701070f2a756ec682d00b9ad94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 01/30] fix: detach a removed node from all of its parents

_destroy_relationship() removes from node.parents while _remove_node()
iterates over it, so every second parent kept the removed node in its
list of children.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From f34031819bf7394e46c39433fdca0ee9918ce405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 02/30] fix: set_parent() dismisses all the other parents

remove_parent() shrinks self.parents while set_parent() iterates over it,
so a node with several parents kept every second one.
---
 liblarch/treenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..6069f0e 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -102,7 +102,7 @@ class _Node(object):
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
                     # First we remove all the other parents
-                    for node_id in self.parents:
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
                         else:
-- 
2.43.0


From a8f92331754cb97b2253d4aa62e0a8cf6352ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 03/30] fix: a refused circular move keeps the current parents

set_parent() removed the current parents before new_relationship() detected
the cycle, so moving a node below its own descendant failed and moved it to
the root.
---
 liblarch/treenode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 6069f0e..ce28289 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -101,6 +101,12 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
+                    # Refuse a circular move before losing current parents
+                    if self.tree._is_circular_relation(
+                            parent_id, self.get_id()):
+                        raise Exception(
+                            'Cannot build circular relationship between '
+                            '{} and {}'.format(parent_id, self.get_id()))
                     # First we remove all the other parents
                     for node_id in list(self.parents):
                         if node_id != parent_id:
-- 
2.43.0


From 9e1c1372fb080d003611ca838ee255cdfd35224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 04/30] fix: a failing request does not block the other queued
 requests

---
 liblarch/processqueue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..9620e6b 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,12 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # Report the failed request and go on with the other ones.
+                # (An exception would make GLib drop this handler for ever)
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From c964831cf953d82671a5b56949144fb9f150a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 05/30] fix: a node may be named like an event of the view

---
 liblarch/filteredtree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..2f49ea0 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Actions waiting for a node to be displayed (by node_id)
+        self.runonce_cllbcks = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +92,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce_cllbcks:
+                    self.runonce_cllbcks[node_id] = []
+                self.runonce_cllbcks[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +111,11 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce_cllbcks.get(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
+                    if node_id in self.runonce_cllbcks:
+                        self.runonce_cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From 4381f5f0b1207221c6889d1030c75dd1342dc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 06/30] fix: ViewCount.unregister_cllbck() raised
 AttributeError

---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From 2639f9d9ed1e50942e4236b12d926f20e94413f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 07/30] fix: ViewCount counts by the truth value of filters

Like FilteredTree does: any true value displays the node, a filter which is
no longer in the bank displays nothing.
---
 liblarch/viewcount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..c85e436 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,9 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            if not filt or not filt.is_displayed(nid):
+                displayed = False
+                break
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 813a377dbcbbde333b2eb7e1b9f3c890e80bae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 08/30] fix: add_filter() crashed on a name starting with '!'

---
 liblarch/filters_bank.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..89a843b 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -101,12 +101,11 @@ class FiltersBank(object):
         Return True if the filter was added
         Return False if the filter_name was already in the bank
         """
+        if filter_name.startswith('!'):
+            filter_name = filter_name[1:]
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0


From b9a59bc1ded425919e2516206330f340772f638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 09/30] fix: add_node() with a circular parent leaves the tree
 unchanged

---
 liblarch/tree.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..5b28e11 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -159,6 +159,18 @@ class MainTree(object):
             print("Error: Node '%s' already exists" % node_id)
             return False
 
+        # Refuse a circular parent before anything is changed
+        if parent_id is not None:
+            children = [node_id] + [
+                rel_child_id for rel_parent_id, rel_child_id
+                in self.pending_relationships + node.pending_relationships
+                if rel_parent_id == node_id and rel_child_id in self.nodes]
+            for child_id in children:
+                if self._is_circular_relation(parent_id, child_id):
+                    raise Exception(
+                        'Creating circular relationship between '
+                        '{} and {}'.format(parent_id, node_id))
+
         _Node._set_tree(node, self)
         for relationship in node.pending_relationships:
             if relationship not in self.pending_relationships:
@@ -197,10 +209,6 @@ class MainTree(object):
 
         # Build relationship with given parent
         if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
             if parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
-- 
2.43.0


From 7645681d4929218cca7519c0a305ad200e3a005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 10/30] fix: views did not notice that a late parent arrived

A node which waited for its parent was not updated when the relationship
was finally established: filters looking at its parents were not re-run.
---
 liblarch/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 5b28e11..4761d8c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -223,6 +223,9 @@ class MainTree(object):
         # Send callbacks
         # updating the parent and the children is handled by the FT
         self._callback("node-added", node_id)
+        # The children which were waiting for this node got a new parent
+        for child_id in children_to_refresh:
+            self._callback("node-modified", child_id)
 
     def _remove_node(self, node_id, recursive=False):
         """ Remove node from tree """
-- 
2.43.0


From c57c0411ccc2c455cf0c369a1f2c267bb4bfa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 11/30] fix: node_nth_child(None, n) of a filtered view raised
 KeyError

None stands for the root like in node_all_children() and node_n_children().
---
 liblarch/filteredtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 2f49ea0..990b46b 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -573,6 +573,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 6cf1796d81314aadcb648202487e58194af2a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 12/30] fix: an action for a displayed node was repeated if it
 returned True

queue_action() promises to run the action once.
---
 liblarch/filteredtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 990b46b..cc3a911 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -90,7 +90,7 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
                 if node_id not in self.runonce_cllbcks:
                     self.runonce_cllbcks[node_id] = []
@@ -98,6 +98,11 @@ class FilteredTree(object):
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __run_once(self, func, param):
+        """ Run an idle action, regardless of its result just once """
+        func(param)
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
-- 
2.43.0


From e3404ed32196b6be695032bb51b2aeac20d6fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 13/30] fix: get_node_for_path() of an unknown node raised
 instead of returning None

---
 liblarch/tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 4761d8c..341b419 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -346,11 +346,10 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
-        if path in self.get_paths_for_node(node_id):
+        if node_id in self.nodes and path in self.get_paths_for_node(node_id):
             return node_id
         else:
             return None
-        return node_id
 
     def get_paths_for_node(self, node_id):
         """ Get all paths for node_id """
-- 
2.43.0


From 1e0041b4d51019a0e6686c387e289ccd5a016253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:21 +0000
Subject: [PATCH 14/30] fix: views failed when nodes with several parents were
 hidden together

Hiding a node updates its children, which updates their other parents, which
might come back to the node while its relationships were half changed
(KeyError, ValueError, rows left behind).
---
 liblarch/filteredtree.py | 61 +++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index cc3a911..140c5e0 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -63,6 +63,8 @@ class FilteredTree(object):
         self.nodes[self.root_id] = {'parents': [], 'children': []}
         self.cache_paths = {}
         self.filter_cache = {}
+        # Nodes which are being hidden at the moment
+        self.leaving = set()
 
         # Connect to signals from MainTree
         self.tree = tree
@@ -140,7 +142,7 @@ class FilteredTree(object):
         '''update the node node_id and propagate the
         change in direction (up|down|both) '''
 
-        if node_id == self.root_id:
+        if node_id == self.root_id or node_id in self.leaving:
             return None
 
         current_display = self.is_displayed(node_id)
@@ -191,10 +193,6 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
             stay = set(new_parents) - set(add_to)
@@ -204,25 +202,29 @@ class FilteredTree(object):
             if direction == "down" and self.root_id in add_to:
                 direction = "both"
 
+            # Finish our own relationships before anybody else is updated:
+            # updating the parents might come back to this node
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
+                self.nodes[node_id]['parents'].remove(parent_id)
             # there might be some optimization here
             for parent_id in add_to:
-                if parent_id in self.nodes:
-                    self.nodes[parent_id]['children'].append(node_id)
-                    self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
-                else:
-                    completely_updated = False
-                    raise Exception("We have a parent not in the ViewTree")
-            # We update all the other parents
+                self.nodes[parent_id]['children'].append(node_id)
+                self.nodes[node_id]['parents'].append(parent_id)
+                self.send_add_tree(node_id, parent_id)
+            self.nodes[node_id]['parents'] = new_parents
+
+            # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in stay:
-                    self.__update_node(parent_id, direction="up")
+                for parents in (remove_from, add_to, stay):
+                    for parent_id in parents:
+                        self.__update_node(parent_id, direction="up")
+
+            # Updating the parents might have hidden the node
+            if not self.is_displayed(node_id):
+                return completely_updated
+
             # We update the node itself
             # Why should we call the callback only for modify?
             if action == 'modified':
@@ -238,20 +240,27 @@ class FilteredTree(object):
                         self.__update_node(cid, direction="down")
 
         elif action == 'deleted':
-            paths = self.get_paths_for_node(node_id)
-            children = list(reversed(self.nodes[node_id]['children']))
-            for child_id in children:
-                self.send_remove_tree(child_id, node_id)
-                self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
+            # Updating the others might come back to this node
+            self.leaving.add(node_id)
+            info = self.nodes[node_id]
+            try:
+                while info['children']:
+                    child_id = info['children'][-1]
+                    self.send_remove_tree(child_id, node_id)
+                    info['children'].remove(child_id)
+                    self.nodes[child_id]['parents'].remove(node_id)
+                    self.__update_node(child_id, direction="down")
+            finally:
+                self.leaving.remove(node_id)
 
+            paths = self.get_paths_for_node(node_id)
             node = self.nodes.pop(node_id)
+            for parent_id in node['parents']:
+                self.nodes[parent_id]['children'].remove(node_id)
             for path in paths:
                 self.callback(action, node_id, path)
 
-            # Remove node from cache
             for parent_id in node['parents']:
-                self.nodes[parent_id]['children'].remove(node_id)
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From 1d2c008b8563a120e4ec651d57f6701730a19b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 15/30] fix: edits of other threads are not dropped when an
 equal one is waiting

Deleting, adding and deleting a node again from another thread left the
node in the tree: the second deletion was taken for the first one that was
still waiting before the addition. Only refreshes are merged now.
---
 liblarch/processqueue.py | 6 +++---
 liblarch/tree.py         | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 9620e6b..38697f6 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -64,8 +64,8 @@ class SyncQueue(object):
         services are put in the queue.
 
         Application can choose which kind of priority should have an update.
-        If the request is not in the queue of selected priority, add it and
-        setup callback.
+        Add the request to the queue of selected priority and setup callback.
+        A request with merge=True is not added if it is in that queue already.
         """
 
         if self._origin_thread == threading.current_thread():
@@ -82,7 +82,7 @@ class SyncQueue(object):
             queue = self._queue
 
         self._lock.acquire()
-        if element not in queue:
+        if not kwargs.get('merge') or element not in queue:
             queue.append(element)
             if self._handler is None:
                 self._handler = GObject.idle_add(self.process_queue)
diff --git a/liblarch/tree.py b/liblarch/tree.py
index 341b419..f0a8ad4 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -86,7 +86,8 @@ class MainTree(object):
         self._queue.push(self._remove_node, node_id, recursive)
 
     def modify_node(self, node_id, priority="low"):
-        self._queue.push(self._modify_node, node_id, priority=priority)
+        self._queue.push(
+            self._modify_node, node_id, priority=priority, merge=True)
 
     def new_relationship(self, parent_id, child_id):
         self._queue.push(self._new_relationship, parent_id, child_id)
-- 
2.43.0


From 67a801c7cb131a10e481a83230d4719b98a244ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 16/30] fix: expand the rows a tree widget starts with

expand_all() ran before show() connected the model, that is, on an empty
model: nothing was expanded although rows are documented to be.
---
 liblarch_gtk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..12778b5 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -192,8 +192,9 @@ class TreeView(Gtk.TreeView):
 
         self.set_model(self.treemodel)
 
-        self.expand_all()
+        # The rows come with the connection of the model
         self.show()
+        self.expand_all()
 
         self.collapsed_paths = []
         self.connect('row-expanded', self.__emit, 'expanded')
-- 
2.43.0


From 8b29dd6db4c405d4f811ade1ab6baa1afd92683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:44 +0000
Subject: [PATCH 17/30] fix: a node that was expanded again does not count as
 collapsed

expand_node added the path to collapsed_paths just like collapse_node, so an
expanded node stayed closed when its rows came back.
---
 liblarch_gtk/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 12778b5..a391f15 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -264,7 +264,11 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                # Only what was collapsed last stays so when rows come back
+                self.collapsed_paths = [
+                    c for c in self.collapsed_paths if c[-1] != node_id]
+                if collapsing_method != self.expand_one_row:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 31d448364ab0384733426a97ff84c6568984150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 18/30] fix: has_parent() of a node that is not in a tree

---
 liblarch/treenode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index ce28289..33479ea 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -130,7 +130,9 @@ class _Node(object):
         """
         if self.parents_enabled:
             if parent_id:
-                parent_in_tree = self.tree.has_node(parent_id)
+                # A node which is not in a tree (yet) has no parents
+                parent_in_tree = (self.tree is not None and
+                                  self.tree.has_node(parent_id))
                 own_parent = parent_id in self.parents
                 return parent_in_tree and own_parent
             else:
-- 
2.43.0


From d86077be42c0ea9a72639f3e32cfb1733b9cd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 19/30] fix: connecting a tree model again doubled its rows

---
 liblarch_gtk/treemodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..b74393b 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -37,6 +37,7 @@ class TreeModel(Gtk.TreeStore):
         self.cache_paths = {}
         self.cache_position = {}
         self.tree = tree
+        self.connected = False
 
     def set_column_function(self, column_num, column_func):
         """ Replace function for generating certain column.
@@ -56,6 +57,11 @@ class TreeModel(Gtk.TreeStore):
         Also asks for the current status by providing add_task callback.
         We are able to connect to liblarch tree on the fly. """
 
+        # Connecting again (e.g. by showing a widget again) changes nothing
+        if self.connected:
+            return
+        self.connected = True
+
         self.tree.register_cllbck('node-added-inview', self.add_task)
         self.tree.register_cllbck('node-deleted-inview', self.remove_task)
         self.tree.register_cllbck('node-modified-inview', self.update_task)
-- 
2.43.0


From 3056acb0888f24971bcfafc067d66ada3983aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 20/30] fix: another tree model on the same view doubled the
 rows of the first

---
 liblarch_gtk/treemodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index b74393b..0976ec9 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -136,6 +136,10 @@ class TreeModel(Gtk.TreeStore):
         @param node_id: identification of task
         @param path: identification of position
         """
+        # Everybody gets the current state when another model connects
+        if path in self.cache_position:
+            return
+
         node = self.tree.get_node(node_id)
 
         # Build a new row
-- 
2.43.0


From 496a518ef0249d300c1b0f4222a487d3502ac9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:33 +0000
Subject: [PATCH 21/30] fix: do not build late relationships nodes refuse

A relationship that waited for a node, or was given with the new node, was
built even if the parent had its children or the child its parents disabled:
the two nodes then disagreed about it.
---
 liblarch/tree.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f0a8ad4..765a4a9 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -115,6 +115,11 @@ class MainTree(object):
         if child_id in self.root.children:
             self.root.children.remove(child_id)
 
+    def _accepts_relationship(self, parent_id, child_id):
+        """ Nodes might refuse to have children or parents """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _destroy_relationship(self, parent_id, child_id):
         """ Destroy relationship without any checks """
         parent = self.nodes[parent_id]
@@ -188,7 +193,9 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._accepts_relationship(rel_parent_id, node_id):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -200,7 +207,9 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._accepts_relationship(node_id, rel_child_id):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -211,9 +220,10 @@ class MainTree(object):
         # Build relationship with given parent
         if parent_id is not None:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._accepts_relationship(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
-- 
2.43.0


From b48633a9811342fe3f21e42852ddf6673d3d0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:33 +0000
Subject: [PATCH 22/30] fix: look at hidden parents and at children of shown
 nodes again

When a shown node changes, a filter which looks at children might accept one
of its hidden parents; children of a parent which appears belong below it.
---
 liblarch/filteredtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 140c5e0..47c1734 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -183,7 +183,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            if action == 'added' or direction != "down":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
@@ -234,7 +234,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if direction == "both" or direction == "down" or action == 'added':
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From 07616768918facc4410567adde5c13d81a867193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:33 +0000
Subject: [PATCH 23/30] fix: listeners of a counter may unregister while they
 are told

---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index c85e436..52486e6 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -102,5 +102,6 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
+        # We copy the list to not loop on it while it could be modified
+        for c in list(self.cllbcks):
             c()
-- 
2.43.0


From 14fb85d3a2185301fd4e2b4e7b657965ec6a8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 24/30] fix: do not wait for parents that were removed or
 replaced

A node that awaits a parent which is not in the tree yet kept waiting when
remove_parent() was called for that parent or when the node was moved, and
got the unwanted parent later.
---
 liblarch/treenode.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 33479ea..7e410d5 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -87,13 +87,23 @@ class _Node(object):
                 if par.has_children_enabled():
                     self.tree.new_relationship(parent_id, self.node_id)
 
+    def _forget_awaited(self, parent_id=None):
+        """ Do not wait for this parent (None => any parent) anymore """
+        owner = self.tree or self
+        owner.pending_relationships = [
+            (parent, child) for parent, child in owner.pending_relationships
+            if child != self.node_id or
+            (parent_id is not None and parent != parent_id)]
+
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
             is_already_parent_flag = False
             if not self.tree:
+                self._forget_awaited()
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
+                self._forget_awaited()
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
                 self.tree.pending_relationships.append(
@@ -108,6 +118,7 @@ class _Node(object):
                             'Cannot build circular relationship between '
                             '{} and {}'.format(parent_id, self.get_id()))
                     # First we remove all the other parents
+                    self._forget_awaited()
                     for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
@@ -121,6 +132,8 @@ class _Node(object):
         if self.parents_enabled and parent_id in self.parents:
             self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
+        else:
+            self._forget_awaited(parent_id)
 
     def has_parent(self, parent_id=None):
         """ Has parent/parents?
-- 
2.43.0


From 89c91be514692900856985cd4780ac4f1d3781ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 25/30] fix: replace the function of a column in one model only

set_column_function() changed the description the model was made of: other
models of the same description changed too, and columns described by tuples
(as documented) raised TypeError.
---
 liblarch_gtk/treemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 0976ec9..72aaf0b 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -30,7 +30,9 @@ class TreeModel(Gtk.TreeStore):
         self.count = 0
         self.count2 = 0
 
-        self.types = [[str, lambda node: node.get_id()]] + types
+        # Replacing a function must not change the description of others
+        self.types = [[str, lambda node: node.get_id()]]
+        self.types += [list(column) for column in types]
         only_types = [python_type for python_type, access_method in self.types]
 
         super(TreeModel, self).__init__(*only_types)
-- 
2.43.0


From 2a6d64a1a9f7d7cfa55c807ef558414ed807f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 26/30] fix: dropping nothing from another place raised
 ValueError

The data of the selection are bytes, never equal to ''.
---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index a391f15..bc67cf7 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -515,7 +515,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From 80748f3c0a89775b4fa3667d7a36f628d69bc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 27/30] fix: show that the value of a column is gone

A column function that returned None (no colour, say) after another value
left the old value in the row.
---
 liblarch_gtk/treemodel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 72aaf0b..da019d0 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -190,8 +190,7 @@ class TreeModel(Gtk.TreeStore):
             if iterator:
                 for column_num, (__, access_method) in enumerate(self.types):
                     value = access_method(node)
-                    if value is not None:
-                        self.set_value(iterator, column_num, value)
+                    self.set_value(iterator, column_num, value)
 
     def reorder_nodes(self, node_id, path, neworder):
         """ Reorder nodes.
-- 
2.43.0


From a329a283dacd04e55e881085db5a7df5d0165fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 28/30] fix: sort by a column that is described later

The widget raised KeyError for a 'sorting' column that came later.
---
 liblarch_gtk/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index bc67cf7..349541b 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -116,6 +116,7 @@ class TreeView(Gtk.TreeView):
             self.order_of_column.append((order, col_name))
 
         types = []
+        sorting = []
         sorting_func = []
         # Build the first column if user starts with new_colum=False
         col = Gtk.TreeViewColumn()
@@ -164,13 +165,16 @@ class TreeView(Gtk.TreeView):
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
                     self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    sorting.append((col, self.sort_col))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        # The column to sort by might come later
+        for col, sort_col in sorting:
+            col.set_sort_column_id(self.columns[sort_col][0])
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From fa573cdb9b32f399c766bba5b37001d5bb9243cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 29/30] fix: the complete view lists no filters instead of
 raising AttributeError

---
 liblarch/viewtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index dad50e7..2d71797 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -267,6 +267,8 @@ class ViewTree(object):
 
     # FILTERS #################################################################
     def list_applied_filters(self):
+        if self.static:
+            return []
         return self.__ft.list_applied_filters()
 
     def apply_filter(self, filter_name, parameters=None,
-- 
2.43.0


From dc8c6a81734b1619839c3a9b0da29baa086102fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 30/30] fix: show the first columns when they ask to share a
 column

---
 liblarch_gtk/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 349541b..7189cd4 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -118,8 +118,8 @@ class TreeView(Gtk.TreeView):
         types = []
         sorting = []
         sorting_func = []
-        # Build the first column if user starts with new_colum=False
-        col = Gtk.TreeViewColumn()
+        # There is no column to share if user starts with new_colum=False
+        col = None
 
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
@@ -139,7 +139,7 @@ class TreeView(Gtk.TreeView):
 
             # If new_colum=False, do not create new column, use the previous
             # one. It will create columns without borders.
-            if desc.get('new_column', True):
+            if col is None or desc.get('new_column', True):
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-- 
2.43.0

