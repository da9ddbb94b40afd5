From 5e4f69a5c12af62e620d046a577b5f993609a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 01/26] fix: run tree operations in a transaction on the
 database they write to

transaction.atomic without arguments always opens its transaction on the
default database, so with a database router (or several databases) the
operations were not atomic at all and select_for_update failed.
---
 treebeard/admin.py          |  4 ++--
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/ltree/__init__.py | 12 ++++++------
 treebeard/models.py         |  6 +++---
 treebeard/mp_tree.py        | 14 +++++++-------
 treebeard/ns_tree.py        | 12 ++++++------
 treebeard/utils.py          | 17 ++++++++++++++++-
 7 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 38ad92c..975bd34 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -6,7 +6,7 @@ from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
 from django.core.exceptions import PermissionDenied
-from django.db import transaction
+from django.db import router, transaction
 from django.db.models.query import QuerySet
 from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
@@ -60,7 +60,7 @@ class TreeAdmin(admin.ModelAdmin):
         response = super()._changeform_view(*args, **kwargs)
         if getattr(response, "context_data", {}).get("errors", None):
             # There was an error somewhere, likely in an inline, so we'll need to roll back
-            transaction.set_rollback(True)
+            transaction.set_rollback(True, using=router.db_for_write(self.model))
         return response
 
     def get_urls(self):
diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..ce2aabe 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -1,13 +1,13 @@
 """Adjacency List"""
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Exists, Max, Min, OuterRef
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 
 class AL_NodeManager(NodeManager):
@@ -61,7 +61,7 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
@@ -92,7 +92,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, instance=None):
         """Adds a new node as a sibling to the current node object."""
@@ -105,7 +105,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..6683c7f 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -7,7 +7,7 @@ import string
 from collections.abc import Iterable
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import F, Func, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat
 from django.dispatch import Signal
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -159,7 +159,7 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -188,7 +188,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -226,7 +226,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -263,7 +263,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..1aa70f0 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -6,13 +6,13 @@ from contextlib import suppress
 from functools import reduce
 
 from django.core import checks
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Q
 from django.utils.functional import cached_property
 
 from treebeard.deprecation import RemovedInTreebeard8Warning, get_moved_manager_classmethod, get_moved_manager_method
 from treebeard.exceptions import InvalidPosition, MissingNodeOrderBy
-from treebeard.utils import prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, prepare_dumpdata_for_loading, save_m2m
 
 
 class Node(models.Model):
@@ -435,7 +435,7 @@ class NodeManager(models.Manager):
             qs = qs.filter(depth__lte=max_depth)
         return self.get_annotated_list_qs(qs)
 
-    @transaction.atomic
+    @atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
         Loads a list/dictionary structure to the tree.
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..37f8c0e 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, check_create_args, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -164,7 +164,7 @@ class MP_NodeManager(NodeManager):
         self._fix_numchild(qs)
 
         if fix_paths:
-            with transaction.atomic():
+            with transaction.atomic(using=self._db or router.db_for_write(cls)):
                 # To fix holes and mis-orderings in paths, we consider each non-leaf node in turn
                 # and ensure that its children's path values are consecutive (and in the order
                 # given by node_order_by, if applicable). children_to_fix is a queue of child sets
@@ -336,7 +336,7 @@ class MP_NodeManager(NodeManager):
 
         return evil_chars, bad_steplen, orphans, wrong_depth, wrong_numchild
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -380,7 +380,7 @@ class MP_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -433,7 +433,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -477,7 +477,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves node and all its descendants to a new position
@@ -610,7 +610,7 @@ class MP_NodeManager(NodeManager):
         )  # Subtract the parent node from the count
         return qs
 
-    @transaction.atomic
+    @atomic
     def load_bulk(
         self,
         bulk_data,
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..25a2912 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -5,14 +5,14 @@ from functools import reduce
 from itertools import groupby
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Case, F, Q, When
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -109,7 +109,7 @@ class NS_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -138,7 +138,7 @@ class NS_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the target."""
@@ -178,7 +178,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """Adds a new node as a sibling to the target."""
@@ -254,7 +254,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..b33b273 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -1,9 +1,10 @@
+import functools
 import inspect
 from typing import Any, TypedDict
 
 from django.core import serializers
 from django.core.serializers.base import DeserializedObject
-from django.db import models
+from django.db import models, router, transaction
 
 from treebeard.exceptions import NodeAlreadySaved
 
@@ -68,3 +69,17 @@ def check_create_args(func):
         return func(*args, **kwargs)
 
     return wrapper
+
+
+def atomic(func):
+    """
+    Decorator to run a manager method in a transaction on the database that the tree is written to,
+    which is not necessarily the default one.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with transaction.atomic(using=self._db or router.db_for_write(self.model)):
+            return func(self, *args, **kwargs)
+
+    return wrapper
-- 
2.43.0


From 9ed665af5498e2a3ab1a57e384e6b45cfa9b1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 02/26] fix: delete nodes and repair the remaining tree in one
 transaction

QuerySet.delete() updated child counts (MP), closed gaps (NS) and deleted the
rows in separate transactions, so a failure in between (or a ProtectedError)
left the tree inconsistent.
---
 treebeard/ltree/__init__.py | 2 ++
 treebeard/mp_tree.py        | 2 ++
 treebeard/ns_tree.py        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 6683c7f..7936d7d 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -96,6 +96,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
@@ -104,6 +105,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
         :returns: tuple of the number of objects deleted and a dictionary
                   with the number of deletions per object type
         """
+        self._for_write = True
         # Construct the minimal list of nodes that need deleting along with their descendants
         paths_to_remove = set()
         for node in self.order_by("path").only("path").prefetch_related(None).iterator():
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 37f8c0e..c3aa882 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
@@ -37,6 +38,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
         :returns: tuple of the number of objects deleted and a dictionary
                   with the number of deletions per object type
         """
+        self._for_write = True
         # we'll have to manually run through all the nodes that are going
         # to be deleted and remove nodes from the list if an ancestor is
         # already getting removed, since that would be redundant
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 25a2912..c71a2b4 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
@@ -35,6 +36,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
         :returns: tuple of the number of objects deleted and a dictionary
                   with the number of deletions per object type
         """
+        self._for_write = True
         model = self.model.objects.tree_model
 
         last_node = None
-- 
2.43.0


From f096aaa41889eb6320041e98ca2b3735fff87721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 03/26] fix: don't overflow the path step when moving nodes
 among their siblings

The temporary path used while moving a node to the left among its siblings was
two positions after the last one. When these positions didn't fit in a step the
branch ended up as a child of one of its siblings.
---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index c3aa882..8e8a298 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -797,6 +797,9 @@ class MP_NodeManager(NodeManager):
                 last = self.get_last_sibling(target)
                 basenum = last._get_lastpos_in_path()
                 tempnewpath = self.model._get_path(newpath, newdepth, basenum + 2)
+                if len(tempnewpath) > len(newpath):
+                    # There's no room at the end of the list, use the position before the first one instead
+                    tempnewpath = self.model._get_path(newpath, newdepth, 0)
                 self._set_newpath_in_branches(oldpath, tempnewpath)
 
         # Optimisation to only move siblings which need moving
-- 
2.43.0


From c9d7cf1708e4ce3e2485044ae5948533f67f3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 04/26] fix: raise PathOverflow when a moved or bulk loaded MP
 branch doesn't fit

Only add_child checked max_length, and load_bulk(bulk_create=True) didn't check
that the position of a child fits in a step: the paths were either stored
truncated/overlong or the database error was passed on.
---
 treebeard/mp_tree.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 8e8a298..2626613 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from django.core import serializers
 from django.db import connections, models, router, transaction
-from django.db.models import F, Func, OuterRef, Q, Subquery, Value
+from django.db.models import F, Func, Max, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat, Greatest, Length, Substr
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -412,15 +412,7 @@ class MP_NodeManager(NodeManager):
         if node.is_leaf():
             # the node had no children, adding the first child
             newobj.path = self.model._get_path(node.path, newobj.depth, 1)
-            max_length = self.model._meta.get_field("path").max_length
-            if len(newobj.path) > max_length:
-                raise PathOverflow(
-                    _(
-                        "The new node is too deep in the tree, try"
-                        " increasing the path.max_length property"
-                        " and UPDATE your database"
-                    )
-                )
+            self._check_path_length(len(newobj.path))
         else:
             # adding the new child as the last one
             newobj.path = self.get_last_child(node)._inc_path()
@@ -526,6 +518,12 @@ class MP_NodeManager(NodeManager):
         ):
             return
 
+        if newdepth > node.depth:
+            # The whole branch gets deeper, make sure that all of it still fits
+            branch = self.tree_model.objects.filter(path__startswith=node.path)
+            max_depth = branch.aggregate(max=Max("depth"))["max"]
+            self._check_path_length((max_depth - node.depth + newdepth) * self.model.steplen)
+
         # Move nodes
         oldpath, newpath = self._reorder_nodes_before_add_or_move(
             pos, newpos, newdepth, target, siblings, node.path, True
@@ -683,6 +681,9 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                if len(child.object.path) > len(parent_node.path) + self.model.steplen:
+                    raise PathOverflow(_(f"Path Overflow from: '{children[i - 1].object.path}'"))
+                self._check_path_length(len(child.object.path))
 
                 children_to_create.append(child)
 
@@ -757,6 +758,17 @@ class MP_NodeManager(NodeManager):
     def _decrement_numchild(self, path):
         self.tree_model.objects.filter(path=path).update(numchild=F("numchild") - 1)
 
+    def _check_path_length(self, length):
+        max_length = self.model._meta.get_field("path").max_length
+        if length > max_length:
+            raise PathOverflow(
+                _(
+                    "The new node is too deep in the tree, try"
+                    " increasing the path.max_length property"
+                    " and UPDATE your database"
+                )
+            )
+
     def _reorder_nodes_before_add_or_move(
         self, pos, newpos, newdepth, target, siblings, oldpath=None, movebranch=False
     ):
-- 
2.43.0


From d725f85b0efe99a045b5a57b279a9b1c91cf7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 05/26] fix: keep the objects passed to MP operations in step
 with the database

move() refreshed the last child instead of the target when moving to a child,
and counted a child that was already there (or wasn't moved at all);
add_sibling() didn't update the path of a target that was moved to the right;
add_child() on a sorted tree counted the new child before it was inserted.
---
 treebeard/mp_tree.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 2626613..65ffc42 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -403,8 +403,9 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
-            return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            newobj = self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            target.numchild = node.numchild + 1
+            return newobj
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
@@ -468,6 +469,7 @@ class MP_NodeManager(NodeManager):
         # saving the instance before returning it
         newobj.path = newpath
         newobj.save(using=self._db)
+        target.refresh_from_db(fields=["path"])  # The target may have been moved to the right
 
         return newobj
 
@@ -481,6 +483,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -531,7 +534,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -556,7 +559,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -571,11 +573,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From 19deee63941343772e582247adaab3003c07e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 06/26] fix: keep the objects passed to NS, AL and LT
 operations in step with the database

add_sibling() (and move() in AL and LT) didn't refresh a target that was moved
to the right, add_child() in NS added 2 too much to the rgt of a target that
already had children, and move() in AL kept the old cached depth.
---
 treebeard/al_tree.py        | 5 +++++
 treebeard/ltree/__init__.py | 5 ++++-
 treebeard/ns_tree.py        | 4 +++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index ce2aabe..a0cb22b 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -103,6 +103,8 @@ class AL_NodeManager(NodeManager):
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
         newobj.save(using=self._db)
+        if not target.node_order_by:
+            target.refresh_from_db(fields=["sib_order"])  # The target may have been moved to the right
         return newobj
 
     @atomic
@@ -116,6 +118,7 @@ class AL_NodeManager(NodeManager):
 
         sib_order = None
         parent = None
+        original_target = target
 
         if pos in ("first-child", "last-child", "sorted-child"):
             if node == target:
@@ -151,6 +154,8 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()  # The depth may have changed
+        original_target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 7936d7d..0ae2fae 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -261,8 +261,10 @@ class LT_NodeManager(NodeManager):
         elif pos == "last-sibling":
             insert_after = self.get_last_sibling(target)
 
-        newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
+        newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        if nodes_moved:
+            target.refresh_from_db(fields=["path"])
         return newobj
 
     @atomic
@@ -327,6 +329,7 @@ class LT_NodeManager(NodeManager):
         # And update the path for the node itself
         node.path = new_path
         node.save()
+        target.refresh_from_db()
 
         subtree_moved.send(
             sender=result_class,
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index c71a2b4..8a96fbc 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -157,7 +157,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
@@ -186,6 +185,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -253,6 +253,8 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        # The target may have been moved to the right
+        original_target.refresh_from_db(fields=["tree_id", "lft", "rgt"])
 
         return newobj
 
-- 
2.43.0


From 3a630643d296db33c6735badc646eed7ab4dcf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 07/26] fix: don't use a cached parent to find the position of
 the last NS sibling

The rgt of the cached parent of the target may have changed since.
---
 treebeard/ns_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 8a96fbc..1bb9b55 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -242,7 +242,7 @@ class NS_NodeManager(NodeManager):
                     target = siblings.first()
 
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, 2)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
@@ -343,7 +343,7 @@ class NS_NodeManager(NodeManager):
                 self._move_tree_right(target.tree_id)
         else:
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, gap)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
-- 
2.43.0


From bdfc75f69e10ecc4baf323c81f125b6ee59d46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 08/26] fix: recognise the same node in models with multi-table
 inheritance

A child model instance never equals the instance of the tree model that the
sibling queries return, so that 'right' and 'left' of it inserted nodes at the
wrong position (NS) or moved nodes that were already in place.
---
 treebeard/al_tree.py        | 10 +++++-----
 treebeard/ltree/__init__.py |  2 +-
 treebeard/mp_tree.py        | 12 ++++++------
 treebeard/ns_tree.py        | 22 +++++++++++-----------
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index a0cb22b..92af1be 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -121,7 +121,7 @@ class AL_NodeManager(NodeManager):
         original_target = target
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -141,10 +141,10 @@ class AL_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if node.pk == target.pk and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
+            or (pos == "first-sibling" and target.pk == self.get_first_sibling(target).pk)
         ):
             # special cases, not actually moving the node, so nothing to do
             return
@@ -268,7 +268,7 @@ class AL_NodeManager(NodeManager):
         return ancestors
 
     def _is_target_pos_the_last_sibling(self, pos, target):
-        return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
+        return pos == "last-sibling" or (pos == "right" and target.pk == self.get_last_sibling(target).pk)
 
     def _make_hole_and_get_sibling_order(self, pos, target_node):
         siblings = self.get_siblings(target_node)
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 0ae2fae..2d9a230 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -276,7 +276,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 65ffc42..ba24d5d 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -509,15 +509,15 @@ class MP_NodeManager(NodeManager):
 
         # Handle special cases where nothing needs to be done
         if newdepth == node.get_depth():
-            if pos == "first-sibling" and node == self.get_first_sibling(target):
+            if pos == "first-sibling" and node.pk == self.get_first_sibling(target).pk:
                 return
 
-            if pos == "last-sibling" and node == self.get_last_sibling(target):
+            if pos == "last-sibling" and node.pk == self.get_last_sibling(target).pk:
                 return
 
-        if node == target and (
+        if node.pk == target.pk and (
             # Moving a node to left/right of itself is a noop
-            pos == "left" or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
+            pos == "left" or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
         ):
             return
 
@@ -555,7 +555,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -775,7 +775,7 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (pos == "right" and target.pk == self.get_last_sibling(target).pk):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 1bb9b55..6d4df59 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -202,7 +202,7 @@ class NS_NodeManager(NodeManager):
                     pos = "last-sibling"
 
             last_root = self.get_last_root_node()
-            if (pos == "last-sibling") or (pos == "right" and target == last_root):
+            if (pos == "last-sibling") or (pos == "right" and target.pk == last_root.pk):
                 newobj.tree_id = last_root.tree_id + 1
             else:
                 newpos = {"first-sibling": 1, "left": target.tree_id, "right": target.tree_id + 1}[pos]
@@ -224,7 +224,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if target.pk == siblings.last().pk:
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -233,10 +233,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif node.pk == target.pk:
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if target.pk == siblings.first().pk:
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -272,7 +272,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -288,10 +288,10 @@ class NS_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if node.pk == target.pk and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
+            or (pos == "first-sibling" and target.pk == self.get_first_sibling(target).pk)
         ):
             # special cases, not actually moving the node so nothing to do
             return
@@ -307,7 +307,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if target.pk == siblings.last().pk:
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -316,10 +316,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif sib.pk == target.pk:
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if target.pk == siblings.first().pk:
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
-- 
2.43.0


From ecd28b50b10e183c494d86a8cb53bdab87ff4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 09/26] fix: insert the last root and the last sorted node of
 an LT tree at the end

No lower bound was passed to generate_path, so the new label could sort before
those of the existing siblings.
---
 treebeard/ltree/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 2d9a230..605caac 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -181,7 +181,9 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
@@ -250,6 +252,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -290,10 +294,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From 8702dd322a9001e5deabe044631deebd032c1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 10/26] fix: keep the order of LT siblings when making room to
 their left

Appending a character to all the labels changes the order of labels such as
'0' and '00', so the siblings (with their branches) swapped places.
---
 treebeard/ltree/__init__.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 605caac..8c90e41 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -452,6 +452,17 @@ class LT_NodeManager(NodeManager):
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
+        siblings = self.get_siblings(start_node).filter(path__gte=start_node.path)
+        labels = [path[-1] for path in siblings.values_list("path", flat=True)]
+        if any(nxt.startswith(label) and nxt[len(label)].isdigit() for label, nxt in itertools.pairwise(labels)):
+            # "0" orders before "00", but "0A" doesn't order before "00A". Make room after the label of
+            # start_node instead, for all the siblings whose labels begin with it.
+            start_label = start_node.path[-1]
+            for label in sorted((lbl for lbl in labels if lbl.startswith(start_label)), key=len, reverse=True):
+                new_label = f"{start_label}A{label[len(start_label) :]}"
+                self._rewrite_branch_path(start_node.path[:-1] + [label], start_node.path[:-1] + [new_label])
+            return
+
         if node_depth > 1:
             result_class.objects.filter(
                 path__descendants=start_node.path[:-1], path__gte=start_node.path, path__depth=node_depth
@@ -487,6 +498,18 @@ class LT_NodeManager(NodeManager):
             using=queryset.db,
         )
 
+    def _rewrite_branch_path(self, old_path, new_path):
+        """Move a node and its descendants to a new path."""
+        queryset = self.tree_model.objects.filter(path__descendants=old_path)
+        queryset.filter(path__depth__gt=len(old_path)).update(
+            path=Concat(
+                Value(new_path, output_field=PathField()),
+                Subpath(F("path"), len(old_path)),
+            )
+        )
+        queryset.filter(path__depth=len(old_path)).update(path=new_path)
+        subtree_moved.send(sender=self.tree_model, old_path=old_path, new_path=new_path, using=queryset.db)
+
     def get_children(self, node):
         """:returns: A queryset of all the node's children"""
         return self.tree_model.objects.filter(path__descendants=node.path, path__depth=len(node.path) + 1)
-- 
2.43.0


From d5ab973aa3753b6167d38c78e690f2772eed4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 11/26] fix: don't treat max_depth=0 as no limit in NS, AL and
 LT trees

As in MP trees, it limits the result to the given parent (or to nothing). Also
return an int from get_descendant_count() in NS trees.
---
 treebeard/al_tree.py        | 4 ++--
 treebeard/ltree/__init__.py | 2 +-
 treebeard/ns_tree.py        | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 92af1be..f3a8944 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -35,7 +35,7 @@ class AL_NodeManager(NodeManager):
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
-            if max_depth:
+            if max_depth is not None:
                 max_depth += parent.get_depth()
         else:
             depth = 1
@@ -45,7 +45,7 @@ class AL_NodeManager(NodeManager):
         return results
 
     def _get_tree_recursively(self, results, parent, depth, max_depth):
-        if max_depth and depth > max_depth:
+        if max_depth is not None and depth > max_depth:
             return results
 
         if parent:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 8c90e41..8752170 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -156,7 +156,7 @@ class LT_NodeManager(NodeManager):
         if parent:
             filters["path__descendants"] = parent.path
 
-        if max_depth:
+        if max_depth is not None:
             filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
 
         return cls.objects.filter(**filters)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 6d4df59..a555b43 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -106,7 +106,7 @@ class NS_NodeManager(NodeManager):
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
-        if max_depth:
+        if max_depth is not None:
             filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
 
         return cls.objects.filter(**filters)
@@ -514,8 +514,8 @@ class NS_NodeManager(NodeManager):
         If max_depth is set then the count is limited to the specified depth relative
         to the node.
         """
-        if not max_depth:
-            return (node.rgt - node.lft - 1) / 2
+        if max_depth is None:
+            return (node.rgt - node.lft - 1) // 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
 
-- 
2.43.0


From 6630710326eacc9aef433dd23076e09c341d9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 12/26] fix: support max_depth in get_annotated_list() of AL
 and LT trees

They have no depth field to filter by (and get_tree() returns a list in AL).
---
 treebeard/al_tree.py        | 3 +++
 treebeard/ltree/__init__.py | 3 +++
 treebeard/models.py         | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index f3a8944..5944a94 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -196,6 +196,9 @@ class AL_NodeManager(NodeManager):
             lnk[node.pk] = newobj
         return ret
 
+    def _limit_depth(self, nodes, max_depth):
+        return [node for node in nodes if node.get_depth() <= max_depth]
+
     def get_children(self, node):
         """:returns: A queryset of all the node's children"""
         return self.tree_model.objects.filter(parent=node)
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 8752170..78fb0fd 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -510,6 +510,9 @@ class LT_NodeManager(NodeManager):
         queryset.filter(path__depth=len(old_path)).update(path=new_path)
         subtree_moved.send(sender=self.tree_model, old_path=old_path, new_path=new_path, using=queryset.db)
 
+    def _limit_depth(self, nodes, max_depth):
+        return nodes.filter(path__depth__lte=max_depth)
+
     def get_children(self, node):
         """:returns: A queryset of all the node's children"""
         return self.tree_model.objects.filter(path__descendants=node.path, path__depth=len(node.path) + 1)
diff --git a/treebeard/models.py b/treebeard/models.py
index 1aa70f0..9c2eece 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -432,9 +432,12 @@ class NodeManager(models.Manager):
         """
         qs = self.get_tree(parent)
         if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+            qs = self._limit_depth(qs, max_depth)
         return self.get_annotated_list_qs(qs)
 
+    def _limit_depth(self, nodes, max_depth):
+        return nodes.filter(depth__lte=max_depth)
+
     @atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
-- 
2.43.0


From b9a8361534063f221a57ff9c15cbb10409c7d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 13/26] fix: get_next_sibling() and get_prev_sibling() in
 sorted AL trees

Sorted AL models have no sib_order field.
---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 5944a94..2d21e05 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -232,9 +232,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 78810fd0be169cbaf3d94be0b2083e5997f7ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 14/26] fix: move and save a node in the admin in one
 transaction

---
 treebeard/admin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 975bd34..48f6687 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -135,11 +135,12 @@ class TreeAdmin(admin.ModelAdmin):
         }[relation, bool(self.model.node_order_by)]
 
         try:
-            self.model.objects.move(node, target, pos=pos)
-            # Call the save method on the (reloaded) node in order to trigger
-            # possible signal handlers etc.
-            node.refresh_from_db()
-            node.save()
+            with transaction.atomic(using=router.db_for_write(self.model)):
+                self.model.objects.move(node, target, pos=pos)
+                # Call the save method on the (reloaded) node in order to trigger
+                # possible signal handlers etc.
+                node.refresh_from_db()
+                node.save()
         except (MissingNodeOrderBy, PathOverflow, InvalidMoveToDescendant, InvalidPosition) as exc:
             # An error was raised while trying to move the node, then set an
             # error message and return 400, this will cause a reload on the
-- 
2.43.0


From 689eae9b2d6abbdca2b158002f31f9a5f9993964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 15/26] fix: reorder the nodes of a full group of siblings in
 fix_tree(fix_paths=True)

---
 treebeard/mp_tree.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index ba24d5d..a8e9ba1 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -209,21 +209,18 @@ class MP_NodeManager(NodeManager):
                             pass
                         else:
                             # if a node is already in the desired position, move that node
-                            # to max_position + 1 to get it out of the way
+                            # to max_position + 1 to get it out of the way, or to position 0
+                            # (which isn't used otherwise) if there's no room after the last one
                             occupant = actual_sequence.get(desired_position)
                             if occupant:
                                 old_path = occupant["path"]
-                                max_position += 1
-                                new_path = cls._get_path(parent_path, depth, max_position)
-                                if len(new_path) > len(old_path):
-                                    previous_max_path = cls._get_path(parent_path, depth, max_position - 1)
-                                    raise PathOverflow(_(f"Path Overflow from: '{previous_max_path}'"))
-
-                                self._rewrite_node_path(old_path, new_path)
-                                # update actual_sequence to reflect the new position
-                                actual_sequence[max_position] = occupant
-                                del actual_sequence[desired_position]
-                                occupant["path"] = new_path
+                                temp_path = cls._get_path(parent_path, depth, max_position + 1)
+                                if len(temp_path) > len(old_path):
+                                    if 0 in actual_sequence:
+                                        raise PathOverflow(_(f"Path Overflow from: '{old_path}'"))
+                                    temp_path = cls._get_path(parent_path, depth, 0)
+
+                                self._rewrite_node_path(old_path, temp_path)
 
                             # move item into the (now vacated) desired position
                             old_path = item["path"]
@@ -234,6 +231,12 @@ class MP_NodeManager(NodeManager):
                             del actual_sequence[actual_position]
                             item["path"] = new_path
 
+                            if occupant:
+                                # the two nodes have changed places
+                                self._rewrite_node_path(temp_path, old_path)
+                                actual_sequence[actual_position] = occupant
+                                occupant["path"] = old_path
+
                         if item["numchild"]:
                             # this item has children to process, and we have now moved the parent
                             # node into its final position, so it's safe to add to children_to_fix
-- 
2.43.0


From d1e6bc06fa779e127f1b895ee7902ce91ec43f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 16/26] fix: don't overwrite an existing row when adding a node
 whose primary key is in use

load_bulk(keep_ids=True) is documented to fail when a key is already used; it moved the
existing node instead and left its old parent and children inconsistent.
---
 treebeard/al_tree.py        | 6 +++---
 treebeard/ltree/__init__.py | 6 +++---
 treebeard/mp_tree.py        | 6 +++---
 treebeard/ns_tree.py        | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 2d21e05..b09300f 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -70,7 +70,7 @@ class AL_NodeManager(NodeManager):
         if not self.model.node_order_by:
             max = self.tree_model.objects.filter(parent=None).aggregate(max=Max("sib_order"))["max"] or 0
             newobj.sib_order = max + 1
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -89,7 +89,7 @@ class AL_NodeManager(NodeManager):
             )
             newobj.sib_order = max + 1
         newobj.parent = target
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -102,7 +102,7 @@ class AL_NodeManager(NodeManager):
         if not target.node_order_by:
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         if not target.node_order_by:
             target.refresh_from_db(fields=["sib_order"])  # The target may have been moved to the right
         return newobj
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 78fb0fd..eb9cf12 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -189,7 +189,7 @@ class LT_NodeManager(NodeManager):
             newobj.path = generate_path()
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -227,7 +227,7 @@ class LT_NodeManager(NodeManager):
             )
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -266,7 +266,7 @@ class LT_NodeManager(NodeManager):
             insert_after = self.get_last_sibling(target)
 
         newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         if nodes_moved:
             target.refresh_from_db(fields=["path"])
         return newobj
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index a8e9ba1..6b47109 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -382,7 +382,7 @@ class MP_NodeManager(NodeManager):
         newobj.depth = 1
         newobj.path = newpath
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -427,7 +427,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj._cached_parent_obj = target
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
 
         return newobj
 
@@ -471,7 +471,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.path = newpath
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         target.refresh_from_db(fields=["path"])  # The target may have been moved to the right
 
         return newobj
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index a555b43..06df5e1 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -137,7 +137,7 @@ class NS_NodeManager(NodeManager):
         newobj.lft = 1
         newobj.rgt = 2
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         return newobj
 
     @atomic
@@ -175,7 +175,7 @@ class NS_NodeManager(NodeManager):
         newobj._cached_parent_obj = target
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
 
         return newobj
 
@@ -252,7 +252,7 @@ class NS_NodeManager(NodeManager):
             newobj.rgt = newpos + 1
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        newobj.save(force_insert=True, using=self._db)
         # The target may have been moved to the right
         original_target.refresh_from_db(fields=["tree_id", "lft", "rgt"])
 
-- 
2.43.0


From 01a9df4c06feffc33da393ee6f534ad14f6f36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 17/26] fix: load the path of LT nodes when it was deferred

---
 treebeard/ltree/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..b87fdad 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,10 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:
+            # The field was deferred when the instance was loaded
+            instance.refresh_from_db(fields=[self.field_name])
+
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0


From 0d4ca50dfd576c2edde0180a6ebb6200806c9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 18/26] fix: keep the order of nodes with equal sort values in
 fix_tree(fix_paths=True)

---
 treebeard/mp_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 6b47109..211c87e 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -186,7 +186,7 @@ class MP_NodeManager(NodeManager):
                         "pk", "path", "depth", "numchild"
                     )
 
-                    desired_sequence = children.order_by(*(cls.node_order_by or ["path"]))
+                    desired_sequence = children.order_by(*(cls.node_order_by or []), "path")
 
                     # mapping of current path position (converted to numeric) to item
                     actual_sequence = {}
-- 
2.43.0


From 6090b64c2980df4afae5a1d306a57f95b75cc2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 19/26] fix: offer and accept only valid reference nodes in the
 form of AL nodes

With multi-table inheritance, the node and its descendants were offered as
positions (instances of the child and of the tree model are never equal), and
nodes of the tree model were offered that the field then refused. In all AL
trees, the node itself and its descendants passed validation when sent.
---
 treebeard/forms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..3d9d69c 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -104,17 +104,21 @@ class MoveNodeForm(forms.ModelForm):
         """
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
+            # The choices are instances of the tree model, so compare primary keys.
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            excluded = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in excluded
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.tree_model.objects.exclude(
+                pk__in=excluded
+            )
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From c07dcb12d3217b645dd8073247eec2a2dfff02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 20/26] fix: move nodes in forms when a field with descending
 sort order was changed

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 3d9d69c..7d82b30 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -170,7 +170,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0


From a526ccec870b2f1e8c5cd1f657d438425e3f0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 21/26] fix: fix_tree(fix_paths=True) failed with a node at
 position 0 and no room after the last sibling

---
 treebeard/mp_tree.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 211c87e..5b3763a 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -1,6 +1,7 @@
 """Materialized Path Trees"""
 
 import collections
+import itertools
 import warnings
 from functools import cache
 from typing import Any
@@ -209,16 +210,17 @@ class MP_NodeManager(NodeManager):
                             pass
                         else:
                             # if a node is already in the desired position, move that node
-                            # to max_position + 1 to get it out of the way, or to position 0
-                            # (which isn't used otherwise) if there's no room after the last one
+                            # to max_position + 1 to get it out of the way, or to the first free
+                            # position (usually 0) if there's no room after the last one
                             occupant = actual_sequence.get(desired_position)
                             if occupant:
                                 old_path = occupant["path"]
                                 temp_path = cls._get_path(parent_path, depth, max_position + 1)
                                 if len(temp_path) > len(old_path):
-                                    if 0 in actual_sequence:
+                                    free_position = next(i for i in itertools.count() if i not in actual_sequence)
+                                    temp_path = cls._get_path(parent_path, depth, free_position)
+                                    if len(temp_path) > len(old_path):
                                         raise PathOverflow(_(f"Path Overflow from: '{old_path}'"))
-                                    temp_path = cls._get_path(parent_path, depth, 0)
 
                                 self._rewrite_node_path(old_path, temp_path)
 
-- 
2.43.0


From 8054820dcbfe35572d8973dbd175f9d7778fdb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 22/26] fix: read the nodes in the transaction in which the
 admin moves them

---
 treebeard/admin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 48f6687..dd3938e 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -104,6 +104,11 @@ class TreeAdmin(admin.ModelAdmin):
         )
 
     def move_node(self, request):
+        # The nodes must be read in the transaction in which they are moved
+        with transaction.atomic(using=router.db_for_write(self.model)):
+            return self._move_node(request)
+
+    def _move_node(self, request):
         if not self.has_view_or_change_permission(request):
             raise PermissionDenied
 
-- 
2.43.0


From 944cfa89826168970b8dd56a0f291578374f9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 23/26] fix: add a copy of a node as a root, not below the
 parent of the original

Manager.add_root() of AL trees kept the parent of an instance made by copying
another node (pk set to None), so that the copy was stored as its sibling.
---
 treebeard/al_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index b09300f..7a31e1b 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -66,6 +66,7 @@ class AL_NodeManager(NodeManager):
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
         newobj = instance or self.model(**create_kwargs)
+        newobj.parent = None
         newobj._cached_depth = 1
         if not self.model.node_order_by:
             max = self.tree_model.objects.filter(parent=None).aggregate(max=Max("sib_order"))["max"] or 0
-- 
2.43.0


From 1d66bcf287ac7f7c5a163c7c5aa412ce0bbcba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 24/26] fix: store no children for a copy of a node that has
 some

An instance made by copying another node (pk set to None) was added with the
numchild of the original.  Instances without a path keep theirs: load_bulk sets it.
---
 treebeard/mp_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 5b3763a..57be688 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -382,6 +382,8 @@ class MP_NodeManager(NodeManager):
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = 1
+        if newobj.path:
+            newobj.numchild = 0  # A copy of another node, without its children
         newobj.path = newpath
         # saving the instance before returning it
         newobj.save(force_insert=True, using=self._db)
@@ -414,6 +416,8 @@ class MP_NodeManager(NodeManager):
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
+        if newobj.path:
+            newobj.numchild = 0  # A copy of another node, without its children
 
         if node.is_leaf():
             # the node had no children, adding the first child
@@ -454,6 +458,8 @@ class MP_NodeManager(NodeManager):
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
+        if newobj.path:
+            newobj.numchild = 0  # A copy of another node, without its children
 
         if pos == "sorted-sibling":
             siblings = self.get_sorted_pos_queryset(self.get_siblings(target), newobj)
-- 
2.43.0


From abbb11c210b8a0b4ab6dc9e488b22d12e8ecffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 25/26] fix: don't keep the cached parent and depth of the
 original in a copy of a node

An instance made by copying another node (pk set to None) gave the parent or
depth of the original after it was added elsewhere.
---
 treebeard/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/utils.py b/treebeard/utils.py
index b33b273..542ae46 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -66,6 +66,10 @@ def check_create_args(func):
         if instance and not instance._state.adding:
             raise NodeAlreadySaved("Attempted to add a tree node that is already in the database")
 
+        if instance:
+            # It may be a copy of another node
+            instance._clear_cached_attributes()
+
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From f402603ca0d118152dc630a95c91adccfa344503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 26/26] fix: get_parent() of proxies of inherited AL models

A proxy of a model that extends the tree model via multi-table inheritance
could not find parents that are no instances of it.
---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 7a31e1b..1e6662e 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -258,7 +258,7 @@ class AL_NodeManager(NodeManager):
             if node.parent_id is None:
                 return None
 
-            return self.get(pk=node.parent_id)
+            return self.tree_model.objects.get(pk=node.parent_id)
 
         return node.parent
 
-- 
2.43.0

