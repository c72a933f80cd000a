From 8c32d7ecf067119a3a79a476b525678fe5230f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 01/29] fix: BST._transplant must splice out the replacement's
 whole child subtree

---
 extra/trees/bst.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..bd78428 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -891,15 +891,19 @@ class BST(BinaryTree):
             else:
                 parent.set_right(replacement)
         else:
-            if replacement.is_leaf():
-                new_replacement = None
-            elif replacement.get_left():
-                new_replacement = replacement.get_left()
+            # the replacement has one child at most
+            if replacement.get_left():
+                child = replacement.get_left()
             else:
-                new_replacement = replacement.get_right()
+                child = replacement.get_right()
             # swap data
             self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            # splice the replacement node out by lifting its only child
+            parent = replacement.get_parent()
+            if parent.get_left() is replacement:
+                parent.set_left(child)
+            else:
+                parent.set_right(child)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From 877e3038966b0d79e061fd5ce17161720edfdc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 02/29] fix: AVL rebalancing after a removal must rotate once
 when the heavy child is even

---
 extra/trees/avl.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..4d5c9a7 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -746,12 +746,13 @@ class AVL(BST):
             if left_height > right_height
             else grand_parent.get_right()
         )
-        # get the heavy child
+        # get the heavy child (a tie needs a single rotation)
         left_height, right_height = parent.get_children_heights()
-        node = (
-            parent.get_left()
-            if left_height > right_height else parent.get_right()
-        )
+        if left_height == right_height:
+            is_left_heavy = parent.is_left_child()
+        else:
+            is_left_heavy = left_height > right_height
+        node = parent.get_left() if is_left_heavy else parent.get_right()
 
         # determine the direction
         if parent.is_left_child():
-- 
2.43.0


From ece18bfbaeec2dc9e0604c7f36442db930697259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 03/29] fix: RedBlackTree insertion must stop recoloring at a
 black node

---
 extra/trees/red_black_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..8f10a69 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -513,7 +513,8 @@ class RedBlackTree(BST):
             return parent if parent else start_node
 
         # case I
-        if parent.get_color() == Color.BLACK:
+        if (start_node.get_color() == Color.BLACK
+                or parent.get_color() == Color.BLACK):
             # do nothing
             # print("Case I")
             return self._root
-- 
2.43.0


From 0755066c0dc30765b5b90508369aeada09bf0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 04/29] fix: RedBlackTree.remove must account for the color of
 the node that leaves the tree

---
 extra/trees/red_black_tree.py | 68 ++++++++++++-----------------------
 1 file changed, 22 insertions(+), 46 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 8f10a69..4d0656a 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -728,6 +728,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -770,10 +771,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -791,6 +793,9 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
+        # a red node absorbs the extra black
+        if double_black_node:
+            double_black_node.set_color(Color.BLACK)
         # make sure root is always black
         self._root.set_color(Color.BLACK)
 
@@ -869,54 +874,25 @@ class RedBlackTree(BST):
         replacement = self._find_replacement(removed_node)
         # print("replacement:", replacement)
 
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
+        # the node that physically leaves the tree
+        leaving_node = replacement if replacement else removed_node
+        leaving_color = leaving_node.get_color()
+        parent = leaving_node.get_parent()
+        is_left_child = parent.get_left() is leaving_node
+        # the replacement takes over the place and color of the removed node
+        if replacement:
+            replacement.set_color(removed_node.get_color())
+        # do the transplant
+        super()._transplant(removed_node, replacement)
+
+        # losing a black node creates a double black node
+        if leaving_color == Color.BLACK:
+            if is_left_child:
+                double_black_node = parent.get_left()
             else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+                double_black_node = parent.get_right()
             # handle this double black
             self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From c48998b57b7f5047bed395e51f8a5930ce484e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 05/29] fix: removing the only node of a DoublyLinkedList must
 drop its head and tail

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..f2aaf94 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1090,8 +1090,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From 017a260e41f630118be991cf174f2a4e620c0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 06/29] fix: removing the head of a DoublyLinkedList must
 unlink the head node itself, which may carry a priority

---
 extra/lists/doubly_linked_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index f2aaf94..8ec4bb5 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1101,7 +1101,11 @@ class DoublyLinkedList(LinkedList):
                 self._tail = prev_node
             self._length -= 1
         else:
-            if next_node is None:
+            if prev_node is None:
+                next_node.set_prev(None)
+                self._head = next_node
+                self._length -= 1
+            elif next_node is None:
                 prev_node.set_next(next_node)
                 self._tail = prev_node
                 self._length -= 1
-- 
2.43.0


From c7bba463e4aea77e35fb288a960d3f46a6c046d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 07/29] fix: PriorityQueue must refresh both priority bounds
 whenever an item leaves

---
 extra/lists/priority_queue.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..10987f5 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -371,7 +371,12 @@ class PriorityQueue(Queue):
         node = PriorityNode(item, priority)
         self._min_priority = min(self._min_priority, node.get_priority())
         self._max_priority = max(self._max_priority, node.get_priority())
+        was_full = self.is_full()
         super()._enqueue(node)
+        # the dropped item could have had the lowest/highest priority
+        if was_full:
+            self._update_min_priority()
+            self._update_max_priority()
 
     # =============================      TOP     ==============================
     def top(self):
@@ -484,12 +489,14 @@ class PriorityQueue(Queue):
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
                         self._update_min_priority()
+                        self._update_max_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
+                        self._update_min_priority()
                         self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
-- 
2.43.0


From 4d19fd31a8631d338342217972bf8369e04e6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 08/29] fix: removing from a heap must also sift the moved item
 up

---
 extra/trees/_heap.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..f1f329d 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -348,6 +348,18 @@ class Heap(ABC, Extra):
         )
         # set last item to -inf or inf based on heap type
         self._heap[last_idx] = float("-inf") if is_min_heap else float("inf")
+        # the moved item could belong above the removed item
+        idx = del_idx
+        while 0 < idx < last_idx:
+            parent_idx = (idx - 1) // 2
+            current = self._heap[idx]
+            parent = self._heap[parent_idx]
+            if ((is_min_heap and parent > current)
+                    or (not is_min_heap and parent < current)):
+                self._heap[parent_idx], self._heap[idx] = current, parent
+                idx = parent_idx
+            else:
+                break
         # start swapping when needed
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
-- 
2.43.0


From dd66d21bb1d13bf6ce751571e97b07ac9b1536cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 09/29] fix: iterating over an empty heap must yield nothing
 instead of failing an assertion

---
 extra/trees/_heap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1f329d..3a556ed 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -376,9 +376,10 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
-        btree = self._transform()
-        for node in btree:
-            yield node
+        if not self.is_empty():
+            btree = self._transform()
+            for node in btree:
+                yield node
 
     def to_list(self):
         """
-- 
2.43.0


From 0f652c2d665a5f32ce7885ad394b3143ef6eab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 10/29] fix: Heap.to_list must not hand out the internal array

---
 extra/trees/_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 3a556ed..ab9146f 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -391,7 +391,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap.copy()
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From 7b9ac4dd3654a3834d4da6faacc38e84126879bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 11/29] fix: removing the last word of a trie must stop at the
 root

---
 extra/trees/trie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..caabb50 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -719,7 +719,8 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (curr_node is not self._root
+                   and not curr_node._is_word and curr_node.is_leaf()):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From 2df6369817dbb0a667da3e227b22ae20e3c3add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 12/29] fix: trie lookups must not treat '}' as an existing
 child

---
 extra/trees/trie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index caabb50..0597209 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,9 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
-            if child_data == word[: len(child_data)]:
+            child_data = child.get_data() if child else None
+            # stop when there is no child whose data starts the word
+            if child and child_data == word[:len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
             else:
-- 
2.43.0


From 49920424c921d0c08ed681d944c95e130d08de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 13/29] fix: looking for a value in an empty tree must answer
 False

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..fdbb256 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [] if self.is_empty() else [self._root]
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From c6e86989c276530821f8752ef549f94da777bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 14/29] fix: looking for a value in an empty SplayTree must
 answer False

---
 extra/trees/splay_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..ea2858c 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -391,6 +391,8 @@ class SplayTree(BST):
         root.
         """
         super()._validate_item(find_val)
+        if self.is_empty():
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From 2442525ff013158237c485d5fa969f92064cc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 15/29] fix: the black height of an empty RedBlackTree is zero

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 4d0656a..2a8cdce 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -947,6 +947,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From 90908dc0c16d045809acc82b82709e0a1a7cc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 16/29] fix: Treap.remove must not mistake a negative priority
 for a missing child

---
 extra/trees/treap.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..a14173d 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -556,17 +556,14 @@ class Treap(BST):
             # rotate till removed_node is leaf
             parent = removed_node.get_parent()
             while not removed_node.is_leaf():
-                # get children's priority
+                # get children
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From aa4756c3a965b12be74620a06df98fd54a91194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 17/29] fix: SkipList must not take its own header for the
 value -inf

---
 extra/lists/skip_list.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..92fb7be 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -746,8 +746,9 @@ class SkipList(Extra):
         if type(value) not in {int, float}:
             return False
         self._validate_item(value)
-        _, found_node, _ = self._search(value)
-        return found_node.get_data() == value
+        prev_node, found_node, _ = self._search(value)
+        # only the header of a level has no previous node
+        return prev_node is not None and found_node.get_data() == value
 
     def __getitem__(self, idx):
         """
@@ -985,7 +986,8 @@ class SkipList(Extra):
         prev_node, found_node, last_accessed_nodes = self._search(value)
         # NOTE: len(last_accessed_nodes) can be used to get the level where
         #  this value was found
-        if found_node.get_data() == value:
+        # only the header of a level has no previous node
+        if prev_node is not None and found_node.get_data() == value:
             level = self._num_levels - 1 - len(last_accessed_nodes)
             while level >= 0:
                 curr_level_list = self._level_lists[level]
-- 
2.43.0


From c3410ad3e93250fc38a82f791751a096e0690cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 18/29] fix: constructing a list out of another instance must
 not share its nodes

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 extra/lists/skip_list.py          | 3 ---
 3 files changed, 12 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 8ec4bb5..a39fad9 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..77440a9 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 92fb7be..9abf102 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From 74f9e90513914f154c7f892aabc63c4fe0093c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 19/29] fix: extending a list must copy the items of the other
 list instead of sharing its nodes

---
 extra/lists/circular_linked_list.py |  2 +-
 extra/lists/doubly_linked_list.py   | 11 +----------
 extra/lists/linked_list.py          | 10 ++++------
 3 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index a39fad9..7808a21 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -984,16 +984,7 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._tail = other._tail
-            self._length += other._length
-        else:
-            self._tail.set_next(other._head)
-            self._tail = other._tail
-            self._length += other._length
+        super().extend(other)
 
     # =============================      SET     ==============================
     def __setitem__(self, idx, item):
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 77440a9..92fbe87 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1401,13 +1401,11 @@ class LinkedList(Extra):
             )
         if other.is_empty():
             pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._length = other._length
         else:
-            last_node, _ = self._get_node(self._length)
-            last_node.set_next(other._head)
-            self._length += other._length
+            # nodes can't be shared between two instances
+            prev_node, _ = self._get_node(self._length)
+            for item in other.to_list():
+                prev_node = self._insert_value(prev_node, item)
 
     # =============================     SET      ==============================
     def _replace_value(self, idx, new_value):
-- 
2.43.0


From a3ffab867b2e9bec9cfb143b462c34816583bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 20/29] fix: CircularLinkedList item assignment must validate
 the item and reject an empty list

---
 extra/lists/circular_linked_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..086e724 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,6 +932,9 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
+        super()._validate_item(item)
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 036ea2ce770b8feafdfcccd42de0e26528bbcd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 21/29] fix: LinkedList.rotate_right must validate the inplace
 flag like rotate_left

---
 extra/lists/linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 92fbe87..de6b878 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -2104,6 +2104,8 @@ class LinkedList(Extra):
         │ 2 │⟶│ 3 │⟶│ 4 │⟶│ 1 │⟶
         └───┘ └───┘ └───┘ └───┘
         """
+        if type(inplace) != bool:
+            raise TypeError("`inplace` is a boolean flag (True by default)!!")
         self._validate_rotation_distance(distance)
         rotated = self._rotate(distance, "RIGHT")
         if not inplace:
-- 
2.43.0


From 8009df30829f7635e488dae26cba259e12cb5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 22/29] fix: the longest repeated substring can end at any
 leaf, not only at the deepest ones

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..b66be53 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -532,7 +532,7 @@ class SuffixTrie(Extra):
             return []
         lcs_set = set()
         longest_length = 0
-        for node in self.__get_deepest_nodes():
+        for node in self._leaf_nodes.values():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
             lcs_set.add(lcs)
-- 
2.43.0


From a744ab65c3a379acd9ca51931ba118d83e63759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 23/29] fix: BinaryTree.is_balanced must compare the heights of
 both sides of the root

---
 extra/trees/binary_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..a071f71 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -745,12 +745,12 @@ class BinaryTree(Tree):
         left_depth = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + super()._get_height(self._root.get_left())
         )
         right_depth = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + super()._get_height(self._root.get_right())
         )
         return abs(left_depth - right_depth) <= 1
 
-- 
2.43.0


From e42de0862ed2ad382a5885604317572b5db254be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 24/29] fix: slicing a list with a negative step must return
 every item of the slice in its order

---
 extra/lists/linked_list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index de6b878..2a918c5 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1108,7 +1108,8 @@ class LinkedList(Extra):
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
             indices = range(*idx.indices(self._length))
-            max_idx = indices[-1] if indices else -1
+            max_idx = max(indices[0], indices[-1]) if indices else -1
+            backward = idx.step is not None and idx.step < 0
             indices = set(indices)
             # start getting wanted nodes
             counter = 0
@@ -1117,8 +1118,10 @@ class LinkedList(Extra):
             out_llist = self._create_instance()
             while counter <= max_idx:
                 if counter in indices:
-                    prev_node = out_llist._insert_value(prev_node,
-                                                        curr_node.get_data())
+                    new_node = out_llist._insert_value(prev_node,
+                                                       curr_node.get_data())
+                    # with a negative step, the last visited node comes first
+                    prev_node = None if backward else new_node
                 curr_node = curr_node.get_next()
                 counter += 1
             return out_llist
-- 
2.43.0


From 76c451c3151c52fcb6715a7c5816bc7cbb555686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:48 +0000
Subject: [PATCH 25/29] fix: Trie.remove warns about a word that isn't there

---
 extra/trees/trie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 0597209..24ff550 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -716,7 +716,12 @@ class Trie(Tree):
         elif word == "":
             return
         last_node, remaining_word = self._follow_path(word)
-        if remaining_word == "":  # found the whole word
+        if remaining_word != "" or not last_node._is_word:
+            warnings.warn(
+                f"`{word}` doesn't exist in `{self.__name__}`",
+                UserWarning
+            )
+        else:  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
             while (curr_node is not self._root
-- 
2.43.0


From 7e9b02fbe04b51e3860a0d2c48f0623b33bd47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:31 +0000
Subject: [PATCH 26/29] fix: the suffix made of the terminator alone is a valid
 first suffix of get_lowest_common_ancestor

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index b66be53..225830e 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -623,7 +623,7 @@ class SuffixTrie(Extra):
             raise TypeError("`i` and `j` should be integer values!!")
         elif i < 0 or j < 0:
             raise ValueError("`i` and `j` should be postive integer values!!")
-        elif i >= len(self._word) or j > len(self._word):
+        elif i > len(self._word) or j > len(self._word):
             raise ValueError(
                 f"`i` and `j` values can't exceed {len(self._word)} "
                 + f"since it is the length of given word: `{self._word}`!!"
-- 
2.43.0


From 5a9a837b721191abcf272e6ce703b31f05307773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 27/29] fix: LinkedList.__gt__ compares how far the items went
 with the other list's length

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 2a918c5..4f773ad 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From c62a266115c3ac929513782aba94def654079aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:54 +0000
Subject: [PATCH 28/29] fix: the suffix array puts the empty suffix before the
 ones starting below the terminator character

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 225830e..3d1c147 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -124,7 +124,7 @@ class SuffixTrie(Extra):
         node = self._rt._insert("$ ⟶ " + str(len(self._word)))
         node._is_word = False
         self._leaf_nodes[len(self._word)] = node
-        self._suffix_array.append((len(self._word), "$"))
+        self._suffix_array.append((len(self._word), ""))
         # NOTE
         # The `self._suffix_array` isn't the actually suffix array. To obtain
         # the suffix array, you will need to sort the suffixes alphabetically
-- 
2.43.0


From 80d4951ba8bab911938c27d627d872f4481e5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:57 +0000
Subject: [PATCH 29/29] fix: iterating over SuffixTrie keeps the nodes whose
 text has the index separator

---
 extra/trees/suffix_trie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 3d1c147..fd6cae4 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -315,7 +315,9 @@ class SuffixTrie(Extra):
         banana$,a,na,$,na,$,na$,$,na$,$,
         """
         for node in self._rt.__iter__():
-            yield node.split(" ⟶ ")[0]
+            # only a leaf has `$`, and it is followed by the suffix index
+            substr, terminator, _ = node.partition("$")
+            yield substr + terminator
 
     def to_list(self):
         """
-- 
2.43.0

