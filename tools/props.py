#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "extra/lists/"
T = "extra/trees/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None,
         level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _tech=technique, _note=note, _level=level))


LF = [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py"]
ABS = "abstract interpretation of the sources (list-segment shape domain with sequence and integer relations)"
ABSN = ("Every obligation is decided over an abstract state that stands for all contents of all lengths, so a discharged "
        "obligation is a proof for that operation from every well-formed state; the transfer functions of the analyser and "
        "its model of the Python builtins used are trusted. An obligation the domain cannot settle is reported as undecided "
        "in the evidence and never as a violation.")

prop("P01", "List edits produce exactly the requested sequence and length",
     "Every operation that edits a linear, doubly-linked or circular list in place (adding or setting items at either end or at a position, "
     "removing by position, by range, by value, clearing, extending, rotating and reversing in place) leaves exactly the sequence of items its documentation describes: "
     "no other item is lost, duplicated or reordered. The reported length always equals the number of items in the list.",
     ["inputs", "histories"], "All lists of all lengths and contents reachable by any sequence of calls, all positions, slices and items.",
     "The tests apply a few edits to lists of at most a dozen items; the claim is about every length, every position and every history.",
     LF, [("linked edits", L + "linked_list.py LinkedList._insert_node/_remove_node"), ("length bookkeeping", L + "linked_list.py LinkedList._length"),
          ("doubly-linked edits", L + "doubly_linked_list.py DoublyLinkedList._insert_node/_remove_node"),
          ("circular edits", L + "circular_linked_list.py CircularLinkedList._insert_node")])
prop("P02", "Backward, tail and circular links agree with the forward sequence",
     "Whatever operations were applied, walking a doubly-linked list backwards from its last item visits exactly the items of the forward walk in opposite order and stops before the first, "
     "the first and last items are the ends of the same chain, and an empty list has neither. The last item of a circular list is always followed by its first one, so no walk leaves the list or skips an item.",
     ["inputs", "histories"], "All well-formed lists of every length before every public operation, including the lists that operations return.",
     "Only a handful of tests look at backward links, and only after a few edits of short lists; a stale link stays invisible until a later backward operation.",
     LF[1:], [("prev/next pairing", L + "doubly_linked_list.py DoublyNode.set_next/set_prev"), ("tail maintenance", L + "doubly_linked_list.py DoublyLinkedList._insert_node/_remove_node"),
              ("closing link", L + "circular_linked_list.py CircularLinkedList._insert_node/_remove_node")])
prop("P03", "Lists derived from a list hold exactly the described items",
     "Copying, reversing, slicing, splitting, rotating into a new list, converting to and from built-in sequences and iterating give exactly the items, in the order and number, that the documentation describes for every list, and the pieces of a split concatenate to the original.",
     ["inputs"], "All lists of all lengths, all split positions, slices (start, stop and step of either sign) and rotation distances.",
     "Tests check a few lengths, distances and slices; off-by-one mistakes appear at particular combinations of length, distance and step.",
     LF, [("split and rotation", L + "linked_list.py LinkedList.split/_rotate"), ("slicing", L + "linked_list.py LinkedList.__getitem__"),
          ("copy and reverse", L + "linked_list.py LinkedList.copy/reverse"), ("iteration", L + "linked_list.py LinkedList.__iter__")])
prop("P04", "Derived lists are independent and operands are not modified",
     "A list that is built from another list (copied, sliced, reversed, rotated, split off, constructed from it or extended with it) shares no mutable part with it, so later changes to one never show in the other. Operations that only read their operands leave every operand exactly as it was.",
     ["inputs", "histories"], "All operands of all lengths, including an operand that is the list itself, followed by any later edits of either side.",
     "Sharing only shows in a later, separate edit of the other list, a two-step history that hardly any test performs.",
     LF, [("node copies", L + "linked_list.py LinkedList.copy/extend/__init__"), ("split", L + "linked_list.py LinkedList.split"),
          ("construction", L + "circular_linked_list.py CircularLinkedList.__init__")])
prop("P05", "A rejected call raises the documented error and changes nothing",
     "A call on a list, stack, queue, deque or priority queue with an argument outside its documented domain (position out of range, wrong type, missing item, forbidden value, bad capacity or priority) raises the documented kind of error, and after it the container holds exactly the items it held before.",
     ["inputs", "histories"], "All containers of all lengths and all out-of-domain arguments of each documented kind.",
     "Tests assert that an exception is raised for a few bad arguments; they rarely look at the container afterwards, and cannot try every length and argument.",
     LF + [L + "stack.py", L + "queue.py", L + "deque.py", L + "priority_queue.py"],
     [("argument validation", L + "linked_list.py LinkedList._validate_index/_validate_item"), ("capacity validation", L + "stack.py Stack.__init__"),
      ("priority validation", L + "priority_queue.py PriorityQueue.enqueue")])
prop("P06", "List queries report what the list holds",
     "Looking up an item by position, searching for an item, membership, counting occurrences, the length and the emptiness test of a list answer exactly what its sequence of items implies, and none of them changes the list.",
     ["inputs"], "All lists of all lengths and contents (with repeated items), all positions and all searched values.",
     "Tests query a few short lists; the last position, the first of several equal items and long prefixes are not covered.",
     LF, [("search", L + "linked_list.py LinkedList.index/__contains__/count"), ("access", L + "linked_list.py LinkedList.__getitem__/_access_node")])
prop("P07", "List comparisons compare item by item",
     "Two lists of the same kind are equal exactly when they have the same length and equal items in every place, and != is the opposite. One list is <= another exactly when it is not longer and none of its items is greater than the opposing item of the other; it is < exactly when it is <= and not equal; >= and > are the mirror images. (This is the documented item-by-item order, not the lexicographic one of built-in lists: neither of [5, 2] and [1, 3] is below the other.) No comparison changes either list.",
     ["inputs"], "All pairs of lists of any lengths over totally ordered items, including prefixes of each other and a list compared with itself.",
     "Tests compare a few fixed pairs; prefix relations, differences in opposite directions, and lists that differ in length and in their items at arbitrary positions are not covered.",
     LF, [("comparison walk", L + "linked_list.py LinkedList.__eq__/_compare"), ("circular comparison", L + "circular_linked_list.py CircularLinkedList.__eq__")])
prop("P08", "Stack is last-in first-out",
     "A pop or a look at the top of a stack always yields the most recently pushed item that is still there; pops remove exactly that item, looks remove nothing, clearing empties it, and size and emptiness answers match the items present.",
     ["histories", "inputs"], "All stacks of all sizes reachable by any sequence of operations and all pushed items.",
     "Tests push and pop a few items; order must hold for every interleaving of pushes, pops and clears.",
     [L + "stack.py"], [("push/pop", L + "stack.py Stack.push/pop"), ("top", L + "stack.py Stack.top")])
prop("P09", "Queue is first-in first-out",
     "A dequeue always yields the item that has been in the queue longest and removes exactly that item; the documented look operations show the right end without removing anything, and size and emptiness answers match the items present.",
     ["histories", "inputs"], "All queues of all sizes reachable by any sequence of operations and all enqueued items.",
     "Tests enqueue and dequeue a few items; order must hold for every interleaving of operations.",
     [L + "queue.py", L + "doubly_linked_list.py"], [("enqueue/dequeue", L + "queue.py Queue.enqueue/dequeue"), ("end removal", L + "doubly_linked_list.py DoublyLinkedList.remove_end")])
prop("P10", "Deque adds and removes at the end that was asked for",
     "Adding an item at an end of a deque makes it the item at that end, removing or looking at an end yields exactly the item at that end, and the items in between keep their order under every mixture of operations at both ends.",
     ["histories", "inputs"], "All deques of all sizes reachable by any sequence of operations at both ends.",
     "Tests exercise one end at a time on a few items; errors that swap ends or break the far end need mixed histories.",
     [L + "deque.py", L + "doubly_linked_list.py"], [("left end", L + "deque.py Deque.append_left/pop_left"), ("right end", L + "deque.py Deque.append_right/pop_right")])
prop("P11", "A capacity bound is never exceeded and overflow is handled as documented",
     "A stack, queue, deque or priority queue with a maximum capacity never holds more items than that. When an item is added to a full one the documented overflow rule applies exactly (rejection, or eviction of exactly one documented item), and below the bound nothing is evicted or refused.",
     ["histories", "inputs"], "All capacities, all fill levels and all histories of insertions and removals.",
     "Tests fill one small container once; the bound must hold at every fill level and after every history.",
     [L + "stack.py", L + "queue.py", L + "deque.py", L + "priority_queue.py"],
     [("stack bound", L + "stack.py Stack.push"), ("queue bound", L + "queue.py Queue.enqueue"), ("deque bound", L + "deque.py Deque.append_left/append_right"),
      ("priority queue bound", L + "priority_queue.py PriorityQueue.enqueue")])
prop("P12", "Priority queue always serves the extremal priority",
     "A dequeue removes and yields an item of the highest priority present, or of the lowest when that is asked for, whatever was inserted and removed before. No other item is lost or duplicated, and an insertion is always served in its turn.",
     ["histories", "inputs"], "All priority queues of all sizes with any priorities, after any history of insertions, removals and evictions.",
     "Cached bounds can go stale after a removal at the other end, which only shows several operations later; tests dequeue a few fixed items.",
     [L + "priority_queue.py"], [("cached bounds", L + "priority_queue.py PriorityQueue._update_min_priority/_update_max_priority"), ("dequeue", L + "priority_queue.py PriorityQueue.dequeue")])

TF = {n: T + f for n, f in (("BST", "bst.py"), ("AVL", "avl.py"), ("RB", "red_black_tree.py"), ("Treap", "treap.py"), ("Splay", "splay_tree.py"))}
BIN, TREE = T + "binary_tree.py", T + "tree.py"
TABS = "abstract interpretation of the sources (tree and context shape domain with in-order words, orders and balance summaries)"
TN = ("Obligations without a bound in the evidence are proofs for trees of every size (fixpoint over trees and tree contexts). "
      "For the removals of AVL and red-black trees no invariant is found for all heights; those are decided exhaustively, with symbolic items and subtrees, for every tree up to "
      "the height in the evidence (no path left out, no precision lost). The transfer functions of the analyser are trusted; what it cannot settle is reported as undecided in the evidence.")
RN = ("Every obligation is decided for every shape of trees of up to 5 nodes (AVL: 6) with symbolic, arbitrarily ordered items, all paths of the current sources being followed by the abstract interpreter; "
      "larger trees are outside the claim. What the domain cannot settle is reported as undecided in the evidence.")

prop("P13", "Search trees hold exactly the values inserted and not removed",
     "For the binary search tree, AVL tree, red-black tree, treap and splay tree, inserting a value adds exactly that value (and nothing when it is already there), removing a value takes away exactly that value (and nothing when it is not there), "
     "membership answers whether the value is there, clearing and construction give exactly the values described, the in-order sequence stays strictly sorted and the reported length is the number of values.",
     ["inputs", "histories"], "All well-formed trees and all numbers, so every history of insertions, removals and membership tests.",
     "Tests build a few small trees; a lost or duplicated subtree needs a particular shape around the removed or rotated node.",
     list(TF.values()), [("insertion and removal", T + "bst.py BST._insert/_remove/_transplant"), ("rotations", T + "bst.py BST._rotate_left/_rotate_right"),
                         ("removal repair", T + "red_black_tree.py RedBlackTree.remove"), ("removal repair", T + "avl.py AVL.remove"), ("removal by rotation", T + "treap.py Treap.remove")],
     TABS, TN, level="other")
prop("P14", "Parent links of search tree nodes agree with the child links",
     "After every insertion, removal or splaying access in a search tree, every node's parent link names the node it hangs below and the root has no parent, so that walks towards the root visit exactly the ancestors.",
     ["inputs", "histories"], "All well-formed trees of each search tree class and all inserted, removed or accessed numbers.",
     "A stale parent link is invisible to every traversal and only shows when a later rebalancing or splaying walks upwards.",
     list(TF.values()), [("child and parent pairing", T + "bst.py BSTNode.set_left/set_right"), ("replacement", T + "bst.py BST._transplant"), ("rotations", T + "bst.py BST._rotate_left/_rotate_right")],
     TABS, TN, level="other")
prop("P15", "AVL trees stay height balanced with exact stored heights",
     "After every insertion and removal in an AVL tree, the heights of the two subtrees of every node differ by at most one and every stored height is the height of its subtree.",
     ["inputs", "histories"], "All well-formed AVL trees and all inserted or removed numbers.",
     "Tests check a few rebalancings; wrong rotations after removals need particular shapes several levels up.",
     [TF["AVL"], TF["BST"]], [("rebalancing", T + "avl.py AVL._rebalance"), ("heights", T + "avl.py AVLNode")], TABS, TN, level="other")
prop("P16", "Red-black trees keep their colour rules",
     "After every insertion and removal in a red-black tree, the root is black, no red node has a red child, and all paths from a node down to its missing children pass the same number of black nodes.",
     ["inputs", "histories"], "All well-formed red-black trees and all inserted or removed numbers.",
     "Each repair case of insertion and removal needs its own configuration of colours around the changed node; tests reach a few of them.",
     [TF["RB"], TF["BST"]], [("insertion repair", T + "red_black_tree.py RedBlackTree.insert"), ("removal repair", T + "red_black_tree.py RedBlackTree.remove")], TABS, TN, level="other")
prop("P17", "Treaps keep priorities in heap order",
     "After every insertion (with a drawn or a given priority) and removal in a treap, no node has a smaller priority than one of its children, and the in-order sequence is still sorted.",
     ["inputs", "histories"], "All well-formed treaps, all numbers and all priorities.",
     "Priorities are random: tests cannot choose the rotations they exercise.",
     [TF["Treap"], TF["BST"]], [("rotation by priority", T + "treap.py Treap.insert/remove")], TABS,
     "Every obligation is a proof for treaps of every size and any priorities; the transfer functions of the analyser are trusted and undecided obligations are reported in the evidence.")
prop("P18", "Splay trees move the accessed value to the root",
     "After a value is inserted into a splay tree, or found by a membership test, it is the root of the tree.",
     ["inputs", "histories"], "All splay trees, all inserted values and all values looked up.",
     "Each combination of zig and zag steps needs its own path from the root; tests reach a few.",
     [TF["Splay"]], [("splaying", T + "splay_tree.py SplayTree._splay")], TABS, RN, level="other")
prop("P19", "Tree queries and traversals report what the tree holds and change nothing",
     "Length, emptiness, height, number of leaves, smallest and largest value, the balance, perfectness and strictness tests, the levels, the black height, conversion to a list, iteration and every traversal order of the general, binary and search trees "
     "answer exactly what the shape and items of the tree imply, and leave it as it was. Parsing and inverting a binary tree give exactly the described tree.",
     ["inputs"], "All shapes of trees and all items.",
     "Tests query a handful of shapes; one-child nodes, missing siblings and lopsided subtrees in particular places are not covered.",
     [TREE, BIN] + list(TF.values()), [("measures", T + "tree.py Tree.get_height/count_leaf_nodes"), ("traversals", T + "binary_tree.py BinaryTree.traverse"), ("extrema", T + "bst.py BST.get_min/get_max")],
     TABS, RN, level="other")
prop("P20", "Calls on search trees with forbidden values are rejected and change nothing",
     "Inserting, removing or looking up something that is not a number (nothing, a text, a truth value, another structure) in a search tree, giving a treap a priority that is not a number, or building a tree from something that is not a sequence, "
     "is refused in the documented way (an error, a warning or the answer that it is not there) and leaves the tree exactly as it was.",
     ["inputs", "histories"], "All search trees of all sizes and each kind of forbidden argument.",
     "Tests assert a few errors on one small tree and rarely look at the tree afterwards.",
     list(TF.values()), [("validation", T + "bst.py BST._validate_item"), ("removal of a missing value", T + "bst.py BST.remove")], TABS,
     "The obligations about forbidden arguments are proofs for trees of every size; that removing a missing value warns and changes nothing is decided for every shape of up to 5 nodes (AVL: 6). "
     "The transfer functions of the analyser are trusted and undecided obligations are reported in the evidence.", level="other")
HF = [T + "_heap.py", T + "min_heap.py", T + "max_heap.py"]
HTECH = "abstract interpretation of the sources (spelled-out sequences of symbolic items under the heap's partial order)"
HN = ("Every obligation is decided for every heap of up to 16 items (constructions: up to 5) whose items are symbols constrained by nothing but the heap order, so for every admissible order and every repetition of values, "
      "all paths of the current sources being followed by the abstract interpreter; larger heaps are outside the claim. What the domain cannot settle is reported as undecided in the evidence.")
prop("P21", "Heaps stay in heap order and always serve the true extremum",
     "After every insertion, removal of a value, removal of the smallest or largest and construction, no item of a min-heap is greater than the items below it (none of a max-heap smaller). Asking for the smallest or the largest value answers exactly that, and removing the smallest or largest removes exactly one such value.",
     ["inputs", "histories"], "All heaps of all sizes with any values (repetitions included) after any history, and all inserted or removed values.",
     "The order breaks only for particular arrangements of values around the removed position; tests remove a few values from one heap.",
     HF, [("sift up", T + "_heap.py Heap.insert"), ("removal", T + "_heap.py Heap.remove/__rebalance"), ("extrema", T + "min_heap.py MinHeap.get_min/get_max")], HTECH, HN, level="other")
prop("P22", "Heaps hold exactly the values inserted and not removed",
     "A heap holds, with repetitions, exactly the values that were inserted and not removed: membership, the length, emptiness, conversion to a list and iteration report exactly those and change nothing, lists handed out or taken in are never shared with the heap, "
     "and a call with a forbidden or missing value is refused in the documented way and changes nothing.",
     ["inputs", "histories"], "All heaps of all sizes with any values after any history, all arguments.",
     "A lost or duplicated value shows only for particular sizes and positions; sharing only shows in a later edit of the list.",
     HF, [("contents", T + "_heap.py Heap.insert/remove"), ("views", T + "_heap.py Heap.to_list/__iter__/_transform")], HTECH, HN, level="other")

TRF = [T + "trie.py", T + "radix_trie.py"]
TRTECH = "abstract interpretation of the sources (spelled-out node graphs over symbolic characters, every shape and marking up to a size)"
TRN = ("Every obligation is decided for every shape of up to 6 nodes (trie) or 5 nodes (radix trie, node texts of up to 3 characters) below the root, every marking of words and argument words of up to 5 characters; the characters are symbols known only up to equality, "
       "plus the special characters the sources mention. All paths of the current sources are followed by the abstract interpreter; larger tries are outside the claim. What the domain cannot settle is reported as undecided in the evidence.")
prop("P23", "Tries hold exactly the words inserted and not removed",
     "A trie or radix trie holds exactly the words that were inserted and not removed: membership is true for those and for nothing else, whatever words share prefixes with them; inserting and removing a word leaves every other word alone, removing the last word of a branch leaves no dead branch behind, "
     "removing a word that is not there warns, and a call with something that is not a usable word is refused in the documented way and changes nothing.",
     ["inputs", "histories"], "All tries of all shapes and all words, so every history of insertions and removals.",
     "A node is split or pruned wrongly only for particular overlaps of words; tests use one small family of words.",
     TRF, [("insertion", T + "trie.py Trie.insert"), ("node splitting", T + "radix_trie.py RadixTrie._insert"), ("pruning", T + "trie.py Trie.remove"), ("lookup", T + "trie.py Trie._follow_path")], TRTECH, TRN, level="other")
prop("P24", "Trie prefix queries and measures answer what the words imply",
     "Asking a trie or radix trie for a prefix answers whether some held word starts with it; completing a prefix yields exactly the held words that start with it, each once; the length, height, number of leaves, levels, conversion to a list and iteration answer what the nodes of the trie are; none of these changes the trie.",
     ["inputs"], "All tries of all shapes and all prefixes, including those that end inside the text of a radix trie node.",
     "Prefixes that end inside a node, equal a word or run past a leaf are separate cases; tests try a few.",
     TRF + [TREE], [("prefix walk", T + "trie.py Trie._follow_path/has_prefix"), ("completion", T + "trie.py Trie.auto_complete"), ("completion inside a node", T + "radix_trie.py RadixTrie.auto_complete")], TRTECH, TRN, level="other")
prop("P25", "Suffix trie answers agree with the underlying string",
     "For the string a suffix trie was built from, substring tests and occurrence counts, the suffix array, the longest repeated substrings, the lowest common ancestor of two suffixes, the number of leaves and nodes and the height are exactly those of the string and its suffixes; no query changes the trie, "
     "and positions or arguments outside the documented domain are refused. (The terminator character $ is left out of words and patterns.)",
     ["inputs"], "All strings, blanks, punctuation and the separator of the stored text included, and all patterns and positions; the terminator $ aside.",
     "Repetitions and overlaps of the string decide which nodes exist; tests look at a few strings.",
     [T + "suffix_trie.py"] + TRF, [("construction", T + "suffix_trie.py SuffixTrie.__init__"), ("repeats", T + "suffix_trie.py SuffixTrie.get_longest_common_substring"), ("ancestors", T + "suffix_trie.py SuffixTrie.get_lowest_common_ancestor"),
      ("occurrences", T + "suffix_trie.py SuffixTrie.count_pattern_occurrences")], "abstract interpretation of the sources (spelled-out node graphs over symbolic characters, every equality pattern of the string)",
     "Every obligation is decided for every string of up to 6 or 7 characters (suffix array: 5, in every order of the characters), told apart only by which characters are equal, and symbolic patterns, and for words spelled out of characters around the terminator and the separator; all paths of the current sources are followed by the abstract interpreter; longer strings are outside the claim.", level="other")

SKF = [L + "skip_list.py", L + "linked_list.py"]
SKTECH = "abstract interpretation of the sources (spelled-out levels of linked nodes over symbolic ordered numbers, every promotion pattern, random draws nondeterministic)"
SKN = ("Every obligation is decided for every skip list of up to 5 numbers on up to 3 levels with every promotion pattern; the numbers are symbols known only by their order and the coin flips (up to 4 per insertion) go either way; "
       "all paths of the current sources are followed by the abstract interpreter; larger skip lists are outside the claim. What the domain cannot settle is reported as undecided in the evidence.")
prop("P26", "Skip lists hold exactly the inserted numbers, sorted, on linked levels",
     "Whatever the coin flips, a skip list holds exactly the numbers that were inserted and not removed, each once and in increasing order; membership is true for exactly those. Every level starts with the header, is sorted, holds only numbers of the level below and every node is linked down to the node of the same number; "
     "no level other than the lowest is left without numbers. Removing by value or position takes away exactly that number, and rejected calls change nothing.",
     ["inputs", "histories", "schedules"], "All skip lists of all sizes, all promotion patterns and coin flips, all inserted, removed or looked up numbers.",
     "Levels are random: a stale link or an empty level needs its own pattern of promotions, which tests cannot choose.",
     SKF, [("search", L + "skip_list.py SkipList._search"), ("promotion", L + "skip_list.py SkipList.insert/_promote"), ("removal on all levels", L + "skip_list.py SkipList.remove")], SKTECH, SKN, level="other")
prop("P27", "Skip list queries report what the list holds and change nothing",
     "The length, emptiness, height, access by position, iteration and conversion of a skip list answer exactly what its numbers and levels imply, positions outside the list are refused, and nothing is changed.",
     ["inputs"], "All skip lists of all sizes and promotion patterns, all positions.",
     "Off-by-one mistakes around the hidden header only show at the ends.",
     SKF, [("access", L + "skip_list.py SkipList.__getitem__/_validate_index"), ("iteration", L + "skip_list.py SkipList.__iter__")], SKTECH, SKN, level="other")

prop("P28", "Printed forms show every item, once, in its place",
     "The text printed for a structure is the documented drawing of what it holds, whatever the widths of the items: the rows of boxes of linked lists, stacks and queues, each box as wide as its item; the levels of a skip list with every tower in its own column; "
     "the branches of trees, tries and suffix tries with rules down to the last child; the rows of binary trees, search trees and heaps, one per level, columns in in-order sequence, arms on the side of the child. Printing never fails, empty structures included, and printing again shows the same.",
     ["inputs"], "All contents of all shapes and item widths.",
     "The drawing is computed from widths and positions: a wrong offset only shows for particular shapes with items of unequal width; tests compare a few drawings of short items.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py", L + "skip_list.py", L + "stack.py", L + "queue.py", L + "deque.py", T + "tree.py", T + "binary_tree.py", T + "trie.py", T + "red_black_tree.py", T + "_heap.py"],
     [("boxes of a list", L + "linked_list.py LinkedList._print_node/_print_linked_list"), ("circular arrow", L + "circular_linked_list.py CircularLinkedList.__repr__"), ("levels", L + "skip_list.py SkipList.__repr__"),
      ("branches", T + "tree.py Tree.__repr__"), ("rows", T + "binary_tree.py BinaryTree._print_subtree")],
     "abstract interpretation of the sources (texts spelled out over symbolic characters; drawings compared with, or read back into, the structure)",
     "Decided for rows of up to 4 items of 1 to 5 unknown characters, every ordered tree and every binary tree of up to 6 nodes, every search tree and treap history of up to 4 numbers of different widths, heaps of up to 7, skip lists of up to 3 numbers on up to 3 levels, tries of up to 3 words out of 8 and suffix tries of 11 words; "
     "all paths of the current sources are followed by the abstract interpreter; larger contents are outside the claim. What the domain cannot settle is reported as undecided in the evidence.", level="other")

prop("P29", "Nodes answer what they were told, agree on two-way links, and refuse the rest unchanged",
     "A node of any structure answers the payload and links it was given last: next and previous neighbours, node below, left and right child, parent, children in order, height, colour, priority. A link that runs both ways is set on both nodes; the relatives of a search tree node (sibling, uncle, grandparent, side) and the measures of an AVL node follow from its links; "
     "swapping exchanges what two nodes hold and nothing else. A constructor or setter that is given something of another kind raises the documented error and leaves every node as it was.",
     ["inputs", "histories"], "All node kinds, all payloads and all arguments of the right and of other kinds, in all sequences of calls.",
     "Every structure is built out of these calls; a link missing in one direction, a partly replaced list of children or a check that lets another node kind through shows only later, elsewhere.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "skip_list.py", L + "priority_queue.py", T + "tree.py", T + "binary_tree.py", T + "bst.py", T + "avl.py", T + "red_black_tree.py", T + "treap.py", T + "trie.py", T + "_heap.py"],
     [("two-way links", L + "doubly_linked_list.py DoublyNode.set_next/set_prev"), ("children", T + "tree.py TreeNode.set_children"), ("parents", T + "bst.py BSTNode.set_left/set_right"), ("relatives", T + "bst.py BSTNode.get_sibling/get_uncle"),
      ("heights", T + "avl.py AVLNode.set_left/set_height"), ("swapping", T + "red_black_tree.py RedBlackNode.swap")],
     "abstract interpretation of the sources (scenarios over new nodes of every kind; arguments of every node class and of other kinds)",
     "Decided for the scenarios listed in sa/c_nodes.py: every constructor and setter with arguments of every node class and of the other kinds a caller may pass, alone, repeated, and refused after an accepted call, followed by every getter; payloads are a few numbers and texts; longer sequences of calls are covered only through the structures' own properties.", level="other")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
        for p, _ in NA:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="python3 -B check.py --help > /dev/null",
             checks=[dict(property=p["id"], quick_cmd=f"python3 -B check.py {p['id']} --tier quick",
                          thorough_cmd=f"python3 -B check.py {p['id']} --tier thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=p["_tech"] or ABS, level=p["_level"],
                          level_note=p["_note"] or ABSN) for p in P],
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
             notes="No hooks: the sources are analysed as they are. known_findings.txt lists repaired defects.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
