#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
TESTS = "The unit and doc tests run each operation once or twice on one literal tree and compare one printed text; "

p("P01", "Editing a child list does exactly the documented list operation",
  "After any history, push_front/push_back/prepend/append put the given tree, or all trees of the given forest in their order, at that end of the child list of the tree, forest or node addressed, and pop_front/pop_back remove and return exactly the first/last child subtree, or None when there is no child. Every other node of every tree and forest keeps its data, children and order.",
  ["histories", "inputs"], "every finite sequence of child-list edits on any trees, forests and inner nodes, from any starting shapes, including empty forests and single nodes",
  TESTS + "they never chain edits so that a list passes through empty, one and many children and is then read from both ends.",
  ["src/node.rs", "src/tree.rs", "src/forest.rs"],
  [("push/pop/prepend/append splice head, tail and sibling links", "src/node.rs"), ("Tree and Forest delegate to their root node", "src/tree.rs, src/forest.rs")],
  [("child list", "ordered children of a node or forest", "src/node.rs Node")], ["iter()", "pop results"])
p("P02", "Inserting and detaching siblings edits exactly one place; roots refuse",
  "insert_prev_sib/insert_next_sib place the given tree immediately before/after the node in its parent's (or forest's) child list, and detach takes the node with its whole subtree out as an independent tree; nothing else changes and both parts remain fully usable afterwards. On the root of a tree these operations panic and leave that tree unchanged.",
  ["histories", "inputs"], "every node position (first, middle, last, only child, member of a forest), every history before and after the edit, every node without a sibling list",
  TESTS + "a stale sibling link of a detached subtree only shows when the subtree or its old neighbours are edited again.",
  ["src/node.rs", "src/rc.rs"],
  [("insert_prev_sib, insert_next_sib, detach", "src/node.rs")], None, ["iter() of the parent", "the detached Tree"])
p("P03", "Child and node counts are exact after every operation",
  "For every node, tree and forest, at every point of every history, degree() is the number of its children, node_count() the number of nodes in it (a forest counts only the nodes of its trees), has_no_child() is true exactly when there are none, and the exact sizes promised by its iterators equal the number of items they will yield. This holds for every ancestor of the place that was edited and for every tree obtained by popping, detaching, abandoning, cloning, rebuilding or tuple construction.",
  ["histories", "inputs"], "every history of edits, moves, clones, rebuilds and shared-handle edits on trees of any shape; all ancestors of the edited place",
  TESTS + "only a handful of calls look at degree or node_count, and never at an ancestor after a deep edit.",
  ["src/node.rs", "src/forest.rs", "src/tree.rs", "src/size.rs", "src/rc.rs", "src/iter.rs", "src/node_vec.rs"],
  [("inc_sizes/dec_sizes walk up all ancestors", "src/node.rs"), ("sizes copied from the visits when rebuilding", "src/bfs_impls.rs"), ("SIZE of a tuple", "src/tuple.rs")],
  [("size", "cached number of children and descendants", "src/size.rs")], ["degree()", "node_count()", "has_no_child()", "iter().len()"])
p("P04", "Forward, backward and upward navigation describe one and the same tree",
  "At every point of every history the first and last item of a node's child iterator are its front and back, each child's parent() is the node that iterates it, and parent() is None for the root of a tree and for each top tree of a forest. Popping repeatedly from the front and from the back yield the children in forward and in reverse order; a child iterator that has ended stays ended.",
  ["histories", "inputs"], "every history of edits, moves, clones, rebuilds and shared-handle edits; every node of every resulting tree or forest",
  TESTS + "printing follows only the forward links, so wrong back, previous or parent links are invisible to it.",
  ["src/node.rs", "src/tree.rs", "src/forest.rs", "src/iter.rs", "src/rc.rs", "src/node_vec.rs"],
  [("connect_next keeps both directions", "src/node.rs"), ("set_up/from_node reset the parent link", "src/forest.rs, src/tree.rs"), ("parent() skips forest roots", "src/node.rs")],
  [("links", "prev, next, head, tail, up", "src/node.rs Node")], ["front()", "back()", "parent()", "iter()", "pop_back()"])
p("P05", "Mutable iteration survives edits made through the nodes it yields",
  "An iter_mut() over a child list yields exactly the children present when it was created, in order and each once, whatever is inserted before or after the nodes already yielded, detached from among them, or changed inside them while the iteration runs. The inserts and detaches take effect as if done without the iteration.",
  ["histories", "schedules"], "every interleaving of advancing the iterator with insert_prev_sib, insert_next_sib, detach, child edits and data writes on any node yielded so far",
  "The tests insert or detach once per step and only on the node yielded last; they do not keep earlier nodes nor stop half-way.",
  ["src/iter.rs", "src/node.rs", "src/tree.rs", "src/forest.rs"],
  [("the iterator fetches the following sibling before yielding, and is limited by the initial degree", "src/iter.rs")], None, ["iter_mut()", "Tree/Forest after the loop"])
p("P06", "Every data item is owned exactly once and released exactly once",
  "At every point of every history each data item put into a tree or forest is either held by exactly one live node, handed back to the caller, or has been dropped exactly once; dropping a tree, forest, iterator or last handle drops exactly the items it still owns. After everything has been dropped no memory of the library remains allocated, and no released memory is ever read or freed again.",
  ["histories", "inputs"], "every history of constructing, editing, cloning, rebuilding, consuming partly or wholly, shared handles, weak handles and dropping, in both storage layouts",
  "The tests use integers, which have no drop effect, and never measure allocation; leaks and double drops are invisible to them.",
  ["src/tree.rs", "src/forest.rs", "src/heap.rs", "src/node_vec.rs", "src/into_iter.rs", "src/rc.rs", "src/node.rs", "src/iter_rc.rs"],
  [("Drop of Tree, Forest, IntoIter, RcNode, WeakNode", "src/tree.rs, src/forest.rs, src/into_iter.rs, src/rc.rs"), ("drop_node and the reference count of contiguous storage", "src/heap.rs, src/node_vec.rs")],
  [("owner", "who frees a node's storage", "src/node.rs Data")], ["Drop of the data type", "global allocator"])
p("P07", "Abandoning a root and consuming iteration hand over each subtree once",
  "abandon() returns the forest of all children in order and leaves the tree as its root alone, both independent of each other and fully usable, for any history. Iterating a forest by value yields its trees in order, each once, a tree by value yields itself, the promised length is exact throughout, and dropping the iterator early releases only what was not yielded.",
  ["histories", "inputs"], "every tree and forest shape and storage, every point at which the iteration stops, every later edit of the two parts",
  TESTS + "abandon is tried on one scattered tree and the parts are not edited further.",
  ["src/tree.rs", "src/into_iter.rs", "src/forest.rs"],
  [("abandon moves the data into a new node and turns the old root into a forest root", "src/tree.rs"), ("IntoIter pops from the front of an owned forest", "src/into_iter.rs")], None, ["abandon()", "into_iter()"])
p("P08", "Breadth first traversal visits every node once, level by level",
  "The breadth first iterators (shared, mutable and consuming; of a tree, a forest, a node, or a node's children) yield every node of their subject exactly once, by levels from the top and from left to right within a level, each with its own degree and number of descendants, and carry the exact size of the whole traversal. map() transforms the data and leaves order and sizes alone.",
  ["inputs", "histories"], "every tree and forest shape, however it was built or edited, every node as starting point, and traversals stopped early",
  "The tests use one full two-level tree, where many wrong orders look the same.",
  ["src/bfs.rs", "src/bfs_impls.rs"],
  [("queue of child iterators", "src/bfs.rs Splitted"), ("split yields data, child iterator and descendants", "src/bfs_impls.rs Split impls")], None, ["bfs()", "bfs_mut()", "bfs_children()", "into_bfs()"])
p("P09", "Copies and rebuilt trees are equal to and independent of the original",
  "clone(), deep_clone() and deep_clone_forest() of any tree, forest or inner node give a structure with the same shape and data, and collecting a breadth first traversal back into a tree or forest reproduces exactly the traversed structure. Later edits, writes and drops on either one never show in the other, and the original is left untouched by the copying.",
  ["inputs", "histories"], "every shape, every inner node as the thing copied, every later history on original and copy",
  "The tests copy one literal tree, compare once and drop both.",
  ["src/bfs_impls.rs", "src/tree.rs", "src/forest.rs", "src/node_vec.rs"],
  [("rebuild parent/child relation from degrees in breadth first order", "src/bfs_impls.rs From<BfsTree>, From<BfsForest>"), ("append_child in contiguous storage", "src/node_vec.rs")], None, ["clone()", "deep_clone()", "Tree::from(bfs)", "Forest::from(bfs)"])
p("P10", "A write reaches exactly the node it addresses",
  "Every mutable access - root_mut, front_mut, back_mut, iter_mut items, data_mut, mutable breadth first visits - denotes the node at the corresponding position of the structure, each such visit reaches each node once, and a write through it changes that node's data and nothing else.",
  ["histories", "inputs"], "every position in every tree or forest after every history of edits, for every accessor that leads there",
  TESTS + "most accessors are only tried on two-node lists.",
  ["src/node.rs", "src/tree.rs", "src/forest.rs", "src/iter.rs", "src/bfs_impls.rs", "src/into_iter.rs"],
  [("front_mut/back_mut/iter_mut/data_mut", "src/node.rs"), ("Split of a pinned mutable node", "src/bfs_impls.rs")], None, ["data_mut()", "bfs_mut()"])
p("P11", "Tuple construction builds the tree the tuple spells",
  "Tree::from_tuple and Forest::from_tuple build, for every supported nesting of tuples of every supported arity, the structure in which each tuple's first item is a node and its remaining items, in order, are that node's children (a bare item, or one-element tuple, is a leaf), holding the given data items. The structure is an ordinary one: counts, navigation, edits and shared handles work on it as on any other.",
  ["inputs"], "every nesting shape and every arity up to the maximum, uniform or ragged, leaves written bare or as one-element tuples",
  "The tests use a few regular shapes; with an irregular one, such as (0,(1,(2,3)),4), the construction took another path and produced a corrupt tree.",
  ["src/node_vec.rs", "src/tuple.rs", "src/tree.rs", "src/forest.rs"],
  [("per-level offsets computed from the tuple type, advanced during a preorder visit", "src/node_vec.rs construct_tree, construct_forest"), ("descendants/height/SIZE", "src/tuple.rs")], None, ["from_tuple()"])
p("P12", "Tuple traversals report each item once, in the documented order and size",
  "preorder and postorder of a tuple tree or tuple forest call back once per item - a leaf item as a leaf, an item with children as a branch - and once per group of children as a frame, parents before their children in preorder and after them in postorder. The variants with size hints make exactly the same calls in the same order, each with the degree and descendant count of the item the group belongs to, and SIZE, height and the per-level descendant counts agree with the shape.",
  ["inputs"], "every nesting shape and arity up to the maximum",
  "The existing tests check three small shapes; postorder with size hints is not tested at all and was wrong.",
  ["src/tuple.rs"],
  [("impl_tuple_tree / impl_tuple_forest macros", "src/tuple.rs")], None, ["preorder()", "postorder()", "preorder_with_size_hint()", "postorder_with_size_hint()"])
p("P13", "The tree notation operators mean what they spell",
  "Unary - makes a forest of one tree, - joins trees and forests in left-to-right order, and / puts its right operand (a tree, the trees of a forest in order, or nothing for ()) as last children under the left operand's root. Each owned/borrowed combination of operands gives the same result; borrowed operands are left unchanged and share nothing with the result.",
  ["inputs", "histories"], "every operator and every owned/borrowed combination, on operands of every shape and history including empty forests, with later edits of operands and result",
  "The documented examples use owned single-node operands; the borrowed combinations are separate code and untested.",
  ["src/notation.rs"],
  [("impl_notations macro, one impl per combination", "src/notation.rs")], None, ["operator results"])
p("P14", "Equality, ordering and hashing follow the data and the shape alone",
  "Two trees, nodes, forests or shared nodes are equal exactly when they have equal data at equal positions; comparison goes by a node's data first and then lexicographically over its children, and partial, total and equality comparison agree, including on data that is only partially comparable. Equal structures hash equally, however they were built or stored.",
  ["inputs"], "every pair of structures, including ones that differ only in shape, only in one datum, only in length, or contain incomparable or self-unequal data",
  "The tests compare only equal structures and a few unequal ones; ordering is almost untested.",
  ["src/macros.rs", "src/rc.rs", "src/node.rs", "src/tree.rs", "src/forest.rs"],
  [("impl_order_relations_for_node / _for_collection", "src/macros.rs"), ("impl_hash_for_node / _for_forest", "src/macros.rs")], None, ["==", "partial_cmp", "cmp", "hash"])
p("P15", "The printed text spells the structure unambiguously",
  "Display prints a node's data, followed - only if it has children - by an opening parenthesis, its children in order and a closing parenthesis, and a forest as the parenthesised list of its trees, with () for the empty forest; trees, nodes and shared nodes print alike. Debug shows the same data in the same order and nesting (with addresses). Structures of different shape or data texts therefore print differently.",
  ["inputs"], "every shape, after every way of building or editing it, for trees, forests, nodes and shared nodes",
  "The tests print about twenty fixed trees, none with, for example, a childless node between nested ones.",
  ["src/macros.rs", "src/node.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs"],
  [("impl_debug_display_for_node / _for_forest", "src/macros.rs")], None, ["to_string()"])
p("P16", "The depth first cursor steps through every node in bracket order",
  "Stepping a cursor forward visits a node with children as Begin, then its children in order, then as End, and a node without children once as Leaf, until the whole tree or forest has been visited; then it stays at the end. get() reports the current visit without moving, next() equals a step followed by get(), and get_parent() is the parent of the current node.",
  ["inputs", "histories"], "every tree and forest shape (including the empty forest), every number of steps, also past the end",
  "The tests walk two regular trees of one shape.",
  ["src/walk.rs"], [("stack of positions and a pending direction", "src/walk.rs Walk")],
  [("cursor", "current node, visit kind and pending direction", "src/walk.rs")], ["get()", "next()", "forward()", "get_parent()"])
p("P17", "Cursor jumps land where they say, and never lose the cursor",
  "to_child(n) goes to the n-th child, to_sib(n) n siblings ahead, to_parent() to the parent's End, each reporting the visit it arrives at, and revisit() turns the current node (or, at the end, the whole structure) back to its start; stepping on from there continues as if the place had been reached by stepping. A jump to a child or sibling that does not exist returns None and leaves a cursor that can be read, moved and revisited.",
  ["histories", "inputs"], "every history mixing steps, jumps (in and out of range) and revisits, on every tree and forest shape",
  "The tests make single in-range jumps; an out-of-range jump left a cursor whose next use panicked.",
  ["src/walk.rs"], [("to_child, to_sib, to_parent, revisit", "src/walk.rs")], None, ["to_child()", "to_sib()", "to_parent()", "revisit()"])
p("P18", "A shared node lives exactly as long as something still owns it",
  "A node lives as long as there is a handle to it or it has a living parent; when the last of these goes, its data is dropped at once, and those of its children that are still owned by handles survive as roots of their own, with their subtrees intact. Cloning and dropping handles, in any number and order, changes nothing else.",
  ["histories"], "every order of creating, cloning and dropping handles to the nodes of a shared tree, interleaved with edits and weak handles, in both storage layouts",
  "The tests keep every handle to the end of the scope; cloning and dropping a handle to a contiguously stored tree freed memory still in use.",
  ["src/rc.rs", "src/node_vec.rs", "src/heap.rs", "src/iter_rc.rs"],
  [("Clone and Drop of RcNode", "src/rc.rs"), ("per-node and per-storage counts", "src/rc.rs Shared, src/node_vec.rs ref_cnt")],
  [("count", "number of owners of a node", "src/rc.rs")], ["data()", "parent()", "Drop of the data type"])
p("P19", "Edits through shared handles have the plain edits' effect, for all handles",
  "Push, pop, prepend, append, sibling insert, detach, extend and data writes through a shared handle change the structure exactly as the same edit on an exclusively owned tree would, and every other handle to nodes of that structure sees the result. Handles obtained by pop, front, back, parent or iteration denote the node at that position, the very same node and not a copy.",
  ["histories"], "every history of edits and reads through any set of handles into the same or different shared trees",
  "The tests edit through the root handle only and print it; they do not look through other handles.",
  ["src/rc.rs", "src/node.rs"],
  [("RcNode delegates to Node under a dynamic borrow", "src/rc.rs"), ("rc() recovers a handle from a node", "src/rc.rs")], None, ["front()", "back()", "parent()", "pop_*()"])
p("P20", "A weak handle upgrades exactly while its node is alive",
  "A weak handle never keeps its node alive; upgrade() returns a handle to that very node as long as the node lives and None ever after, whatever becomes of the tree around it. Creating, upgrading and dropping weak handles in any order, before or after the node is gone, has no other effect.",
  ["histories"], "every order of downgrading, upgrading, dropping weak and strong handles and edits, in both storage layouts",
  "There is no test of weak handles beyond one that compiles; dropping one to a contiguously stored node freed the whole tree.",
  ["src/rc.rs", "src/node_vec.rs"],
  [("downgrade, upgrade, Drop of WeakNode", "src/rc.rs")], None, ["upgrade()"])
p("P21", "Conflicting dynamic borrows panic and change nothing",
  "While a node's data is borrowed through a shared handle, any number of further reads succeed, and any operation that must modify that same node panics and leaves all structures as they were; while it is mutably borrowed, reads of it through handles panic as well. Operations on other nodes are not disturbed, and after the borrow ends everything works again.",
  ["histories"], "every combination of live shared/mutable borrows with every handle operation on the same node or its relatives",
  "No test holds a borrow across another operation.",
  ["src/rc.rs"],
  [("node_borrow / node_borrow_mut", "src/rc.rs"), ("Ref/RefMut mapping in data, data_mut", "src/rc.rs")], None, ["panic or not", "state afterwards"])
p("P22", "Iterating shared children is safe and exact under concurrent edits",
  "Iterating a shared node yields handles to its children in order, and inserting siblings next to, or detaching, the nodes already yielded never disturbs the rest of the iteration nor makes it visit an inserted node. Whatever else happens to the structure between two steps - even dropping all of it - the iterator yields only living nodes and never more than it had at the start.",
  ["histories", "schedules"], "every interleaving of advancing the iterator with edits, pops, detaches, and handle drops",
  "The tests edit only around the node yielded last; popping the next sibling or dropping the tree between two steps read freed memory.",
  ["src/iter_rc.rs", "src/rc.rs", "src/iter.rs"],
  [("IterRc prefetches the next sibling, limited by the initial degree", "src/iter_rc.rs")], None, ["iter_rc().next()"])
p("P23", "Conversions between owned, shared and walked trees lose nothing",
  "Turning a tree into a shared node and back, or a tree or forest into a cursor and back at any cursor position, returns the same structure with the same data, still fully editable. Converting a shared node that is not a root into a tree panics.",
  ["histories", "inputs"], "every structure and storage, every history of edits or cursor moves before converting back, and repeated conversions",
  "The tests convert one fresh tree once and compare the text.",
  ["src/rc.rs", "src/walk.rs"],
  [("From<Tree> for RcNode, into_tree", "src/rc.rs"), ("From between Tree/Forest and their walks", "src/walk.rs")], None, ["RcNode::from", "into_tree()", "TreeWalk::from"])
p("P24", "How nodes are stored never shows",
  "A tree behaves the same under every operation whether its nodes were allocated one by one or contiguously (by tuple, clone or rebuild), and structures may be mixed and cut freely across the two kinds. Every observation, panic, drop and release is the same for the same history, also when the data type is large or strictly aligned.",
  ["histories", "configurations"], "every history of owned and shared operations, executed with scattered, contiguous and mixed storage",
  "The tests cover the two layouts with different, unrelated examples, and contiguous trees are hardly edited at all.",
  ["src/node_vec.rs", "src/heap.rs", "src/node.rs", "src/rc.rs"],
  [("Data distinguishes the owner of a node's storage", "src/node.rs Data"), ("NodeVec freed with its last node", "src/node_vec.rs")], None, ["all observations"])
p("P25", "The no_std build behaves like the default build",
  "With the no_std feature enabled the crate compiles and every operation, history by history, has the same results, panics and drops as in the default build.",
  ["configurations", "histories"], "every history of operations, in both configurations",
  "The test suite runs only the default configuration.",
  ["src/lib.rs", "src/rc.rs"],
  [("cfg-selected re-exports", "src/lib.rs"), ("cfg-selected constants", "src/rc.rs")], None, ["all observations"])
p("P26", "Pieces of a tree used on different threads never disturb each other",
  "A cursor over a tree or forest may be sent to another thread, used, converted back, edited and dropped there while pieces that once belonged to the same tree are used and dropped on other threads, and several threads may read through one cursor at the same time. Every piece behaves as it would on a single thread, without data races, every data item is dropped exactly once and all memory is released whichever thread comes last. Only cursors over data that may itself cross (be shared between) threads can do so; shared and weak handles never can.",
  ["schedules", "histories"], "every interleaving of sending, stepping, converting, cutting, joining, reading concurrently and dropping pieces in several threads, in every storage layout",
  "The crate has no test with a second thread; a race shows only in rare schedules, and then as a leak or a double release.",
  ["src/walk.rs", "src/node_vec.rs", "src/node.rs", "src/heap.rs"],
  [("unsafe impl Send/Sync for TreeWalk and ForestWalk", "src/walk.rs"), ("ref_cnt counts the live nodes of a contiguous block", "src/node_vec.rs")],
  [("ref_cnt", "live nodes in the block, shared by all pieces cut from it", "src/node_vec.rs NodeVec")], ["results and drops in each thread", "memory released", "races seen by Miri"])
p("P27", "A panic in the user's code leaves every structure intact",
  "When code of the user that the crate calls panics - Clone of a data item during a deep clone or an operator on borrowed operands, the closure mapping a breadth first traversal that a tree or forest is built from, Display, Hash or comparison of an item, an iterator of trees passed to extend, or the destructor of an item whose tree, forest or last handle is dropped - the panic reaches the caller, every tree, forest, node and handle that was only borrowed for the call, or stays alive after it, keeps its structure and data (nodes that lost their parent are roots) and stays fully usable (readable, editable, not left borrowed), and no data item is ever dropped twice or read after it was dropped, whatever is done afterwards.",
  ["fault_sequences", "histories", "inputs"], "every structure and storage, every operation that calls user code, a panic at every item it visits, and every history before and after",
  "No test panics inside the crate's callbacks; a structure taken apart for the duration of a copy, or an item owned by two nodes for a moment, only shows when the panic strikes in the middle.",
  ["src/node.rs", "src/bfs_impls.rs", "src/node_vec.rs", "src/notation.rs", "src/macros.rs", "src/rc.rs"],
  [("deep_clone, Clone for Tree and Forest", "src/node.rs, src/tree.rs, src/forest.rs"), ("From<BfsTree>, From<BfsForest>", "src/bfs_impls.rs"), ("operators on borrowed operands", "src/notation.rs")], None, ["catch_unwind around the call", "all observations afterwards"])

p("P28", "Traversals whose sizes do not add up are refused, never built",
  "Tree::from(BfsTree) and Forest::from(BfsForest), given any sequence of visits with any announced degrees and descendant counts, build exactly the tree or forest whose breadth first traversal is that sequence if there is one. Otherwise they panic: no structure with wrong links or counts is returned, no memory outside the new structure is touched, and no data item is dropped twice.",
  ["inputs"], "every sequence of visits: too few, too many, degrees or descendant counts that disagree with each other or with the announced total, numbers up to the greatest there is; trees and forests; any iterator type",
  "Tests only rebuild from traversals of existing trees, whose sizes always fit; the visits are public and may come from anywhere (a file, a filtered traversal).",
  ["src/bfs_impls.rs", "src/node_vec.rs", "src/bfs.rs"],
  [("From<BfsTree>, From<BfsForest>", "src/bfs_impls.rs"), ("make_node, append_child, sizes_add_up", "src/node_vec.rs")], None, ["the built tree or forest", "catch_unwind around from()"])

p("P29", "The user's code may use handles to the nodes it is called for",
  "Code of the user that the crate calls for a shared node - Clone of a data item during RcNode::deep_clone, Display, Hash or comparison of an item, the destructor of an item whose node goes with the last handle to it or to its ancestor - may use handles to nodes of the same or of another structure. A node being copied cannot be changed by it until the copy is complete: pushing to it, popping from it or data_mut() on it panics like any conflicting borrow. Taking a child off another node than the one whose item is being printed or hashed, or off a node that is not on the path to the item being compared, takes effect, and the call still ends. While destructors run, a node that outlives its parent, whose last handle is going, has no parent. In every case, and in either storage, no released memory is accessed, nothing is leaked or dropped twice, and the structures are left as those uses make them.",
  ["histories", "inputs"], "every shape, storage and history, every item at which the user's code strikes, every handle it may use",
  "The tests' data items are numbers, whose code does nothing; a copy, a comparison or a release that holds raw pointers across a call of the user's code works until that code moves what they point to.",
  ["src/rc.rs", "src/iter_rc.rs", "src/macros.rs", "src/bfs_impls.rs"],
  [("RcNode::deep_clone", "src/rc.rs"), ("Drop for RcNode", "src/rc.rs"), ("Debug, Display, Hash, PartialEq, Ord for RcNode", "src/macros.rs, src/rc.rs")], None, ["what the user's code gets back", "all observations afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
