#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EDIT, PLAIN, HOT, FROZEN, INT, MEM, TREE, LOCK = ("src/node/edit.rs", "src/node/plain.rs", "src/node/hot.rs",
    "src/node/frozen.rs", "src/node/internal.rs", "src/node/membership.rs", "src/tree.rs", "src/tree/lock.rs")
DF, BF, SIB, ANC, SER = ("src/traverse/depth_first.rs", "src/traverse/breadth_first.rs",
    "src/traverse/siblings.rs", "src/traverse/ancestors.rs", "src/serial.rs")

prop("C01", "Every navigation answer describes one and the same ordered tree",
 "At every moment between calls, the parent, sibling, child, first/last, has-X, count-X, is-root and root answers of every node of a tree, asked through a plain, hot or frozen handle, all agree with a single ordered rooted tree. No navigation question about a live node ever panics or fails to return.",
 ["histories", "inputs"], "every tree shape and every sequence of hierarchy edits leading to it, every node, every accessor, every handle flavour",
 "The tests look at a few accessors of a few hand-written trees after one or two edits; a stale link is only visible through one particular accessor of one particular neighbour after one particular edit.",
 [INT, EDIT, PLAIN, HOT, FROZEN], [("neighbour links and cyclic previous-sibling link", "src/node/internal.rs Neighbors"), ("child counter", "src/node/internal.rs num_children"), ("link surgery", "src/node/edit.rs OrphanRoot, try_replace_with_children, create_as_interrupting_*")],
 ["Node/HotNode/FrozenNode accessors"])
prop("C02", "Each successful hierarchy edit has exactly its documented effect",
 "A successful create, interrupt, replace-with-children, detach, move or clone-insert puts the affected nodes exactly at the documented place and leaves every other parent/child/sibling relation of every tree unchanged. This holds for every API form of the operation (plain with a grant, hot; fallible, panicking; generic and specific).",
 ["histories", "inputs"], "every sequence of edits over every small forest, every pair of operand nodes (including adjacent ones and the node itself), every API form",
 "The tests apply each edit to one or two positions of one fixed tree; the special cases are first/middle/last/only child, childless or not, root or not, same tree or not, and their combinations over several edits.",
 [EDIT, PLAIN, HOT], [("insertion of an orphan", "src/node/edit.rs OrphanRoot::insert*"), ("unlinking", "src/node/edit.rs OrphanRoot::new_by_unlink"), ("splicing", "src/node/edit.rs try_replace_with_children"), ("interrupting", "src/node/edit.rs create_as_interrupting_parent/child")],
 ["navigation from every kept node handle"])
prop("C03", "A rejected hierarchy edit reports the documented error and changes nothing",
 "An edit that cannot be performed (a sibling next to a root, a move under itself or a descendant, removal of the last node of a tree, an unreadable source) returns the documented error from its fallible form and panics in its panicking form. In both cases every tree, every node's data, every tree identity and every lock is exactly as before.",
 ["histories", "inputs"], "every failing edit in every state reachable by edits over small forests, every API form",
 "Tests check one or two failing calls and only their error value, not that the hierarchy, the membership and the locks are untouched afterwards, nor failures across trees or after other edits.",
 [EDIT, PLAIN, HOT], [("validation before unlinking", "src/node/edit.rs ensure_insertable"), ("error cases of replacement", "src/node/edit.rs try_replace_with_children"), ("panicking forms", "src/node/plain.rs, src/node/hot.rs *_subtree, create_*")],
 ["return values and panics", "state before and after"])
prop("C04", "Tree membership and tree identity follow every edit",
 "At any time exactly the nodes reachable from a tree's root report belonging to that tree, whichever handle is asked, and the tree object keeps its identity while its nodes are edited. A detached or replaced node and its descendants form a new tree; moved nodes join the destination tree; a new root keeps the identity of the old tree.",
 ["histories", "inputs"], "every sequence of edits over every small forest with tree and node handles held, every node and tree pair",
 "Tests hardly compare tree identities and never after sequences of edits or for descendants of moved nodes and for handles created before the edit.",
 [MEM, EDIT, TREE], [("per-node membership reference", "src/node/membership.rs MembershipCore"), ("membership propagation", "src/node/edit.rs set_memberships_of_descendants_and_self"), ("root pointer of the tree", "src/tree.rs TreeCore.root")],
 ["tree, root, is_root, belongs_to, belongs_to_same_tree, Tree::ptr_eq"])
prop("C05", "Any strong handle keeps its whole tree alive and reachable",
 "As long as one node handle of any flavour, one tree handle, or one live iterator position refers to a tree, every node of that tree stays alive, keeps its data and can be reached from that handle. This remains true whichever handles were created, cloned, converted or dropped before, and however nodes moved between trees meanwhile.",
 ["histories"], "every sequence of handle creation, cloning, conversion, navigation, dropping and hierarchy edits over small forests; every subset of handles kept",
 "Tests drop handles in a few fixed orders on trees that are never edited in between; the reference counts shared by nodes and trees depend on the whole history.",
 [MEM, TREE, INT], [("count of strong handles per node and strong tree reference", "src/node/membership.rs MembershipCoreStrong"), ("handle clone/drop", "src/node/internal.rs NodeLink"), ("ownership by root", "src/tree.rs TreeCore")],
 ["liveness of instrumented data", "navigation from the remaining handles"])
prop("C06", "All data of a tree is released promptly and exactly once",
 "When the last strong handle of a tree goes away, all nodes and all associated data of exactly that tree are released at that moment, each value dropped exactly once, and all weak references to it stop upgrading. No sequence of edits, moves between trees, clones or conversions leaks a node or drops a value early or twice.",
 ["histories"], "every sequence of handle operations and hierarchy edits over small forests, every order of dropping the handles",
 "Tests count drops for a handful of histories without edits; leaks come from cycles or counts left over by particular edit and move sequences.",
 [MEM, TREE, EDIT], [("weak/strong membership switch at zero handles", "src/node/membership.rs decrement_tree_refcount"), ("iterative release", "src/tree.rs Drop for TreeCore"), ("release of a tree merged into another", "src/node/edit.rs detach_and_insert")],
 ["drop counts of instrumented data", "weak upgrades"])
prop("C07", "Edit grants and edit prohibitions exclude each other, counted exactly",
 "A tree can be granted for editing exactly when no prohibition of any form (token, frozen handle, iterator over frozen handles) is active on it, and can be prohibited exactly when no grant of any form is active; any number of either kind coexist. A refused acquisition by any route reports an error and changes nothing.",
 ["histories"], "every sequence of acquisitions, clones, bundlings, extractions, conversions, navigations and releases by every route, over one and two trees, every release order",
 "Tests cover a dozen pairs of acquisitions; wrong counting needs a longer mix of routes (token, bundle, clone, navigation from a bundled handle, extract) and a particular release order.",
 [LOCK, MEM, HOT, FROZEN], [("lock counter per tree", "src/tree/lock.rs HierarchyLockManager"), ("aggregation per node", "src/tree/lock.rs LockAggregatorForNode"), ("bundled handles", "src/node/hot.rs, src/node/frozen.rs Clone/Drop")],
 ["grant_hierarchy_edit, prohibit_hierarchy_edit, bundle_new_*"])
prop("C08", "Bundled grants follow their nodes between trees and locks return to neutral",
 "While nodes move between trees, the grant bundled in a hot handle always applies to the tree its node currently belongs to, and token grants stay with the tree they were made for. When all grants and prohibitions of a tree are gone, the tree is neutral: both kinds can be acquired again.",
 ["histories"], "every sequence of edits (detach, move, replace, clone-insert, within and across trees) with every small set of tokens and hot handles held before and after, every release order",
 "No test inspects the locks of either tree after nodes with bundled grants moved; the transfer depends on which nodes hold handles and on what else is locked.",
 [MEM, LOCK, EDIT], [("lock transfer on membership change", "src/node/membership.rs set_tree_core, src/tree/lock.rs transfer_single_lock_to"), ("token validity", "src/tree/lock.rs is_valid_for_node")],
 ["acquirability per tree, is_valid_for_node"])
prop("C09", "Only holders of a valid grant can edit; a prohibited hierarchy cannot change",
 "Every hierarchy edit presented with a grant of another tree, or a stale grant, panics without changing anything, and bundling a token of another tree is refused likewise. While any prohibition is active on a tree no call whatsoever changes that tree's hierarchy.",
 ["histories", "inputs"], "every edit operation and API form with every wrong or stale token, in every lock state over two trees; every operation while a prohibition is held",
 "Tests use matching grants; the misuse paths and stale tokens (tree died, node moved away) are not exercised for all operations.",
 [PLAIN, HOT, LOCK], [("grant validation at the plain API", "src/node/plain.rs panic_if_invalid_for_node"), ("validation when bundling", "src/node/hot.rs, src/node/frozen.rs from_node_and_*")],
 ["panics", "state before and after"])
prop("C10", "Depth-first traversal visits exactly the subtree, in order, both ways",
 "A depth-first traversal yields one opening and one closing event per node of the subtree in document order and then ends for good; the reverse traversal yields the exact mirror. Peeking, size bounds, stepping an event forwards or backwards, resuming from any event and closing the current node agree with that sequence at every position.",
 ["inputs", "histories"], "every tree shape up to a bound, every start node, every resumption event, every position at which to peek, clone, step or close",
 "Tests traverse one or two fixed trees from the root to the end; boundaries (start node inside a larger tree, leaf, last sibling) are sampled, step/close/resume functions are barely called.",
 [DF, PLAIN], [("event stepping", "src/traverse/depth_first.rs DftEvent::next/prev/close_current"), ("plain traversers", "src/traverse/depth_first.rs DepthFirstTraverser, ReverseDepthFirstTraverser")],
 ["yielded events, peek, size_hint"])
prop("C11", "Stable depth-first traversals are correct double-ended iterators",
 "Whatever interleaving of front and back steps is used, a stable (also depth-limited) depth-first traversal yields every event of the subtree (down to the limit) exactly once, front ones in document order and back ones in reverse, meets in the middle and then ends for good. Peeks at both ends, reported depths, size bounds, clones and closing the current node agree with the remaining sequence at every point.",
 ["inputs", "histories"], "every tree shape up to a bound, every toplevel node, every event range, every depth limit including 0 and the maximum, every interleaving of front/back steps and close",
 "Tests run these iterators in one direction or with one hand-picked alternation on one tree; the meeting point depends on the exact interleaving and shape.",
 [DF, FROZEN], [("double-ended cursor pair", "src/traverse/depth_first.rs StableDepthFirstTraverser"), ("depth-limited cursor pair", "src/traverse/depth_first.rs StableShallowDepthFirstTraverser")],
 ["yielded events, peek, peek_back, size_hint, max_depth"])
prop("C12", "Breadth-first traversals yield every node at or below the start depth in order",
 "Both breadth-first traversals yield exactly the nodes of the subtree whose depth is at least the start depth, in increasing depth and document order within a depth, each with its depth, and then end for good. Size bounds, peeks and clones at every position agree with the remaining sequence, and buffer-shrinking never changes it.",
 ["inputs", "histories"], "every tree shape up to a bound, every toplevel node, every start depth including 0, beyond the height and the maximum, every position",
 "Tests compare one tree with two start depths; empty levels, leaf toplevels and positions in the middle of a run are not covered.",
 [BF], [("repeated depth-limited search", "src/traverse/breadth_first.rs NonAllocatingBreadthFirstTraverser"), ("queue with depth marker", "src/traverse/breadth_first.rs AllocatingBreadthFirstTraverser")],
 ["yielded pairs, peek, size_hint"])
prop("C13", "Sibling, child and ancestor iterators yield exactly their documented sets",
 "Each of the children, siblings, preceding/following siblings (with or without self, plain, reversed or stable) and ancestors iterators yields exactly its documented nodes in its documented order and then ends for good. Stable ones do so for every interleaving of front and back steps, and peeks and size bounds agree with what remains.",
 ["inputs", "histories"], "every tree shape up to a bound, every node (including roots and only children), every iterator of every handle flavour, every front/back interleaving",
 "Tests sample some of the iterators on one node of one tree; first, last, only-child and root positions and double-ended use are mostly untested.",
 [SIB, ANC, PLAIN, HOT, FROZEN], [("plain sibling cursors", "src/traverse/siblings.rs"), ("ancestor cursor", "src/traverse/ancestors.rs"), ("construction of ranges", "src/node/plain.rs, src/node/frozen.rs *_siblings*")],
 ["yielded nodes, peek, size_hint"])
prop("C14", "Serializing a subtree yields canonical events that rebuild an equal tree",
 "Serializing the subtree of any node yields the canonical event list (open per node, closings merged, ending with the close of that node), stays ended, and rebuilding from it, or from the traversal's own events, gives an independent equal tree. If some node's data is unreadable at the time, that is reported as an error for that node and the other events are unaffected.",
 ["inputs", "histories"], "every tree shape up to a bound, every start node, every result type of collecting, every set of mutably borrowed nodes",
 "Tests round-trip one fixed tree from its root; inner start nodes, borrowed data and all collect targets are not covered.",
 [SER], [("close merging", "src/serial.rs TreeSerializeIter"), ("event conversions and collecting", "src/serial.rs TryFrom/FromIterator impls")],
 ["events, collected trees"])
prop("C15", "The tree builder accepts exactly the well-formed event sequences",
 "For every sequence of open and close events pushed one by one or in bulk, into an empty builder or one seeded with an existing node, the builder builds exactly the described nodes, reports the documented error for an event that does not fit and then keeps its previous state, and never touches anything outside the seeded node. Whether the root is open or closed, and the finished result, always reflect the accepted events.",
 ["inputs", "histories"], "every event sequence up to a length with every close level including 0, too large and the maximum, every seeding position, every push function",
 "Tests build one tree and try two malformed inputs; errors in the middle, level 0 or overshooting closes and seeded builders need particular sequences.",
 [SER], [("current position and close counting", "src/serial.rs TreeBuilder::open/close"), ("bulk pushes", "src/serial.rs push_events_impl, push_dft_events_impl")],
 ["results of push calls, is_root_closed, is_root_available, finish"])
prop("C16", "Cloning a subtree makes an independent identical copy, or nothing",
 "Cloning a subtree or tree, detached or inserted at any destination (also inside the cloned subtree itself), creates new nodes with the same shape and equal data, and neither changes the source nor shares anything with it. If any data in the source is mutably borrowed, or the destination is invalid, the call fails without creating or changing anything.",
 ["inputs", "histories"], "every tree shape, every source node, every destination and position, every API form and handle flavour, every set of borrowed nodes up to a size",
 "Tests clone one tree; destination inside the source, borrowed data in the middle and depth variations are not covered.",
 [EDIT, PLAIN, HOT, FROZEN, TREE], [("copy then insert", "src/node/edit.rs try_clone_insert_subtree"), ("subtree copy", "src/node/edit.rs clone_subtree"), ("tree copy", "src/tree.rs try_clone_tree")],
 ["copied nodes, source nodes, errors"])
prop("C17", "Equality compares exactly shape and data, for every handle combination",
 "Comparing two nodes (of any flavours, also with different data types) or two trees is true exactly when their subtrees have the same shape and pairwise equal data, independent of what surrounds the subtrees. A comparison that needs unreadable data reports the borrow error in its fallible form and panics otherwise; pointer comparison is true exactly for the same node.",
 ["inputs"], "every pair of tree shapes and start nodes up to a bound, every labelling over a small alphabet, all nine flavour pairs, every borrowed position",
 "Tests compare a couple of equal trees; shapes with equal preorder but different nesting, inner nodes with siblings, and mixed flavours are not covered.",
 [INT, PLAIN, HOT, FROZEN, TREE], [("lock-step traversal", "src/node/internal.rs NodeCoreLink::try_eq"), ("mixed flavour impls", "src/node/plain.rs impl_cmp_different_node_types")],
 ["==, try_eq, ptr_eq"])
prop("C18", "Node data is borrowed per node and edits never need or disturb it",
 "Data of each node follows shared/exclusive borrow rules by itself: any handle of that node sees the same state, other nodes are unaffected, and panicking forms panic exactly where fallible forms fail. Hierarchy edits, navigation and traversal succeed and keep their meaning while any data is borrowed, except copying unreadable data, and written data is seen through every handle afterwards.",
 ["histories", "inputs"], "every node and every combination of borrow kind and handle flavour; every edit with every node's data borrowed shared or exclusively",
 "Tests borrow data only to read values; edits under an active mutable borrow of an operand or neighbour are not exercised.",
 [INT, PLAIN, HOT, FROZEN, EDIT], [("data cell separate from links", "src/node/internal.rs NodeCore.data"), ("borrow accessors", "src/node/plain.rs, hot.rs, frozen.rs borrow_data*")],
 ["borrow results, edits under borrow"])
prop("C19", "Pretty and debug printing render every tree faithfully",
 "The pretty-printed form of any subtree contains one entry per node with the correct indentation guides for its position, with multi-line, empty and unreadable data rendered as documented, in both display and debug styles. The debug forms show each node's data, children and relations consistently with the hierarchy, whatever handle is used, and never panic for borrowed data.",
 ["inputs"], "every tree shape up to a bound, every start node, every text from a set covering empty, multi-line and trailing-newline text, every borrowed node, normal and alternate style",
 "Tests print three fixed trees; indentation depends on which ancestors are last siblings, on line breaks at each position, and on empty texts.",
 ["src/tree/debug_print.rs", "src/node/debug_print.rs", "src/node/debug_print/pretty.rs"], [("indent writer", "src/node/debug_print/"), ("debug adapters", "src/node/debug_print/, src/tree/debug_print.rs")],
 ["formatted text"])
prop("C20", "Plain iterators stay safe and predictable under concurrent edits",
 "A plain iterator yields the node it had already decided on and decides the following one from the hierarchy at the time of the step, so interleaving any edits with its steps never panics, yields dead nodes or leaves the documented rule. It ends for good once it found no next node.",
 ["histories"], "every plain iterator over every small tree, with every single edit and every pair of edits placed between its steps",
 "One documentation example interleaves one edit with one iterator; the outcome depends on which edit happens at which step.",
 [DF, SIB, ANC], [("cached next node", "src/traverse/siblings.rs, ancestors.rs, depth_first.rs next")],
 ["yielded nodes"])
prop("C21", "Weak references and re-entrant destructors never observe a broken tree",
 "A weak reference to a node or tree upgrades exactly while its tree is alive, through every edit and handle history, and yields the very same node or tree. Data destructors that look at, drop handles of, or keep weak references into the dying tree or into other trees never panic, never revive a dying tree and never see a freed node.",
 ["histories", "fault_sequences"], "every small history of edits and drops with weak references to every node; every destructor action at every node of every small tree",
 "Tests only upgrade weak references of a static tree; no test has a destructor that touches the tree.",
 [PLAIN, MEM, TREE], [("upgrade via membership", "src/node/plain.rs NodeWeak::upgrade, src/node/membership.rs"), ("release order", "src/tree.rs Drop for TreeCore")],
 ["upgrade results, destructor callbacks"])
prop("C22", "Resource use does not grow with tree depth or width: no stack overflow",
 "Dropping, traversing, comparing, cloning, serializing, building, moving, detaching and pretty-printing trees of any depth and width needs only constant call-stack space. A deep chain, a wide star or a deep comb with very many nodes works in a small fixed stack.",
 ["inputs", "configurations"], "every operation of the API on every degenerate tree family at sizes far beyond what recursion in a small stack permits",
 "Tests drop one deep and one wide tree in the default stack; other operations and drops triggered inside edits are not covered.",
 [TREE, INT, EDIT, DF], [("iterative release", "src/tree.rs Drop for TreeCore"), ("iterative traversals", "src/node/internal.rs DepthFirstLinkTraverser")],
 ["successful termination in a small thread stack"])
prop("C23", "The tree macros build exactly the tree that is written",
 "For every nesting the tree-building macros evaluate to a tree with exactly the written shape, order and data, with every data expression evaluated once, in document order, and the resulting tree unlocked. Optional trailing commas and explicit empty child lists make no difference.",
 ["programs"], "every tree shape up to five nodes, every legal spelling of leaves (plain or with empty child list) and trailing commas",
 "Doc tests expand a couple of literal trees; the macro's rules distinguish last/non-last and leaf/non-leaf entries and are only reached by particular nestings.",
 ["src/macros.rs"], [("token muncher", "src/macros.rs tree_node!, tree!")],
 ["resulting tree, evaluation order, lock state"])
prop("C24", "A panic in user code leaves every tree consistent",
 "If a user-supplied clone, comparison, formatting, destructor or event source panics in the middle of any operation, every tree remains internally consistent and fully usable, no lock and no borrow of the data remains held by the failed operation, source trees are unchanged, and nothing is leaked or released twice once the handles are dropped.",
 ["fault_sequences", "histories"], "every operation that calls user code, every call position at which the user code can panic, over every small tree",
 "No test injects a panic; each fault point is a different intermediate state.",
 [EDIT, TREE, SER, INT], [("user code called outside link surgery", "src/node/edit.rs, src/serial.rs, src/tree.rs"), ("guards released on unwind", "src/node/hot.rs, frozen.rs Drop")],
 ["state after the caught panic"])
prop("C25", "The node data's own code can use the trees it is in",
 "The library calls user code in the middle of its operations: the data's Clone (copies, serialization), PartialEq (comparison), Debug and Display (printing), the writer a tree is printed to, and the event source a builder reads. That code may use the same trees. While it runs, data that the user has not borrowed exclusively is readable through every handle (that of the node being copied, compared or printed included); every navigation method, printer, serialization, comparison and copy works and shows the trees as they were before the operation (for a builder that extends a tree: with the part built so far); and the interrupted operation then completes with its ordinary outcome. If that code edits the hierarchy where locks permit, the outcome of the interrupted operation is not prescribed, but every tree stays consistent (links, counts, order, membership, roots), no lock remains, and all data is released with the last handles.",
 ["histories"], "every operation that calls user code, every call, and every use of the trees inside that call, over every small tree",
 "Tests use plain data whose code never looks at a tree; each pair of interrupted operation and inner action is a different intermediate state.",
 [EDIT, SER, INT, PLAIN], [("shared borrows around user code", "src/node/internal.rs try_borrow_data/try_eq, src/serial.rs TreeSerializeIter"), ("copy completed before insertion", "src/node/edit.rs clone_insert_subtree, src/node/plain.rs try_clone_subtree")],
 ["queries and edits inside user callbacks", "outcome of the interrupted operation"])
prop("C26", "All memory is given back, and repeated work accumulates none",
 "Once every handle, token, weak reference, iterator and builder of a tree is gone, no heap memory allocated by the library on its behalf remains, whatever was done before: edits, refused edits, merges and splits of trees, abandoned iterators and builders, failed copies, panics in or re-entrant calls from user code. While a tree is kept, repeating work that leaves it as it was does not make its memory grow. The breadth-first traverser documented as non-allocating allocates nothing of its own.",
 ["histories", "fault_sequences"], "every small history of edits, handles, locks, iterators, builders and user-code faults with the heap counted before and after; every kind of work that leaves the tree as it was, repeated",
 "Tests never count allocations; a weak or strong count that stays behind shows neither in the data nor in any answer, and only after particular histories.",
 [MEM, TREE, EDIT, DF, SER], [("counted cores and memberships", "src/node/membership.rs, src/tree.rs TreeCore"), ("non-allocating traversal", "src/traverse/breadth_first.rs NonAllocatingBreadthFirstTraverser")],
 ["heap blocks and bytes in use"])
prop("C27", "Work stays within its documented and structural bounds at every size",
 "Creating a node as child, sibling or builder event, asking any getter, cloning, upgrading or bundling a handle, taking a lock, and each first step of an iterator take work independent of the size and shape of the tree; num_children is O(1), count_* are linear in what they count. Moving a subtree within its tree takes work independent of the sizes of subtree and tree (apart from the ancestors of the destination); moving to another tree and detaching are linear in the subtree; copies, comparisons, events and every complete traversal are linear in the nodes visited, the allocating breadth-first traversal included; the non-allocating one is at most quadratic. Building and releasing a tree are linear. None of this gets dearer by what was done before: repeating work that leaves a tree as it was costs the same each time.",
 ["inputs", "histories"], "every call at every node of all small trees, then of trees of every shape family at growing sizes; every work that leaves a tree as it was, repeated",
 "Tests use a handful of nodes and observe results only; a call that silently walks the whole tree, or leaves something behind that later calls walk through, gives right answers at any size.",
 [PLAIN, EDIT, TREE, INT, DF, BF, SER], [("cached counts and last children", "src/node/internal.rs IntraTreeLink"), ("same-tree moves without membership updates", "src/node/edit.rs detach_and_move_inside_same_tree"), ("queue of the allocating traversal", "src/traverse/breadth_first.rs AllocatingBreadthFirstTraverser")],
 ["work done per call"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
