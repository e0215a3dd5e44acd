# Executed by gen_manifest.py: c(property, technique, level_note)
NA = {}
SEQ = "explicit enumeration of all edit sequences over all small forests, executed on the real code and compared with a reference model after every history"
BASE = " Exhaustive within the bounds recorded in the evidence; trusts the reference model and the Rust toolchain; deeper histories are covered only inductively (every accessor of every node is compared after every edit from every small forest)."
c("C01", SEQ, "Every answer of every accessor of every node through all three handle flavours is coherent with one tree, after every enumerated history." + BASE)
c("C02", SEQ, "After every enumerated history of successful edits, in every API form, the complete hierarchy equals the model's." + BASE)
c("C03", SEQ, "Every edit the model rejects fails with a documented error in every API form and leaves hierarchy, membership, data, locks and live data unchanged." + BASE)
c("C04", SEQ, "Tree identity, root and membership answers of every node and tree pair equal the model's after every enumerated history, with and without tree handles held." + BASE)
HIST = "explicit enumeration of all histories of handle operations and edits from all small forests, executed on the real code with a check of every handle, weak reference and data value against a lifetime model after every release"
c("C05", HIST, "While any handle of the model refers to a tree, all of its nodes are reachable from it with their own data." + BASE)
c("C06", HIST, "The set of live data values equals the model's after every step of every history and of both release orders." + BASE)
c("C21", HIST + "; and of all destructor actions at all nodes under all ways of releasing a tree", "Weak upgrades equal the model's liveness after every step, and destructors probing every weak reference and every surviving tree before, between and after their own edits and drops see exactly the model." + BASE)
LOCK = "explicit enumeration of all histories of lock acquisitions, releases, conversions, iterations and edits from all small forests and all small sets of initial locks, executed on the real code against a lock-counting model"
c("C07", LOCK, "After every history and after every single release in three release orders, grants and prohibitions are acquirable through the tree and through every node exactly when the model says so." + BASE)
c("C08", LOCK, "Hot handles carry their grant through every enumerated sequence of moves, and every tree is neutral again in the model's sense after every release." + BASE)
c("C09", LOCK, "Every edit and bundling with a foreign or stale token is refused without effect, and no call changes a prohibited hierarchy, in every enumerated lock state." + BASE)
TRAV = "explicit enumeration of all trees, all start positions and all front/back/skip call sequences of every traversal, executed on the real code and compared with the reference traversal"
c("C10", TRAV, "Event successor/predecessor functions and depth-first traversals of every flavour yield exactly the reference events from every start in both directions." + BASE)
c("C11", TRAV, "Every interleaving of front, back and skip steps on stable traversals, with every depth limit, sees each reference event once." + BASE)
c("C12", TRAV, "Both breadth-first traversals yield level order with depths under every call sequence including buffer management." + BASE)
c("C13", TRAV, "Sibling, child and ancestor iterators yield exactly the reference nodes in both directions under every call sequence." + BASE)
c("C20", "explicit enumeration of all interleavings of iterator steps with all hierarchy edits from all small forests, executed on the real code and compared with the cached-next model", "Every interleaving of up to the stated number of edits with steps of every plain iterator equals the model of the documented rule." + BASE)
c("C14", "explicit enumeration of all trees, all start nodes and all sets of unreadable nodes, serialized and rebuilt in every way on the real code and compared with the canonical event list", "Event lists and every way of rebuilding from them equal the reference for every enumerated tree, with every unreadable subset reported per node." + BASE)
c("C15", "explicit enumeration of all event sequences up to a length over all builder states, executed on the real builder one by one and in bulk and compared with a reference builder after every event", "After every event of every enumerated sequence the builder's verdict, its state queries and finally the built hierarchy equal the reference builder's." + BASE)
c("C16", "explicit enumeration of all forests, all subtrees, all destinations and all sets of unreadable nodes, cloned on the real code in every API form and compared with the reference model", "Every enumerated copy is complete and independent in hierarchy, data, tree identity and locks; every refused copy changes and leaves nothing." + BASE)
c("C17", "explicit enumeration of all pairs of nodes of all labelled forests and all sets of unreadable nodes, compared on the real code in every handle combination against the recursive definition", "Every comparison form gives the verdict of the recursive definition or the permitted failure for every enumerated pair." + BASE)
c("C19", "explicit enumeration of all trees under all labellings with awkward texts and all sets of unreadable nodes, all fragmentations of the writes and all failing sinks, printed by the real code and compared with a reference renderer", "Every enumerated print equals the independently rendered reference (up to trailing whitespace), and every failing sink gets a prefix and reports the failure." + BASE)
c("C18", "explicit enumeration of all borrow states of all nodes under all edits, copies and reads from all small forests, executed on the real code and compared with a borrow model and the reference hierarchy", "Every borrow form of every flavour answers as the per-node model, and every edit succeeds and keeps its meaning with every node's data borrowed either way." + BASE)
c("C22", "explicit enumeration of all pumped tree families times all operations, each executed on the real code in a small fixed stack", "Every operation of the list succeeds with correct counts on every enumerated family at sizes far beyond what recursion in the stack permits." + BASE)
c("C24", "explicit enumeration of all positions of a user panic in all operations over all small forests, injected into the real code and compared with the unchanged reference model", "After a panic at every enumerated call into user code every tree equals the model, is unlocked, editable, and finally releases exactly its data." + BASE)
c("C23", "explicit enumeration of all programs: every legal spelling of every small tree, every kind of data expression in every position, compiled with the real macros, executed and compared with the written tree", "Every enumerated program evaluates to the written shape, order and data with each expression evaluated once in document order, unlocked, and clean after a panic in any expression." + BASE)
c("C25", "explicit enumeration of all actions (queries, prints, comparisons, copies, edits) inside all calls into user code made by all operations over all small forests, executed on the real code and compared with the reference model", "Every enumerated query inside a callback equals the model and leaves the interrupted operation's outcome as it is; after every enumerated edit inside a callback all trees pass a complete consistency audit and release all data." + BASE)
c("C26", "explicit enumeration of histories of edits, handles, locks, iterators, builders, destructors and user-code faults over all small forests, each executed twice on the real code with every heap block counted", "Every enumerated case leaves exactly the heap blocks and bytes it found, every repeated shape-neutral work settles, and the non-allocating traversal never calls the allocator." + BASE)
c("C27", "explicit enumeration of all calls at all nodes of all small trees and at selected nodes of all tree families of growing sizes, and of all repeated histories that leave a tree as it was, executed on the real code with every executed region counted", "Every call's counted work stays within three times the work per unit of its documented size that suffices for all trees up to 4 nodes, and no repeated work gets dearer." + BASE)
