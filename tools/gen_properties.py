#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay readable in review)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
AVL="src/avl.rs"; AS="src/avl/avl_set.rs"; BT="src/btree.rs"; BS="src/btree/btree_set.rs"; FX="src/btree/fixed.rs"; CO="src/btree/core.rs"; ST="src/stack.rs"; LB="src/lib.rs"
ALL=[AVL,AS,BT,BS,FX,CO,ST,LB]
HOOK="refcount seam: src/sync.rs re-exports std::sync::Arc, and under cfg(lcc_sim) an Arc wrapper that calls the simulator around every reference-count operation"

p("C01","A clone behaves as an independent deep copy",
 "After any clone of a map, set or stack, the original and every clone behave for ever exactly as independent deep copies would: no update, iteration, consumption, clear or drop of one handle is ever observable through another, and each handle keeps giving the results that its own history alone determines. This holds however the clones were derived from one another, whichever operations are applied to them, and whether the handles live in one task or were sent to several.",
 ["histories","schedules","programs"],
 "every tree of clones, every interleaving of operations over the handles (including operations preempted half-way), every collection type, node width and element type",
 "Tests clone a collection once or twice, update one side and compare. They never build deep clone trees with partial node sharing, never update while another owner is in the middle of an operation, and cover a handful of update kinds per clone.",
 ALL,[("copy-on-write of shared nodes before any mutation",AVL+" ins/rm*/rot*/join*/split; "+BT+" Node::insert/remove/rot_*/merge; "+CO+" Node, InlineVec, Splitter"),("Arc::make_mut / try_unwrap decide move-or-clone",AVL+" take_node; "+BT+" IntoNodeIter; "+CO+" NodeIntoIter; "+ST+" pop/remove/split_off")],
 [("reference-counted nodes","nodes reachable from more than one handle",", ".join(ALL[:7]))],
 ["every public method of every live handle"],HOOK)

p("C02","Maps refine an ordered-map model over every history",
 "Every history of operations on an AVL map, a B-tree map of any node width N >= 1, or the fixed-width B-tree map returns exactly what a sorted associative array (std BTreeMap) returns for the same history: results of each call, length, emptiness, and the full ordered contents afterwards. This covers lookup, insert, remove, first/last/pop, entry, retain (which must visit each entry once, in ascending key order), append, split_off, union/intersection/difference/symmetric difference/join constructors, for-each, keys/values and indexing, with any mix of shared and unshared structure underneath.",
 ["histories","inputs","programs"],
 "all operation histories over all supported maps, key types, node widths and sizes from empty to thousands of entries, with any sharing between handles",
 "The proptest crosschecks run short random histories on a single unshared map with small keys; retain order, entries on shared maps, joins and algebra of maps sharing nodes, and multi-handle histories are not reached.",
 [AVL,BT,FX,CO,LB],[("rebalancing insert/remove/join/split",AVL),("node split, rotate, merge, concat",BT),("unsafe fixed-capacity node vectors and splitter",CO),("Entry",LB)],
 [("root/len","tree and cached length",AVL+", "+BT+", "+FX)],["return values, len, iter, get"],HOOK)

p("C03","Sets refine an ordered-set model, including set algebra",
 "Every history of operations on an AVL set or a B-tree set returns exactly what std BTreeSet returns for the same history, including insert/remove/take/replace/retain/append/split_off/pop/range, the lazy difference, intersection, union and symmetric-difference iterators, their consuming constructors and operators, and is_subset, is_superset and is_disjoint. Results do not depend on whether the two operands share structure or how the operands came to hold their elements.",
 ["histories","inputs","programs"],
 "all histories over all pairs of sets, in particular pairs that share some, all or none of their nodes and pairs of very different size",
 "Crosschecks build operands from independent vectors; operands that are clones with a few divergent updates (where pointer-equality shortcuts and sharing matter) are never generated, nor are equal non-empty operands for every predicate.",
 [AS,BS,AVL,BT,LB],[("pointer-equality shortcut in subset test",AS+" is_subset"),("sorted merge iterators",LB+" SetOpIter"),("size-dependent strategies in consuming algebra",BS+" new_*"),("Merger",AVL)],
 [],["set API results"],HOOK)

p("C04","Stacks refine a LIFO sequence over every clone tree",
 "Every history of push, pop, top, top_mut, remove, split_off, extend, clear, comparison and iteration over any family of stacks cloned from one another returns exactly what the same history returns on independent vectors. remove and split_off panic for an out-of-range index and only then, and such a panic leaves every stack unchanged.",
 ["histories","programs"],
 "all histories over all ancestral trees of stacks",
 "Unit tests exercise a few fixed stacks; shared tails with remove/split_off/iter_mut in the shared part and interleaved owners are not generated.",
 [ST],[("make_mut up to the cut point, try_unwrap on pop",ST+" remove, split_off, pop, iter_mut")],
 [("len/elems","cached length and shared list",ST)],["Stack API results"],None)

p("C05","Trees stay balanced and compact after every operation",
 "After every completed operation each map and set is a valid search tree: keys strictly ascending, cached length equal to the number of entries, and balanced, so that a lookup among n entries needs O(log n) key comparisons (about 1.44*log2 n for AVL; B-tree depth at most log base N+1). The memory a collection holds stays proportional to its number of entries, also after long runs of removals, joins, splits, bulk algebra and deserialization.",
 ["histories","inputs"],
 "all histories and sizes, especially ascending/descending/clustered insertions and removals, merges of very unequal trees, and small node widths",
 "Tests validate invariants after single-operation sequences up to a few hundred elements and not at all for the fixed-width map's depth; joins of trees with very different heights and long removal histories on shared trees are not sampled.",
 [AVL,BT,FX,CO,LB],[("AVL rotations and join",AVL),("B-tree minimum/maximum occupancy, rotate, merge, concat",BT+", "+CO),("public invariant checks",LB+" Map::check, Set::check")],
 [("height, occupancy","balance bookkeeping",AVL+" Node.ht; "+BT+" Node.elems")],["Map::check/Set::check, comparison counts, allocator accounting"],None)

p("C06","Every element is dropped exactly once and never touched after",
 "Every key and value ever created by the caller or by the collections' cloning is dropped exactly once, no later than when the last handle or iterator that can reach it is gone, and is never read, compared, cloned or handed out after that. This holds for every history and interleaving, including iterators abandoned half-way from either end, handles dropped in any order, and tasks that die in the middle of an operation; all heap memory the collections allocated is returned.",
 ["histories","crash_points","schedules","fault_sequences"],
 "all histories, abandonment points, drop orders and crash points",
 "One test counts live elements for the fixed map in a few fixed patterns, never with sharing, abandoned double-ended iteration, threads or a crash; the node code is unsafe and hand-written.",
 [CO,FX,BT,AVL,ST],[("MaybeUninit vectors with explicit lengths",CO+" InlineVec"),("consuming node iterators and their Drop",CO+" NodeIntoIter"),("splitter guard",CO+" Splitter"),("Drop",ST)],
 [("initialised prefix lengths","which slots own an element",CO)],["element ledger (instance ids), poisoned allocator"],HOOK)

p("C07","A panic in user code is contained",
 "If a caller-supplied key comparison, key or value clone, closure, predicate, source iterator or (de)serializer panics in the middle of any operation, every other handle keeps exactly its contents and stays fully usable, an operation that only reads leaves its own handle unchanged too, and no element is dropped twice, used after drop or left undropped once all handles are gone. The handle being updated may lose entries but never yields an element that was not in it or being put into it, and clearing it makes it fully usable again. The same holds, as far as memory safety and the other handles go, when a comparison gives contradictory answers or an element's destructor panics (then elements may stay undropped, but none is dropped twice).",
 ["fault_sequences","crash_points","histories"],
 "every operation, every callback invocation inside it as the failure point, every sharing pattern",
 "No test injects a panicking Clone, Ord or closure.",
 ALL,[("moves out of nodes only after cloning; drop guards",CO+" Splitter, NodeIntoIter; "+AVL+" retain, join; "+BT+" split/merge")],
 [],["catch_unwind boundary, ledger, other handles"],HOOK)

p("C08","Whole-collection iterators obey the iterator protocol",
 "Every iterator over a map, set or stack yields each entry exactly once in the documented order under any mix of front and back steps; after every step its reported length and size_hint equal what is left (for exact-size iterators) or bound it, and once exhausted it stays exhausted. Mutable iterators write only to their own handle, consuming iterators move or clone the right elements whatever is shared, and dropping any iterator early leaves a borrowed collection complete and consistent.",
 ["histories","schedules","crash_points"],
 "every step pattern, every abandonment point, every collection shape and sharing pattern, every interleaving with other owners' updates between steps",
 "Tests mostly collect front-to-back or fully reversed on unshared collections; mixed front/back stepping, mid-way length checks, and iteration preempted by other owners are not covered.",
 ALL,[("deque-of-node-iterators with front/back work lists",AVL+" InnerIter; "+BT+" InnerIter, IntoNodeIter"),("fixed-width node iterators",CO+" InnerIter, NodeIntoIter")],
 [("len counters","remaining entries",AVL+", "+BT+", "+CO)],["next, next_back, len, size_hint"],HOOK)

p("C09","Clones are lazy: copying is bounded by the path touched",
 "Cloning a handle and any read-only operation copy no element; an update of one key in a collection whose structure is shared copies only the nodes on and next to one root-to-leaf path (O(log n) AVL nodes, O(N log n) B-tree elements), and repeating it on the same key copies nothing more. Once all sharers are gone, single-key updates, mutable and consuming iteration, extend, append and split_off move elements and copy none; so does retain except on an AVL map; on shared structure these copy each entry at most once, and clear copies nothing. Pushing and popping a stack copies at most the one element handed out; removing from or splitting a shared stack copies only what lies above the place, and nothing if the stack is unshared.",
 ["histories","programs","inputs"],
 "every clone tree, size and operation order, including sharers that disappear while an operation is under way",
 "No test counts element clones on trees of any size; a deep copy on clone would pass the suite.",
 [AVL,AS,BT,BS,FX,CO,ST],[("Arc::make_mut/try_unwrap per node on the path",AVL+", "+BT+", "+CO),("sole-owner moves on pop/into_iter",AVL+" take_node; "+BT+" IntoNodeIter; "+ST+" pop")],
 [("strong counts","number of owners of a node","Arc/Rc in each file")],["Clone calls of keys and values, allocator accounting"],HOOK)

p("C10","Deserialization copes with any stream and any size hint",
 "Deserializing a map or set from any stream of entries (sorted, unsorted, with repeated keys, empty or long) with any or no declared size (right, too small, too large, absurdly large) yields exactly the collection obtained by inserting the entries in order, balanced and valid, without panicking or allocating in proportion to the declared size. A stream error at any point is returned as that error, a stream that holds something other than such entries is refused with an error, and everything read so far is released.",
 ["inputs","fault_sequences"],
 "all streams, declared sizes and failure points",
 "Three token-list tests use tiny, correct, sorted inputs; wrong hints and mid-stream errors are never fed.",
 [LB,AVL,BT,AS,BS],[("build-by-halves with size hint, stitch, rebuild when malformed",LB+" MapVisitor; "+AVL+" make_half/make_whole/stitch; "+BT+" make_half/make_whole/stitch")],
 [],["Deserialize impls driven by a simulated deserializer"],None)

p("C11","Results do not depend on the thread schedule",
 "When threads concurrently operate on their own handles that share structure, or read one collection through shared references, every operation returns what it would return if it ran alone and atomically, whatever the interleaving, including preemption between any two reference-count or element operations inside it. Every thread finishes within a bounded number of its own steps: no deadlock, livelock, panic or dependence on another thread's progress, even when another thread stalls or dies mid-operation.",
 ["schedules","crash_points","histories"],
 "all interleavings of all programs, with stalls and deaths at any point",
 "No test uses more than one thread.",
 [AVL,AS,BT,BS,FX,CO],[("Arc reference counting, make_mut/try_unwrap decisions tolerate racing releases",AVL+", "+BT+", "+CO)],
 [("strong counts","racing between owners","Arc in each file")],["per-task operation results versus the atomic model"],HOOK)

p("C12","Equality, order, hash and Debug depend only on contents",
 "Two collections of the same type with equal contents compare equal, order equal, hash equally and print identically whatever histories, shapes and sharing produced them; for different contents, equality and ordering agree with comparing the contents in iteration order, also for values that are not totally ordered or not equal to themselves. The Debug text lists exactly the entries, in order. Comparing, hashing or printing never changes or copies anything.",
 ["histories","inputs"],
 "all pairs of histories, including pairs with partly shared structure",
 "Tests compare collections built the same way or from the same vector.",
 [AVL,AS,BT,BS,ST],[("element-wise comparison through iterators",AVL+" PartialEq/Ord/Hash/Debug; "+BT+"; "+ST),("Hash",AVL+"; "+AS+"; "+BS)],
 [],["==, cmp, partial_cmp, Hash, Debug"],None)

p("C13","Failure outside a tree update leaves exact contents",
 "If a source iterator of extend or collect panics or a closure given to the entry API, for_each or for_each_mut panics, or a loop over a mutable iterator is abandoned, the collection is afterwards valid and holds exactly its previous contents plus the effects already completed: a prefix of the source's items, or the values already written. Bulk insertion applies items in order, later items replacing earlier ones with an equal key, whatever size_hint the source reports.",
 ["fault_sequences","crash_points","inputs"],
 "every bulk source, failure position, previous contents and sharing pattern",
 "Tests only use sources and closures that succeed.",
 [LB,AVL,AS,BT,BS,FX,ST],[("item-at-a-time insertion",AVL+" Extend; "+BT+" Extend; "+FX+" Extend; "+ST+" Extend"),("entry evaluates the closure before inserting",LB+" Entry")],
 [],["contents after catch_unwind"],None)

p("C14","Serialization is faithful and survives a failing sink",
 "Serializing a map or set declares exactly its length and then emits each entry exactly once in ascending key order, so that reading it back gives an equal collection. If the sink reports an error at any point, that error is returned, nothing further is written, and the collection is unchanged and usable.",
 ["inputs","fault_sequences","histories"],
 "all contents and histories, every failure point of the sink",
 "Token tests cover a few tiny collections and no failing sink.",
 [AVL,BT,AS,BS],[("Serialize impls",AVL+" Serialize; "+BT+" Serialize; derived on sets")],
 [],["calls received by a simulated serializer"],None)

p("C15","Long chains and large trees need only bounded call stack",
 "Dropping, clearing, cloning, comparing, iterating, extending, splitting and removing from collections with hundreds of thousands of elements uses bounded call-stack space, also when the last owner of a long shared tail is a short clone, a half-consumed iterator or a task that is unwinding after a crash. Deserialization recursion is bounded by the logarithm of the declared size.",
 ["histories","crash_points","inputs"],
 "all chain lengths, sharing patterns and release orders",
 "One test drops one unshared long stack on the main thread; shared tails, iterators and crashes are not covered.",
 [ST,AVL,BT,LB],[("iterative Drop/clear of the list",ST+" Drop, clear"),("logarithmic tree depth",AVL+", "+BT)],
 [],["operations run on a thread with a small fixed stack"],None)

p("C16","Range queries deliver exactly the entries in range",
 "For every non-inverted pair of included, excluded or unbounded bounds, range and range_mut deliver exactly the entries within the bounds, in ascending order from the front and descending from the back under any mix of steps, with size_hint never excluding the true remaining count, and stay exhausted afterwards. An inverted range yields nothing or panics, and changes nothing. Writes through range_mut change exactly the entries yielded, in this handle only, and the number of comparisons needed to set a range up stays logarithmic.",
 ["inputs","histories"],
 "all contents, tree shapes, bound pairs, step patterns and sharing patterns",
 "Crosschecks use a few thousand random bounds with front iteration on unshared maps; step mixes and sharing are not covered.",
 [AVL,BT,AS,BS],[("pruned descend lists at both ends",AVL+" range, range_mut"),("range work lists",BT+" Range, RangeMut")],
 [],["range, range_mut"],HOOK)

p("C17","Thread-safety markers match the element types",
 "A map or set can be sent to or shared with another thread exactly when its keys and values are both Send and Sync, and a stack can never leave its thread. Code that would violate this is rejected at compile time.",
 ["programs"],"all programs instantiating the collections",
 "Auto-trait facts are not asserted anywhere.",
 [AVL,BT,FX,ST,CO],[("auto traits through Arc and Rc; no unsafe impl Send/Sync",AVL+", "+BT+", "+CO+", "+ST)],
 [],["compile-time auto traits"],None)

p("C18","Shared structure is free of weak-memory data races",
 "On hardware with weak memory ordering, concurrent release and in-place update of shared nodes never form a data race: an owner that finds itself sole owner sees all effects of the owners that let go before. ",
 ["schedules"],"all executions allowed by the memory model",
 "Single-threaded tests cannot show ordering bugs.",
 [AVL,BT,CO],[("acquire/release ordering inside std::sync::Arc",AVL+", "+BT+", "+CO)],
 [],["none at the API: ordering is inside std"],None)

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
