#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/gen_properties.py rewrites it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

LIST="src/list/mod.rs"; VEC="src/vector/mod.rs"; Q="src/queue/mod.rs"; ST="src/stack/mod.rs"
HT="src/map/hash_trie_map/mod.rs"; SA="src/map/hash_trie_map/sparse_array_usize/mod.rs"; RY="src/map/hash_trie_map/rayon.rs"
RB="src/map/red_black_tree_map/mod.rs"; HS="src/set/hash_trie_set/mod.rs"; RS="src/set/red_black_tree_set/mod.rs"; UT="src/utils/mod.rs"

p("P01","Vector behaves as an indexable sequence",
  "Whatever history of pushing, setting, dropping and mutating elements produced it, and for every accepted branching factor, a Vector holds exactly the elements a plain growable array would hold after the same history. Length, emptiness, first, last, every indexed read and write, and the success or failure of each operation agree with that array; an index at or past the length is answered with None or false (or a panic for the [] operators) and changes nothing.",
  ["histories","inputs","configurations"],"all operation histories, all element values, all indices, all branching-bit counts the constructor accepts",
  "Tests push a few thousand consecutive integers with two or three branching factors; they do not try every index at every length around each height transition, nor histories that mix dropping and pushing across them, nor extreme branching factors.",
  [VEC],[("bitmapped trie get/assoc/drop_last",VEC+": Node::get, Node::assoc, Node::drop_last"),("height, root growth and root compression",VEC+": height, push_back_mut, compress_root"),("constructor bound on bits",VEC+": new_with_bits")],
  ["Vector::{get,first,last,len,set,push_back,drop_last,get_mut,index}"],[dict(name="bits/length/root",meaning="branching factor, element count and trie root; height is derived from length",where=VEC)])
p("P02","List behaves as a persistent sequence",
  "Whatever history of pushing to the front, dropping the first element and reversing produced it, a List holds exactly the elements a plain sequence would hold after the same history. First, last, length, emptiness, iteration order and the success or failure of each operation agree with that sequence.",
  ["histories","inputs"],"all operation histories (persistent and in-place, on shared and unshared lists) and all element values",
  "Tests check a few fixed short histories; the cached last element and length interact with reverse, drop and sharing in combinations they do not enumerate.",
  [LIST],[("head/last/length maintenance",LIST+": push_front_ptr_mut, drop_first_mut, reverse, reverse_mut")],["List::{first,last,len,is_empty,iter,push_front,drop_first,reverse}"],
  [dict(name="last/length",meaning="cached last element and element count",where=LIST)])
p("P03","Queue is first-in first-out",
  "Whatever history of enqueueing and dequeueing produced it, a Queue yields its elements in exactly the order they were enqueued: peek, dequeue, length and iteration agree with a plain FIFO after the same history. Dequeueing an empty queue reports failure and changes nothing.",
  ["histories","inputs"],"all histories of enqueue/dequeue (persistent and in-place, with versions kept alive or not) and all element values",
  "Tests run a handful of fixed histories; the two-list representation has to be right for every split of the elements between its halves and for iteration resumed at any point.",
  [Q,LIST],[("two-list queue with lazy reversal",Q+": dequeue_mut, peek, iter_ptr, LazilyReversedListIter")],["Queue::{peek,dequeue,enqueue,len,iter}"],
  [dict(name="in_list/out_list",meaning="incoming (reversed) and outgoing halves",where=Q)])
p("P04","Stack is last-in first-out",
  "Whatever history of pushes and pops produced it, a Stack yields its elements in exactly the reverse of the order they were pushed: peek, pop, size and iteration agree with a plain LIFO after the same history. Popping an empty stack reports failure and changes nothing.",
  ["histories","inputs"],"all histories of push/pop (persistent and in-place) and all element values",
  "Tests run a handful of fixed histories.",
  [ST,LIST],[("wrapper over the list",ST+": push_mut, pop_mut, peek")],["Stack::{peek,pop,push,size,iter}"])
p("P05","HashTrieMap behaves as a finite map for every hash function",
  "Whatever history of inserts, removes and in-place value changes produced it, for every accepted degree and every hash function consistent with key equality (including total and partial collisions), a HashTrieMap answers get, get_key_value, contains_key, indexing, get_mut, remove and size exactly as an association table after the same history would. Inserting an existing key replaces its value (and key) without changing the size; removing reports whether the key was present.",
  ["histories","inputs","configurations"],"all histories, all keys and values, all 64-bit hash assignments, all degrees the constructor accepts",
  "Tests use sequential integers under the default hasher and a few hand-made collisions; they cannot cover every pattern of shared hash prefixes, full collisions and removals that re-compress the trie.",
  [HT,SA,UT],[("trie insert/remove/compress",HT+": Node::{insert,remove,compress,get,get_mut}"),("collision buckets",HT+": Bucket, bucket_utils::list_remove_first"),("bitmap-indexed sparse children",SA+": map_index, rank, set, remove")],
  ["HashTrieMap::{get,get_key_value,contains_key,insert,remove,get_mut,size}"],[dict(name="root/size/degree",meaning="trie root, entry count, branching degree",where=HT)])
p("P06","RedBlackTreeMap behaves as a finite map for every total order",
  "Whatever history of inserts, removes and in-place value changes produced it, and for every total order on keys, a RedBlackTreeMap answers get, get_key_value, contains_key, indexing, get_mut, first, last, remove and size exactly as an association table after the same history would. Inserting an existing key replaces its value (and key) without changing the size; removing reports whether the key was present.",
  ["histories","inputs"],"all histories and all relative orders of keys",
  "Tests check random and sequential integer histories; deletion rebalancing has many shape-dependent cases, each of which needs a particular tree to occur.",
  [RB,UT],[("insert with balance",RB+": Node::insert, Node::balance"),("delete with fuse and rebalancing",RB+": Node::remove, remove_fuse, remove_balance_left, remove_balance_right")],
  ["RedBlackTreeMap::{get,get_key_value,contains_key,insert,remove,get_mut,first,last,size}"],[dict(name="root/size",meaning="tree root and entry count",where=RB)])
p("P07","RedBlackTreeMap iterates in strictly ascending key order from both ends",
  "Iterating a RedBlackTreeMap (entries, keys or values) yields every entry exactly once, in strictly ascending key order from the front and strictly descending order from the back. For every interleaving of front and back steps the two ends never overlap and never skip an entry, and the reported remaining length is exact at every step.",
  ["histories","inputs","programs"],"all histories that build the map and all interleavings of next and next_back, including calls after exhaustion",
  "Tests iterate forward, backward and one fixed interleaving on a few trees.",
  [RB],[("iteration stacks",RB+": iter_utils::IterStack, IterPtr, RangeIterPtr")],["RedBlackTreeMap::{iter,keys,values}","ExactSizeIterator::len"])
p("P08","Range queries return exactly the entries inside the bounds",
  "For every map or set and every pair of included, excluded or absent bounds, a range query yields exactly the entries whose keys lie inside the bounds, in ascending order from the front and descending from the back, each once, for every interleaving of front and back steps. A range whose start lies after its end, or whose ends are equal and both excluded, panics, and no other range does.",
  ["inputs","histories","programs"],"all maps, all bound kinds and bound values (present in the map or not), all interleavings of next and next_back",
  "Tests fix a few maps and bounds; whether a bound falls between, on or beyond keys and where in the tree that happens is what matters.",
  [RB,RS],[("bound-directed descent and termination",RB+": IterStack::dig_towards, clear_if_finished, advance"),("range validation",RB+": RedBlackTreeMap::range")],["RedBlackTreeMap::range","RedBlackTreeSet::range"])
p("P09","No operation on one version of a collection changes another version",
  "After any operation on a collection, persistent or in-place, every other version obtained earlier by cloning or by a persistent operation still has exactly the length, elements, order and lookups it had before. This holds for all eight collections, for every pattern of sharing between versions, and also once other versions are dropped.",
  ["histories","inputs"],"all histories that fork versions at arbitrary points and continue on any of them, for every element and key value",
  "Tests compare one old version after one operation; they do not fork versions at every point and mutate on either side of the fork.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS,UT],[("copy-on-write of shared nodes",LIST+", "+VEC+", "+HT+", "+RB+": SharedPointer::make_mut at each mutation"),("content replacement",UT+": replace")],["all read operations of every collection"])
p("P10","Persistent and in-place forms of an operation agree",
  "For every collection state and argument, the persistent form of an operation returns a collection equal to the one the in-place form leaves behind, and reports success in exactly the same cases. The persistent form leaves its receiver equal to what it was.",
  ["inputs","histories"],"all reachable states of every collection, all arguments",
  "Tests exercise both forms on separate fixed examples, not on the same arbitrary state.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("persistent forms delegate to in-place forms on a clone",LIST+", "+VEC+", "+Q+", "+ST+", "+HT+", "+RB)],["push_front/push_front_mut, drop_first/drop_first_mut, reverse/reverse_mut, set/set_mut, push_back/push_back_mut, drop_last/drop_last_mut, enqueue/enqueue_mut, dequeue/dequeue_mut, push/push_mut, pop/pop_mut, insert/insert_mut, remove/remove_mut"])
p("P11","Vector, List, Queue and Stack iteration is complete, ordered and sized",
  "Iterating a Vector, List, Queue or Stack yields exactly its elements in order, each once, then None, and the reported remaining length is exact at every step. A Vector iterator may be consumed from both ends in any interleaving without repeating or skipping an element.",
  ["histories","programs","inputs"],"all histories that build the collection, all lengths across internal node boundaries and all interleavings of next and next_back",
  "Tests check a few lengths and interleavings.",
  [VEC,LIST,Q,ST],[("vector iteration stacks",VEC+": IterPtr"),("list iteration",LIST+": IterPtr"),("lazily reversed iteration",Q+": LazilyReversedListIter")],["iter, into_iter, size_hint, next_back"])
p("P12","HashTrieMap and HashTrieSet iteration yields each entry exactly once",
  "Iterating a HashTrieMap (entries, keys or values) or a HashTrieSet yields every entry exactly once, with its current key and value, and then None; the reported remaining length is exact at every step. This holds for every hash assignment, including collisions.",
  ["histories","inputs","configurations"],"all histories, all 64-bit hash assignments, all degrees",
  "Tests iterate maps of sequential integers and check counts.",
  [HT,HS],[("explicit iteration stack",HT+": IterPtr, IterStackElement")],["HashTrieMap::{iter,keys,values}","HashTrieSet::iter"])
p("P13","HashTrieSet behaves as a mathematical set",
  "Whatever history of inserts and removes produced it, a HashTrieSet answers contains, get, remove, size and emptiness as a mathematical set would, for every hash assignment. Subset, superset and disjointness between two sets, also with different hashers, are exactly the mathematical relations.",
  ["histories","inputs"],"all pairs of histories, all elements, all hash assignments",
  "Tests compare a few literal sets.",
  [HS,HT],[("set operations over the map",HS+": is_disjoint, is_subset, is_superset")],["HashTrieSet::{contains,get,insert,remove,size,is_subset,is_superset,is_disjoint}"])
p("P14","RedBlackTreeSet behaves as a mathematical ordered set",
  "Whatever history of inserts and removes produced it, a RedBlackTreeSet answers contains, get, remove, size, first and last as a mathematical ordered set would and iterates in strictly ascending order. Subset, superset and disjointness between two sets are exactly the mathematical relations.",
  ["histories","inputs"],"all pairs of histories and all relative orders of elements",
  "Tests compare a few literal sets; the merge-style relation algorithms depend on how the two sets interleave.",
  [RS,RB],[("merge-based set relations",RS+": is_disjoint, is_subset")],["RedBlackTreeSet::{contains,get,insert,remove,size,first,last,is_subset,is_superset,is_disjoint,iter}"])
p("P15","Equality is equality of contents, whatever the history",
  "Two collections of the same type compare equal exactly when they hold the same elements (in the same order for sequences; the same key-value pairs for maps; the same members for sets), no matter by which histories they were built, which pointer kind they use, or whether they share memory, for elements whose own equality is an equivalence relation. Equality is symmetric.",
  ["histories","inputs"],"all pairs of collections built by arbitrary histories, for every element, key and value",
  "Tests compare small literals built one way.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("PartialEq implementations and pointer-equality shortcuts",LIST+", "+VEC+", "+Q+", "+ST+", "+HT+", "+RB+", "+HS+", "+RS)],["==, !="])
p("P16","Ordering and hashing are consistent with equality",
  "For the collections that offer them, comparison is the lexicographic order of their element sequences (entries in key order for trees), agrees with its partial form, and says equal exactly when == does. Equal collections feed identical data to a hasher whatever their histories, and collections of different lengths or contents that are hashed one after another feed different data from their concatenation.",
  ["inputs","histories"],"all pairs of collections built by arbitrary histories, all element values",
  "Tests compare a few literals; hash and order laws are relations between arbitrary pairs of values.",
  [LIST,VEC,Q,ST,RB,RS],[("Ord/PartialOrd/Hash implementations",LIST+", "+VEC+", "+Q+", "+ST+", "+RB+", "+RS)],["cmp, partial_cmp, Hash::hash"])
p("P17","RedBlackTree operations compare O(log n) keys after every history",
  "In a RedBlackTreeMap or RedBlackTreeSet of n entries reached by any history of inserts and removes, any lookup compares the searched key with at most 2·log2(n+1) keys. Inserting or removing one key needs at most a small constant number of comparisons more.",
  ["histories","inputs"],"all histories of inserts and removes and every searched key",
  "Tests check the tree's colour invariants after random or sequential histories only; the deletion cases that lose balance need particular shapes.",
  [RB],[("red-black balancing on insert and delete",RB+": balance, remove_fuse, remove_balance*")],["number of Ord::cmp calls made by get/insert/remove"])
p("P18","Updates share structure instead of copying the collection",
  "Cloning any collection allocates nothing, and an update of one version of a tree- or trie-based collection of n elements allocates a number of nodes bounded by the depth of the structure, not by n; list, stack and queue insertions and list and stack removals allocate at most a constant. Elements are never duplicated: an element present before and after an update is the very same object in both versions.",
  ["histories","inputs"],"all collection states and update arguments",
  "Tests check contents, which a full copy would also satisfy; only resource use reveals lost sharing.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS,UT],[("shared nodes with copy-on-write path",LIST+", "+VEC+", "+HT+", "+RB)],["element addresses returned by get/iter in both versions; allocation count"])
p("P19","Every element is dropped exactly once, when its last holder goes",
  "An element stored in a collection stays alive as long as some version (or iterator) can still reach it, and is dropped exactly once when the last version holding it is dropped or overwrites it. After all versions are dropped no element and no memory is left behind.",
  ["histories"],"all histories over all collections, with versions dropped in any order",
  "Tests have one drop test for the list; leaks and late drops do not show in contents.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("reference-counted nodes",LIST+": Drop for List; all collections"),("last-element cache cleared when empty",LIST+": drop_first_mut")],["Drop calls of elements; live heap bytes"])
p("P20","Long lists are dropped with bounded stack in every interleaving",
  "Dropping, popping, reversing or iterating a List, Stack or Queue of any length uses an amount of call stack that does not grow with the length. For thread-safe lists it does not grow with the length either when other threads drop handles that share nodes at the same time, in every interleaving.",
  ["schedules","histories","inputs"],"all lengths, all sharing patterns and all interleavings of concurrent drops at reference-count operations",
  "The test suite drops one long unshared list on one thread; a race between two droppers is never scheduled.",
  [LIST],[("iterative teardown",LIST+": Drop for List")],["call depth while elements and nodes are released"])
p("P21","A panic in user code never corrupts other versions",
  "If a key comparison, equality, hash, element clone or source iterator supplied by the user panics during an operation and the panic is caught, every version other than the one being modified in place still has exactly its former contents, and nothing is dropped twice or used after being freed. Lookups and persistent operations leave even their receiver intact.",
  ["fault_sequences","histories"],"all states, operations and positions of the panic among the user-code calls an operation makes",
  "No test injects panics.",
  [LIST,VEC,HT,RB,HS,RS,UT],[("copy-on-write before mutation; no unsafe state while calling user code",HT+": Bucket, list_remove_first; "+RB+": insert, remove")],["contents of all surviving versions after catch_unwind; drop counts"])
p("P22","Serialization round-trips every collection",
  "Serializing any collection and deserializing the result yields an equal collection (same order for sequences), with sequences written in iteration order and maps as key-value entries. Deserializing arbitrary input data behaves as inserting its items in order (later duplicates win), whatever length hint the input announces, and an error in the middle is returned as an error.",
  ["inputs","histories"],"all collections, all element values, all announced length hints and error positions",
  "Tests round-trip one small literal per collection through JSON, which announces no length.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("serde impls",LIST+" serde; "+VEC+" serde; "+Q+" serde; "+ST+" serde; "+HT+" serde; "+RB+" serde; "+HS+" serde; "+RS+" serde")],["Serialize/Deserialize"])
p("P23","Building from an iterator equals inserting its items one by one",
  "Collecting any iterator into a collection, extending a Vector, or using the construction macros gives a collection that holds the items in the iterator's order (for a Stack, its first item is on top); for maps and sets the same as inserting the items one after another, so that later duplicates win. This holds for every iterator, whatever legal size hint it reports.",
  ["inputs"],"all item sequences and all legal size hints (lower bound, upper bound, none)",
  "Tests collect from vectors, whose hints are exact.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("FromIterator/Extend/macros",LIST+": from_iter, list!; all collections")],["FromIterator, Extend, list!/vector!/queue!/stack!/ht_map!/ht_set!/rbt_map!/rbt_set!"])
p("P24","Parallel iteration visits every entry exactly once in every schedule",
  "Parallel iteration over a HashTrieMapSync hands every entry of the map to the consumer exactly once, for every way the work can be split, scheduled and reordered, and for every shape of the map including hash collisions. A consumer that has signalled it is full is handed no further entry, and short-circuiting searches find an entry exactly when one exists.",
  ["schedules","inputs","histories"],"all split and order decisions of the scheduler, all maps",
  "Tests run whatever splits the thread pool happens to make, without forced collisions.",
  [RY,HT],[("producer split and fold",RY+": HashTrieMapProducer::{split,fold_with,from_nodes}")],["into_par_iter().{collect,count,sum,any,find_any}"])
p("P25","Display prints exactly the contents in iteration order",
  "Formatting a collection with Display prints its elements in iteration order, separated by comma and space, inside the collection's delimiters (square brackets for sequences, braces with key: value for maps, braces for sets, Queue(...) and Stack(...) style wrappers for the others), with nothing extra for empty or single-element collections. Formatter errors are propagated.",
  ["inputs","histories"],"all collections, all element values and all positions at which the writer fails",
  "Tests print literals with up to three elements.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("Display implementations",LIST+", "+VEC+", "+Q+", "+ST+", "+HT+", "+RB+", "+HS+", "+RS)],["to_string/format!"])
p("P26","Pointer equality implies equal contents and holds for clones",
  "When two maps or sets report that they are the same content in memory, they hold equal contents and size; a collection always reports it of itself and of a fresh clone. Removing an absent key with the persistent form keeps full sharing with the original.",
  ["histories","inputs"],"all pairs of versions related by arbitrary histories",
  "Tests check a few literal pairs.",
  [HT,RB,HS,RS],[("ptr_eq",HT+": ptr_eq; "+RB+": ptr_eq; remove keeps sharing when nothing changes")],["ptr_eq"])
p("P27","Hash lookups compare keys only when full hashes match",
  "A HashTrieMap or HashTrieSet operation evaluates user key equality only between keys whose 64-bit hashes are equal: a lookup or removal at most a small constant number of times per stored key of that hash, an insertion at most that many times per level of the trie. It hashes each given key a constant number of times. Stored keys are never rehashed.",
  ["histories","inputs","configurations"],"all histories, all hash assignments, all degrees",
  "Tests look at results only, and a degenerate structure (for instance everything in one bucket) would give the same results.",
  [HT,HS],[("cached hash comparison before key comparison",HT+": EntryWithHash::matches"),("trie descent by hash bits",HT+": node_utils::index_from_hash")],["number of Eq::eq and Hash::hash calls per operation"])
p("P28","Behaviour does not depend on the pointer kind",
  "The same history of operations gives the same observable results with every shared-pointer kind (reference-counted, atomic, and any user-supplied one), and collections with different pointer kinds and equal contents compare equal. A user-supplied pointer kind is only ever used through its documented contract.",
  ["configurations","histories"],"all histories and all conforming pointer kinds, including one that reports sharing whenever it is allowed to",
  "Tests use the two built-in kinds on separate fixed examples.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS,UT],[("generic SharedPointerKind parameter",LIST+", "+VEC+", "+HT+", "+RB)],["all read operations across pointer kinds"])
p("P29","Versions can be used and dropped by several threads at once",
  "With a thread-safe pointer kind, threads that each hold a version of a collection may read it, update it and drop it at the same time although the versions share memory. In every interleaving each thread sees exactly the contents its own operations produce, no thread panics, and every element and node is released exactly once.",
  ["schedules","histories"],"all interleavings of the threads' operations at the points where they touch shared reference counts, all operations, all sharing patterns",
  "Tests use one thread; whether another owner disappears between two looks at a reference count is never scheduled.",
  [LIST,VEC,HT,RB,Q,ST,UT],[("copy-on-write by make_mut and get_mut; taking apart what is not shared any more",LIST+": Drop for List, drop_first_mut; "+VEC+": Node::assoc; "+HT+": Node::insert; "+RB+": Node::insert, replace_with_and_return usage; "+UT)],["results and contents in each thread; drop counts"])
p("P30","Every operation costs what its documentation promises",
  "The documentation gives a complexity for every operation. The number of nodes an operation looks at stays within a constant factor of it for every history: constant-time operations look at a number of nodes that does not grow with the collection, logarithmic ones follow one path of the tree or trie (a range looks for its ends along one path each), a queue's dequeue is constant when averaged over a history of one version, and a full iteration is linear.",
  ["histories","inputs","configurations"],"all histories, states, keys, degrees and hash assignments",
  "Tests look at results only; an operation that walks the whole collection gives the same results.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("complexity tables of the documentation",LIST+"; "+VEC+"; "+Q+"; "+ST+"; "+HT+"; "+RB+"; "+HS+"; "+RS)],["number of shared nodes looked at by each operation, counted by a user-supplied pointer kind"])
p("P31","What a collection holds depends on its contents, not on its history",
  "After any history, once all other versions are gone, a collection holds on to no more nodes, up to a small constant, than one freshly built with the same contents. In particular removing everything gives the memory back, and a removed element is not kept alive.",
  ["histories","inputs","configurations"],"all histories, degrees and hash assignments",
  "Tests look at contents; nodes left behind by a removal do not show in them.",
  [LIST,VEC,Q,ST,HT,RB,HS,RS],[("compression after removal",HT+": Node::compress"),("root and branches cut on removal",VEC+": drop_last, compress_root")],["live nodes counted by a user-supplied pointer kind"])
p("P32","Inconsistent keys never break memory safety, termination or other versions",
  "If a key's equality, order or hash answers inconsistently (a logic error of the user), an operation of the maps and sets may give any result or panic. It still ends, every other version keeps exactly its contents, no element is used after it was dropped or dropped twice, and nothing leaks unless something panicked.",
  ["inputs","histories","configurations"],"all answers of equality, order and hash, all operations, all starting states",
  "Tests use consistent keys only.",
  [HT,RB,HS,RS],[("decisions taken from key comparisons",HT+": EntryWithHash::matches, node_utils::hash; "+RB+": Node::insert, Node::remove, remove_fuse")],["insert, remove, get_mut and every read with keys of arbitrary equality, order and hash"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
