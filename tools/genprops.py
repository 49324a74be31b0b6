#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property; edit here, re-run."""
import json, os

OUT = []

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

P("C01", "Versions of an immutable AVL tree never change",
  "A root or an iteration obtained from an immutable AVL tree keeps showing exactly the entries it showed when it was obtained, whatever insertions and removals are later made through the tree. No insertion, removal, rotation or lookup ever writes into a node that was already part of an earlier version.",
  ["histories", "inputs"], "all histories of insertions/removals before and after a version is obtained, all keys and tree shapes",
  "The tests keep a version only across a handful of hand-picked operations; a write into a shared node is visible only through a retained old version and for the shapes that reach that rotation or removal case.",
  ["tree/avl/imm_avltree.go"],
  [("copy before write", "ImmutableAvlNode.Copy, Put, Remove, pop_node, push_node, rotate"),
   ("version swap at the tree", "ImmutableAvlTree.Put, ImmutableAvlTree.Remove")],
  [("root", "current version", "ImmutableAvlTree.root")],
  ["Root()", "Iterate()", "Get()"])

P("C02", "Trie iterations are snapshots; insert/remove never touch existing nodes",
  "An iteration or prefix search obtained from a ternary search trie keeps enumerating the entries that were present when it was created, whatever is inserted or removed afterwards. Insertion and removal build new nodes along the changed path and never write into a node that was already reachable from the trie.",
  ["histories", "inputs"], "all interleavings of open iterations with later insertions and removals",
  "Tests iterate a finished trie; none keeps an iteration open across an insertion or a removal.",
  ["trie/tst.go", "trie/tst_node.go"],
  [("path copying in insert", "TSTNode.insert, TSTNode.split, TSTNode.Copy"),
   ("path copying in remove", "TST.Remove")],
  [("heads", "first-character table", "TST.heads")],
  ["Iterate()", "PrefixFind()"])

P("C03", "Slices passed in by the caller are never modified or kept",
  "No operation writes to the memory behind a slice handed to it by its caller (including spare capacity behind the slice), and none keeps that memory inside the container after returning. A caller may reuse or modify a key, an input list or an encoded buffer as soon as the call returns without affecting the container.",
  ["inputs", "histories"], "all keys and buffers, including slices of larger buffers with spare capacity, and all later uses of those buffers",
  "Tests pass freshly converted strings or private buffers, so neither a write past the slice's length nor later reuse of the buffer is ever observed.",
  ["trie/tst.go", "list/array_list.go", "list/sorted.go", "set/sortedset.go", "types/string.go", "types/util.go"],
  [("terminated private key", "TST.Put, TST.Get, TST.Remove"),
   ("copying constructors", "list.FromSlice, set.FromSlice"),
   ("decoders", "ByteSlice.UnmarshalBinary, MList.UnmarshalBinary")],
  [], ["caller's slices after the call", "later lookups"])

P("C04", "Copies and derived containers share no storage with their source",
  "A container obtained by copying another one, by building it from a slice, or as the result of a set operation shares no modifiable storage with its source: changing either one afterwards never shows in the other.",
  ["histories", "inputs"], "all sources (including ones with spare capacity) and all later changes to either side",
  "Tests compare a copy with its source once; sharing shows only when one side is modified in place later, and only while both still fit the shared storage.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go", "set/ops.go", "set/mapset.go"],
  [("copying", "List.Copy, Sorted.Copy, SortedSet.Copy"), ("constructors", "list.FromSlice, set.FromSlice, SortedFromSet"),
   ("set algebra results", "set.Union, set.Intersect, set.Subtract, SortedSet.Union")],
  [], ["Items() of both sides"])

P("C05", "Queries never modify the container or their arguments",
  "Looking things up, counting, comparing, hashing, encoding, printing and iterating never change a container or any container or item passed as an argument, so queries commute with each other. The results of set operations leave both operands unchanged.",
  ["inputs", "histories", "schedules"], "all query operations of all containers, on all contents, in all orders (and from concurrent readers)",
  "A unit test of a query checks its answer, not that nothing else moved; a hidden write shows only in a later operation or under concurrent readers.",
  ["hashtable/hashtable.go", "hashtable/linhash.go", "heap/pq.go", "heap/unique.go", "linked/linked.go", "linked/unique.go", "list/array_list.go", "list/sorted.go", "set/mapset.go", "set/setmap.go", "set/sortedset.go", "set/ops.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go", "tree/bptree/bptree_node.go", "trie/tst.go", "tree/util.go", "types/util.go"],
  [("read-only bodies", "every Has/Get/Find/Size/Items/Iterate/Equals/Less/Hash/Count/Range/Peek/First/Last/MarshalBinary/String method")],
  [], ["any later query"])

P("C06", "AVL trees are exact maps kept in key order",
  "After any history of insertions and removals, both AVL trees report exactly the keys inserted and not since removed, each with the value last inserted for it, and their structure stays in key order. Removing a present key returns its value and removes only it; looking up or removing an absent key is an error that leaves every entry in place.",
  ["histories", "inputs"], "all histories of insert/remove/lookup over all keys and tree shapes",
  "Tests follow one random history with distinct random keys; most orderings of key against a node on a restructured path, and removal from two-child nodes after rotations, are not forced.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go"],
  [("descent", "AvlNode.Has/Get/Put/Remove, ImmutableAvlNode.Has/Get/Put/Remove"),
   ("restructuring", "rotate_left, rotate_right, pop_node, push_node, _md")],
  [("left/right/key", "search order", "AvlNode, ImmutableAvlNode")],
  ["Has()", "Get()", "Remove()"])

P("C07", "The ternary search trie is an exact map from byte strings",
  "After any history of insertions and removals, the trie reports exactly the byte-string keys inserted and not since removed, each with its last value, including keys that are prefixes of one another and keys re-inserted after removal. An absent key is reported as an error and no operation on valid keys crashes.",
  ["histories", "inputs"], "all histories over all NUL-free non-empty keys, including prefix-related keys and reinsertion",
  "Tests insert, query and then remove random keys once; they never re-insert after removal and rarely produce keys that are prefixes of each other.",
  ["trie/tst.go", "trie/tst_node.go"],
  [("descent by character", "TST.Get, TSTNode.insert, TST.Remove"), ("leaf splitting", "TSTNode.split"), ("key validation", "ValidateKey")],
  [("heads/l/m/r", "trie structure", "TST, TSTNode")],
  ["Has()", "Get()", "Put()", "Remove()"])

P("C08", "The chained hash table is an exact map across growth",
  "After any history of insertions and removals, the chained hash table reports exactly the keys inserted and not since removed, each with its last value, and its size is the number of such keys. This holds for colliding hashes, any hash value, and across every growth of the table.",
  ["histories", "inputs"], "all histories, all hash values (including extreme ones) and all collision patterns, all growth points",
  "Tests use random strings that rarely collide and never produce extreme hash values; growth is crossed only for one insertion history.",
  ["hashtable/hashtable.go"],
  [("chain operations", "entry.Put/Get/Remove"), ("bucket choice", "Hash.bucket"), ("growth", "Hash.expand")],
  [("table/size", "buckets and element count", "Hash")],
  ["Has()", "Get()", "Size()"])

P("C09", "The linear hash table is an exact map across bucket splits",
  "After any history of insertions and removals, the linear hash table reports exactly the keys inserted and not since removed, each with its last value, and its size is the number of such keys; splitting a bucket neither loses nor duplicates an entry.",
  ["histories", "inputs"], "all histories, hash values and split points",
  "Tests insert one set of random keys; an entry lost by one split is visible only if exactly that key is looked up afterwards.",
  ["hashtable/linhash.go"],
  [("bucket choice", "LinearHash.bucket"), ("splitting", "LinearHash.split"), ("per-bucket trees", "LinearHash.Put/Get/Remove")],
  [("table/n/i/r", "buckets, bucket count, address bits, records", "LinearHash")],
  ["Has()", "Get()", "Size()"])

P("C10", "Array lists behave as sequences with checked indices",
  "Inserting, removing, setting, appending and popping change exactly the addressed position and keep all other items in order, whatever reallocation happens. An index outside the list is refused with an error, never a crash, and leaves the list unchanged; a valid index is never refused.",
  ["inputs", "histories"], "all list contents, lengths, capacities and integer indices (including negative ones)",
  "Tests use a few lengths and mostly in-range indices, so boundary index/length/capacity combinations at growth and shrink are not all met.",
  ["list/array_list.go"],
  [("shifting", "List.Insert, List.Remove"), ("index checks", "List.Get, List.Set, List.Insert, List.Remove, List.Pop"), ("resizing", "List.expand, List.shrink")],
  [("list", "backing slice", "List.list")],
  ["Get()", "Size()", "Items()"])

P("C11", "Fixed-size lists and sets never outgrow their capacity",
  "A list or set created with a fixed size never holds more items than that size: any insertion into a full one is refused with an error and leaves it unchanged. Lists without a fixed size always accept a valid insertion.",
  ["histories", "inputs"], "all histories of insertions and removals through every insertion operation",
  "Only one insertion path of a full fixed list is tested; every insertion operation and every resize must respect the limit.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go"],
  [("full check", "List.Full, List.expand, List.shrink"), ("insertion paths", "List.Append, List.Insert, List.Extend, Sorted.Add")],
  [("fixed/cap(list)", "limit", "List")],
  ["Append() error", "Size()"])

P("C12", "Sorted lists and sorted sets stay sorted and search exactly",
  "A sorted list is in non-decreasing order after every operation and a sorted set is strictly increasing. Searching reports the first position holding an equal item when there is one, and otherwise the position where the item belongs; membership, deletion and retrieval act on an equal item and on nothing else.",
  ["histories", "inputs"], "all sorted contents with and without duplicates, all search items",
  "Random tests hit few duplicate runs and few boundary positions of the binary search.",
  ["list/sorted.go", "set/sortedset.go"],
  [("binary search", "Sorted.Find"), ("ordered insertion", "Sorted.Add"), ("deletion", "Sorted.Delete, Sorted.Remove")],
  [("list", "sorted storage", "Sorted.list")],
  ["Find()", "Has()", "Items()"])

P("C13", "Union, intersection, difference and subset tests follow set logic",
  "An item is in the union exactly if it is in either operand, in the intersection exactly if in both, and in the difference exactly if in the first and not the second. Subset, superset, proper-subset, proper-superset and overlap tests answer according to the same membership, for every kind of set.",
  ["inputs"], "all pairs of operands, all set implementations",
  "Tests use a few small example sets; an error in one merge branch or one relation's direction needs operands of a particular relative order and size.",
  ["set/ops.go", "set/sortedset.go", "set/mapset.go", "set/setmap.go"],
  [("generic algebra", "Union, Intersect, Subtract, Subset, ProperSubset, Superset, ProperSuperset"), ("merge of sorted sets", "SortedSet.Union, SortedSet.Overlap"),
   ("delegation", "MapSet.*, SetMap.*, SortedSet.* set operations")],
  [], ["result membership"])

P("C14", "Map-as-set and set-as-map adapters keep map semantics",
  "A map built on a set stores one value per key, the last one put; looking up, removing and testing a key go by the key alone and return the stored value. A set built on a map contains exactly the items added and not deleted, and its size and iteration are those of the map's keys.",
  ["histories", "inputs"], "all histories of puts, removals and lookups including repeated keys",
  "Tests never put a second value under an existing key and read it back, and never remove through the adapter after an overwrite.",
  ["set/mapset.go", "set/setmap.go", "types/map_entry.go"],
  [("entry keyed by key only", "MapEntry.Equals/Less/Hash"), ("adapter methods", "MapSet.Put/Get/Remove/Has, SetMap.Add/Delete/Has")],
  [], ["Get()", "Size()"])

P("C15", "The linked list is an exact double-ended queue",
  "Adding at an end makes the item first or last there; removing from an end returns that end's item; everything else keeps its order, read forwards or backwards, and the size is the number of items. Reading or removing from an empty list is an error and changes nothing.",
  ["histories", "inputs"], "all histories of operations on both ends, at all lengths",
  "Tests drive a few sequences; a stale link to a removed neighbour shows only after later operations from the other end.",
  ["linked/linked.go"],
  [("end operations", "LinkedList.EnqueFront/EnqueBack/DequeFront/DequeBack"), ("reading", "First/Last/Items/Backwards")],
  [("Head/Tail/Length, Next/Prev", "doubly linked chain", "LinkedList, Node")],
  ["Items()", "Backwards()", "Size()"])

P("C16", "Unique queues never hold duplicates and agree with their own membership",
  "A unique deque or unique priority queue never holds two equal items: adding an item already held changes nothing, and an item can be added again once it has been taken out. Membership, size and contents always agree.",
  ["histories", "inputs"], "all histories of adds and removes at both ends or by priority",
  "The queue and its membership set are two structures; tests do not force every operation that must update both (each end, pop, peek, failures).",
  ["linked/unique.go", "heap/unique.go"],
  [("paired updates", "UniqueDeque.EnqueFront/EnqueBack/DequeFront/DequeBack, UniquePQ.Add/Push/Pop")],
  [("queue+set / pq+set", "the two structures kept in step", "UniqueDeque, UniquePQ")],
  ["Has()", "Size()", "Items()"])

P("C17", "Heaps always deliver the extreme priority first",
  "A minimum heap always pops an item of least priority and a maximum heap one of greatest priority, whatever the mix of pushes and pops. Pushing then popping neither loses nor duplicates items, and an empty heap is reported as such.",
  ["histories", "inputs"], "all histories of pushes and pops, all priority patterns including ties, both directions",
  "Random tests check few heap shapes; a wrong child choice or comparison with ties needs particular shapes.",
  ["heap/pq.go"],
  [("sift up/down", "Heap.fixUp, Heap.fixDown"), ("comparison", "Heap.gte, Heap.lt"), ("push/pop", "Heap.Push, Heap.Pop")],
  [("list/min", "heap array and direction", "Heap")],
  ["Pop()", "Peek()"])

P("C18", "B+tree nodes keep keys, values, children and leaf links consistent",
  "Inside the B+tree, every key keeps its own value or child through every insertion, split and removal, keys in a node stay in order, and the chain of leaves used for scans links every leaf in both directions. Therefore no scan or lookup pairs a key with another key's value or skips a leaf.",
  ["histories", "inputs"], "all node fill levels, positions of insertion/removal and splits",
  "Tests check a few node sizes; a mispaired shift or link at one boundary position needs that exact position and fill level.",
  ["tree/bptree/bptree_node.go"],
  [("paired array updates", "BpNode.put_kv, put_kp, put_key_at, put_value_at, put_pointer_at, remove_key_at, remove_value_at, remove_ptr_at, balance_nodes"),
   ("leaf links", "insert_linked_list_node, remove_linked_list_node"), ("search in node", "BpNode.find")],
  [("keys/values/pointers/next/prev", "node contents", "BpNode")],
  ["Iterate()", "Get()"])

P("C19", "B+tree range operations only touch keys inside the requested range",
  "A range query, forwards or backwards, yields only entries whose key lies between the two bounds; finding, replacing or removing by key touches only entries with exactly that key. An absent key, smaller or larger than everything stored, affects nothing.",
  ["inputs", "histories"], "all bounds (present, absent, below, between and above stored keys) and all contents including empty",
  "Tests query keys that are present; bounds falling outside or between stored keys are not exercised.",
  ["tree/bptree/bptree.go", "tree/bptree/bpmap.go", "tree/bptree/bptree_node.go"],
  [("bound checks", "BpNode.forward, BpNode.backward"), ("by-key operations", "BpTree.Find/Replace/RemoveWhere, BpMap.Get/Put/Remove")],
  [], ["Range()", "Find()", "Replace()", "RemoveWhere()"])

P("C20", "B+tree sizes equal the number of stored entries",
  "The size reported by a B+tree map or multimap is always the number of entries it stores: it grows by one exactly when an entry is added, shrinks by exactly the number of entries removed, and does not change when an operation only replaces a value, finds nothing to remove, or fails.",
  ["histories", "inputs"], "all histories of add/put/replace/remove including no-op and multi-entry removals",
  "Tests only remove one present entry at a time.",
  ["tree/bptree/bptree.go", "tree/bptree/bpmap.go"],
  [("counter updates", "BpTree.Add, BpTree.RemoveWhere, BpMap.Put, BpMap.Remove")],
  [("size", "element counter", "BpTree.size")],
  ["Size()"])

P("C21", "Every iterator follows the end-of-iteration protocol",
  "Every iterator returns a usable next step together with each item and no next step exactly when it is exhausted, so the standard loop visits each item once and stops. Key, value, entry and mapped views built on an iteration show the same sequence, each with the right component.",
  ["inputs"], "all containers, contents (including empty) and all iterator adapters",
  "Tests mostly loop over non-empty containers; ending one early or signalling the end together with an item shows only at particular contents.",
  ["types/util.go", "hashtable/hashtable.go", "hashtable/linhash.go", "linked/linked.go", "list/array_list.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go", "tree/util.go", "trie/tst.go", "trie/tst_node.go", "set/mapset.go", "heap/pq.go"],
  [("closure iterators", "Items, Keys, Values, Iterate, Backward(s), Range, PrefixFind"), ("adapters", "MakeKVIteratorFromTreeNodeIterator, MakeKeysIterator, MakeValuesIterator, MakeItemsIterator, ChainTreeNodeIterators")],
  [], ["the for x, next := it(); next != nil; x, next = next() loop"])

P("C22", "Tree traversals visit every node once in the promised order",
  "In-order, pre-order and post-order traversal visit every node of a tree exactly once, in the named order, for every tree including the empty one.",
  ["inputs"], "all trees of all shapes",
  "One fixed tree is traversed by the tests.",
  ["tree/util.go"],
  [("explicit stacks", "TraverseBinaryTreeInOrder, TraverseTreePreOrder, TraverseTreePostOrder")],
  [], ["traversal sequence"])

P("C23", "Encoding then decoding a scalar key type gives back the same value",
  "For every built-in integer, string and byte-string key type, decoding what encoding produced yields an equal value, for every value including negative and extreme ones; decoding input of the wrong length is an error.",
  ["inputs"], "every value of every type",
  "Only a few positive values of some types are ever encoded in tests; one-byte types and negative values are not.",
  ["types/int.go", "types/string.go", "types/util.go"],
  [("codecs", "MarshalBinary/UnmarshalBinary of Int8..UInt64, Int, UInt, String, ByteSlice"), ("marshal pairs", "IntMarshals, StringMarshals, ...")],
  [], ["UnmarshalBinary(MarshalBinary(x))"])

P("C24", "Encoding then decoding a list or set gives back an equal one",
  "Decoding the bytes produced by encoding a list, sorted list or sorted set yields the same items in the same order with the same fixed-size and duplicate settings; an error from any item's codec is reported, never dropped.",
  ["inputs", "fault_sequences"], "all contents, lengths and settings, and a failure of any item's encoder or decoder",
  "Tests encode a few lists with default settings; writer and reader agreeing on every header field is only seen for the values used.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go"],
  [("layout", "MList.MarshalBinary, MList.UnmarshalBinary"), ("settings byte", "MSorted.MarshalBinary, MSorted.UnmarshalBinary")],
  [], ["UnmarshalBinary(MarshalBinary(x))"])

P("C25", "Key types obey the equality, ordering and hash laws",
  "For every built-in key type equality and ordering are those of the underlying value: equal is symmetric and agrees with neither being less, less is a strict total order within the type, values of different types are neither equal nor ordered, and equal keys have equal hashes.",
  ["inputs"], "all pairs of values of all key types",
  "Containers depend on these laws for every pair of keys; tests compare a few.",
  ["types/int.go", "types/string.go", "types/map_entry.go", "linked/linked.go"],
  [("comparisons", "Equals/Less/Hash of Int8..UInt64, Int, UInt, String, ByteSlice, MapEntry, linked.Node")],
  [], ["Equals()", "Less()", "Hash()"])

P("C26", "Containers used as keys obey equality, ordering and hash laws",
  "Two lists, deques or sorted sets with equal items in the same order are equal and have equal hashes, whichever implementation each one is; a different length or a different item makes them unequal. Ordering between containers is a strict order consistent with that equality: a shorter container comes first, and with equal sizes the first differing item decides.",
  ["inputs"], "all pairs of containers, including empty ones and mixed implementations",
  "Tests compare a few small containers of the same kind.",
  ["list/array_list.go", "list/sorted.go", "linked/linked.go", "linked/unique.go", "set/sortedset.go"],
  [("item-wise comparison", "list.Equals, list.Less"), ("item-wise hash", "list.Hash, List.Hash")],
  [], ["Equals()", "Less()", "Hash()"])

P("C27", "Exceptions: the right handler runs and finally blocks always run",
  "When a protected block raises an exception, the first handler registered for its type (or a type it extends) runs exactly once with that exception, every finally action runs afterwards in order whether or not an exception was raised or handled, and an exception that no handler takes, or one raised by a handler or a finally action, is reported. A panic that is not an exception is passed on (and, as documented, skips what follows), and a resource opened by the close helper is closed exactly once whether the block using it returns or raises an exception.",
  ["inputs", "fault_sequences"], "all combinations of raising/not raising in block, handler and finally action, all handler lists",
  "Tests cover single combinations; the combination of a failing handler with several finally actions, or of a foreign panic, is not covered.",
  ["exc/block.go", "exc/exception.go"],
  [("dispatch", "Block.run, Block.exec"), ("resource helper", "Close"), ("re-raise", "Unwind, Rethrow, Throw")],
  [], ["Error()", "Exception()", "Unwind()"])

P("C28", "The worker pool runs every accepted job once and stopping waits for them",
  "Every job accepted by a worker pool is handed to exactly one worker and run exactly once, and jobs offered after stopping are refused with an error instead of crashing or vanishing. Stopping returns only after all accepted jobs have finished, and waiting for an idle pool returns only when no accepted job is unfinished.",
  ["schedules", "histories"], "all interleavings of submitting, waiting and stopping goroutines",
  "There are no pool tests, and the faults need a particular interleaving of submit, worker start-up and stop.",
  ["pool/pool.go"],
  [("submission and counting", "Pool.Do, Pool.WaitCount, Pool.WaitLock"), ("worker loop", "worker.work"), ("stopping", "Pool.Stop, worker.closeAndWait")],
  [("workers/workin", "live workers, unfinished jobs", "Pool")],
  ["Do()", "Stop()", "WaitLock()"])

P("C29", "Worker pool state is only touched under its locks, released on every path",
  "All shared state of a worker pool is read and written only while holding the lock that protects it, locks are always taken in the same order, and every lock is released on every path, so that no two goroutines race on it and no failure path leaves the pool locked.",
  ["schedules"], "all interleavings and all paths, including error paths",
  "There are no pool tests; a missing lock or a leaked lock on one path needs a rare schedule or that path.",
  ["pool/pool.go"],
  [("read/write lock and condition lock", "Pool.Do, Pool.WaitCount, Pool.WaitLock, Pool.Unlock, Pool.Stop, worker.work")],
  [("mu", "protects workers/offset", "Pool.mu"), ("workCond.L", "protects workin", "Pool.workCond")],
  ["race detector", "Do() from many goroutines"])

P("C30", "The thread-safe generator only touches its source under its lock",
  "Every draw from, and reseeding of, a thread-safe random generator happens under its lock and releases the lock on every path, so concurrent users never race on the underlying source; the generator obtained is always backed by that locked source.",
  ["schedules"], "all interleavings of concurrent users",
  "There are no tests of the generator; a race needs concurrent draws.",
  ["rand/rand.go"],
  [("locked source", "lockedSource.Int63/Uint64/Seed"), ("construction", "ThreadSafeRand")],
  [("lk/src", "lock and protected source", "lockedSource")],
  ["concurrent Int63()/Seed()"])

P("C31", "A failure inside an operation is never silently dropped",
  "Whenever a step inside a library operation reports an error, the operation either reports an error to its own caller or the step's failure is impossible by construction; no operation claims success after one of its own steps failed.",
  ["fault_sequences", "inputs"], "every failing step of every operation",
  "Inner steps almost never fail in tests, so a dropped error leaves them all passing.",
  ["list/array_list.go", "list/sorted.go", "set/mapset.go", "set/setmap.go", "set/ops.go", "set/sortedset.go", "hashtable/linhash.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go", "tree/bptree/bptree_node.go", "trie/tst.go", "trie/tst_node.go", "linked/unique.go"],
  [("error returns", "every call returning error")],
  [], ["returned error"])

P("C32", "An operation that reports an error leaves the container unchanged",
  "When a single-item operation on a container (insert, put, set, remove, pop, enqueue, dequeue, replace) returns an error, the container's contents and size are exactly as they were before the call.",
  ["inputs", "histories"], "every operation, every error path, all contents",
  "Tests check that an error is returned, not that nothing was half-done before it.",
  ["list/array_list.go", "list/sorted.go", "linked/linked.go", "hashtable/hashtable.go", "hashtable/linhash.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go", "trie/tst.go", "set/mapset.go", "set/setmap.go", "set/sortedset.go"],
  [("check before change", "every mutating method with an error result")],
  [], ["contents after an error"])

P("C33", "No operation on an empty container crashes",
  "Every operation on a freshly created, empty container returns normally, with an error, a not-found or an empty result as appropriate; none of them crashes.",
  ["inputs", "configurations"], "every exported operation of every container, on the empty container, with all arguments and constructor settings",
  "Tests exercise containers after filling them; the first operation on an empty one is tested for only a few methods.",
  ["hashtable/hashtable.go", "hashtable/linhash.go", "heap/pq.go", "heap/unique.go", "linked/linked.go", "linked/unique.go", "list/array_list.go", "list/sorted.go", "set/mapset.go", "set/setmap.go", "set/sortedset.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go", "tree/util.go", "trie/tst.go"],
  [("emptiness guards", "every exported method")],
  [], ["panic"])

P("C34", "AVL trees stay height balanced",
  "After any history of insertions and removals the height of an AVL tree is logarithmic in the number of its entries.",
  ["histories"], "all histories",
  "Tests never look at the height.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go"],
  [("balancing", "AvlNode.balance, ImmutableAvlNode.balance")],
  [("height", "cached height", "AvlNode.height")],
  ["Root() depth"])

P("C35", "The B+tree is an exact ordered multimap across splits and removals",
  "After any history of additions and removals a full scan of the B+tree yields exactly the stored entries in key order, and every key stored is found from the root.",
  ["histories", "inputs"], "all histories, node sizes and duplicate patterns",
  "Tests follow a few random histories.",
  ["tree/bptree/bptree_node.go", "tree/bptree/bptree.go", "tree/bptree/bpmap.go"],
  [("splits", "leaf_split, pure_leaf_split, internal_split"), ("removal", "leaf_remove, internal_remove")],
  [], ["Iterate()", "Has()"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT))
