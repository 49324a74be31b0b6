#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed checks and the reason for each property not claimed."""
import json
AI = "abstract interpretation of the SSA form with a linear-arithmetic, key-order and lazily expanded heap domain"
PTS = "context- and field-sensitive points-to and effect analysis of the SSA form"
LOCK = "lockset, lock-order and typestate analysis by abstract interpretation of the SSA form"
BITS = "bit-provenance and order-case dataflow over the SSA form"
FLOW = "path-sensitive dataflow over SSA with per-function summaries"
CLAIMED = {
 "C01": (AI + "; " + PTS, "every operation of the immutable AVL tree and its nodes on trees of any size and shape: no store to a node that existed before, each recursive function checked inductively against its contract; iterators never re-read the tree's root. User code writing through exported fields does not arise: nodes export none"),
 "C06": (AI, "every operation of both AVL trees and their nodes on trees of any size and shape: in-order contents before and after are compared as words over unknown subtrees, each recursive function checked inductively against its contract; balance and termination are not decided"),
 "C08": (AI, "Put, Get, Has, Remove, Size, growth, the iterators and the bucket choice on tables of any size with chains of any length, as seen by one arbitrary key with an arbitrary hash; chain functions and growth are checked inductively against their contracts; termination is not decided"),
 "C09": (AI, "Put (with bucket splitting), Get, Has, Remove, Size and the iterators of a linear hash table of any size and level, as seen by one arbitrary key with an arbitrary hash; the search trees in the buckets are assumed to keep their contracts; tables of more than 2^62 buckets are not covered"),
 "C19": (AI, "Range, Find, Replace, RemoveWhere, Has, Count of the multimap and Get, Has, Put, Remove of the map, on trees of one leaf and of two leaves under an inner node, leaves of any size with any sorted contents and any keys asked for: every entry shown, offered, overwritten or returned lies within the bounds, and an absent key changes nothing. Trees with more leaves, and whether a range leaves nothing out, are not covered"),
 "C20": (AI, "every operation of the B+tree map and multimap on trees of any shape and node size; the changes of the number of keys of all leaves are added up symbolically and compared with the change of the size; what insertion and removal do below an inner node is a contract checked on an arbitrary node. That a search reaches the leaf holding the key is assumed, and an entry lost by unlinking a whole non-empty leaf is not noticed"),
 "C21": (AI, "client loops over the iterators of every container: views and adapters over an underlying iteration of which nothing is known (each element shown once, in order, with the right component, the end passed on exactly when it comes), arrays and linked lists by position, hash tables through one arbitrary key, tree node children, the heads of the trie. The explicit-stack traversals and the walk along the leaves of the B+tree are taken as given here"),
 "C26": (AI, "Equals, Less and Hash of every sequence container on contents of any length, against every kind of container and one unknown to the library; the hash is decided by what is fed into it, in which order and form"),
 "C27": (AI, "blocks with any number of handlers and finally actions, each of which may return, raise an exception or panic otherwise; the close helper; the throwing functions; the test which type extends which on chains of embedded structs of any length. What remains to run after a failing finally action is not specified"),
 "C17": (AI, "Push, Pop, Peek and Size of min and max heaps of any size: every parent/child pair is ordered afterwards, the items are those before plus or minus one, and the answer is the best; heaps of more than 2^61 entries and termination are not covered"),
 "C12": (AI, "every operation of sorted lists (with and without duplicates) and sorted sets on sorted contents of any length, relative to an arbitrary item described by where it belongs; bulk operations are shown to work only through Add; termination of the search is not decided"),
 "C15": (AI, "every operation of the linked list on lists of any length: links, both reading directions and size afterwards are those of the expected sequence"),
 "C13": (AI, "every set operation and test on every combination of set kinds (including a set type unknown to the library), for arbitrary operands: decided by what happens to one arbitrary item x; assumes the element containers keep their contracts"),
 "C14": (AI, "every method of both adapters over a container described only by what it holds for one arbitrary key x, full or not; iterators driven by client loops; assumes the container underneath keeps its contract"),
 "C16": (AI, "every operation of the unique deque and the unique priority queue from every state in which queue and set agree about an arbitrary item x; assumes the queue and set underneath keep their contracts"),
 "C32": (AI + "; " + FLOW, "every single-item operation that can report an error: list operations by abstract interpretation (every index of the content unchanged), wrappers over models of their parts, all others by showing that no path writes to existing memory before returning the error; internal consistency errors of the trees are assumed not to occur"),
 "C31": (FLOW, "every call in an exported operation that can report an error: on every path the failure is returned, turned into a documented answer, or shown impossible; callbacks and interface callees may always fail"),
 "C23": (BITS, "every scalar key type and every codec pair: each bit of the decoded value is traced to the same bit of the encoded one, for all values; wrong lengths reach an error on every path"),
 "C25": (BITS, "every built-in key type: all orderings of up to three values, of the same and of different types; hashes are shown to be functions of what equality compares"),
 "C02": (PTS, "every exported trie operation with arbitrary arguments: no write to an existing node or stored key; iterators never re-read the root table. That the enumeration over the unchanged nodes is complete is C22's"),
 "C03": (PTS, "every exported operation or codec taking a slice, with arbitrary arguments"),
 "C04": (PTS, "every copying constructor, Copy method and set operation, with arbitrary arguments; items themselves are shared by design"),
 "C05": (PTS, "every exported query and every iterator it returns, with arbitrary arguments; user-supplied item methods are assumed pure"),
 "C10": (AI, "every path of every list operation on an arbitrary list; elements observed at an arbitrary position and its neighbours"),
 "C28": (LOCK, "every exported pool method and worker body against an arbitrary pool; other goroutines' effects are havocked at each lock acquisition. Fairness and jobs that panic are not covered"),
 "C29": (LOCK, "every path of every exported pool method and worker body; locks identified by address"),
 "C30": (LOCK, "every method of the locked source and every use of the wrapped source in the package"),
 "C33": (AI, "every exported constructor with arbitrary valid sizes, then every exported method with arbitrary arguments and every returned iterator; containers passed as arguments are themselves empty, B+tree node size at least 2"),
 "C11": (AI, "every path of every size-changing operation on an arbitrary full or non-full fixed-size list, plus constructors and copies"),
}
NA = {
 "C07": "not built: relating a path of the ternary trie to the key it spells needs words over characters in the heap domain, which is not there; C02, C05, C21 and C33 cover the trie's persistence, purity, iteration filter and empty cases (DESIGN.md)",
 "C18": "not built: finding a key needs the order of the whole leaf chain and its agreement with the index above it, which the heap domain cannot express (see C35)",
 "C22": "not built: the meaning of an explicit stack as the rest of a traversal is not expressed by the domains; the children a traversal asks for are decided by C21",
 "C24": "not built: offsets that depend on the lengths of all earlier items are not expressed by the domains; dropped codec errors are decided by C31",
 "C34": "needs a numeric potential argument over recursive heights; the current code does not keep AVL balance (DESIGN.md), so there is nothing true to claim",
 "C35": "ordering across whole multi-level trees with duplicate runs needs an inductive invariant over leaves linked across subtrees, which the heap domain cannot express (DESIGN.md)",
}
DEFAULT = "check not built yet"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bin/dsv -property {i}", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, DEFAULT)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo's current source (type-checked, SSA form) and never run it. Violations are listed in evidence/<id>.violations.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
