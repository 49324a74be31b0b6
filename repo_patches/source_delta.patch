From f953846c58dcb288fed7b2093e4e46d992eb037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 01/23] fix: trie: do not write into or keep the caller's key
 slice

Put, Get and Remove appended the end marker to the key they were given.
When the slice had spare capacity the marker was written into the
caller's array, and Put kept that array as the stored key.
---
 trie/tst.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..21a1d85 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -38,7 +38,7 @@ func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +62,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +90,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := ByteSlice(append(key[:len(key):len(key)], END))
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8e2e4c6abb27ee1691abff65d7f00b5c0197a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 02/23] fix: types: copy the input when decoding a ByteSlice

The decoded value used the caller's buffer as its own storage, so reusing
the buffer changed the value.
---
 types/string.go | 2 +-
 types/util.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..7fe31ec 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..823ff6a 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,7 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		return append(ByteSlice{}, bytes...), nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 717e8acb5845d5fe9271989cf042dcc077f950fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 03/23] fix: trie: insert a key again after it was removed from
 under a longer one

The end-marker branch copied the middle child without checking for nil.
Put(a), Put(ab), Remove(a), Put(a) crashed.
---
 trie/tst_node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..393006f 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -169,8 +169,7 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			n.l = l
 		} else if ch == n.ch {
 			if d+1 == len(key) && ch == END {
-				n.m = n.m.Copy()
-				n.m.value = val
+				n.m = NewAcceptingTSTNode(ch, key, val)
 			} else {
 				m, err := n.m.insert(key, val, d+1)
 				if err != nil {
-- 
2.43.0


From a40db36196f9f27c5d053d325a63c35d11d69ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 04/23] fix: trie: drop an emptied head node on removal

Removing the last keys below a head left a node with no key and no
children. The next Put under that head failed to split it.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 21a1d85..44f4afc 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -136,7 +136,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bab0a53196479aa0787f4fec3e0a7dc3932fd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 05/23] fix: trie: PrefixFind with a prefix longer than the
 stored key

The stored key was sliced to the length of the prefix, which crashed when
the prefix was longer than its capacity.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 44f4afc..9e8091d 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -170,7 +170,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && len(prefix) < len(next.n.key) && next.n.key[:len(prefix)].Equals(prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 7501942433acebf709743af0e06e1e04b3e2b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:43 +0000
Subject: [PATCH 06/23] fix: count pool workers in the wait group before
 starting them

Each worker added itself to the wait group after its goroutine had
started, so Stop could return while accepted jobs were still queued.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From 3ae246f9b6d6e862b0878f67cce568376443da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:43 +0000
Subject: [PATCH 07/23] fix: make a repeated pool Stop wait for the workers too

A second Stop returned at once while the first was still waiting, so its
caller could go on while accepted jobs were unfinished.
---
 pool/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pool/pool.go b/pool/pool.go
index 0efbbf1..3f4ba0d 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -66,6 +66,7 @@ func (p *Pool) Stop() {
 	p.mu.Lock()
 	if len(p.workers) == 0 {
 		p.mu.Unlock()
+		p.wg.Wait()
 		return
 	}
 	workers := p.workers
-- 
2.43.0


From 92b650d64262574c82a109da966b8ba740d9bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:52 +0000
Subject: [PATCH 08/23] fix: give Int8 and UInt8 a byte to encode into

MarshalBinary wrote to index 0 of an empty slice and always panicked.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From f9c34df3b65483e1a69045d6c343ef065891b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:52 +0000
Subject: [PATCH 09/23] fix: encode Int and UInt in eight bytes

Four bytes lost the upper half of the value: an Int of -1 came back as
4294967295, and values beyond 32 bits were cut.
---
 types/int.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..077d3c1 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,16 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +326,16 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From 71c672d28518f0a951ec3b3386a910a638f7b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:01 +0000
Subject: [PATCH 10/23] fix: keep B+tree ranges within their bounds

A range starting above every key yielded the greatest key, so Find,
Replace and RemoveWhere of an absent key hit another key's entry. A
backward range from an absent key started at the next greater one, and
on an empty tree it crashed.
---
 tree/bptree/bptree_node.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..556601c 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -146,7 +146,7 @@ func (self *BpNode) get_end(key types.Hashable) (i int, leaf *BpNode) {
 	end := false
 	i, leaf = self.get_start(key)
 	pi, pleaf := i, leaf
-	for !end && leaf.keys[i].Equals(key) {
+	for !end && i < len(leaf.keys) && leaf.keys[i].Equals(key) {
 		pi, pleaf = i, leaf
 		i, leaf, end = next_location(i, leaf)
 	}
@@ -645,9 +645,13 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
-	end := false
+	// from may be greater than every key
+	end := len(l.keys) == 0 || l.keys[j].Less(from)
 	j--
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
+		if end {
+			return -1, nil, nil
+		}
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
 			return -1, nil, nil
@@ -659,7 +663,11 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_end(from)
-	end := false
+	end := len(l.keys) == 0
+	if !end && from.Less(l.keys[j]) {
+		// from is not there, get_end gave us the next greater key
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From 4d5753705f7f73991efdbde37f6c737d837b4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:55 +0000
Subject: [PATCH 11/23] fix: make RemoveWhere remove and count exactly what
 matches

The removal loop skipped the entry that moved into the removed one's
place, dropped blocks of a duplicate run that still held entries, and
crashed on an empty tree. The size always went down by one.
---
 tree/bptree/bptree.go      | 11 +++++++++--
 tree/bptree/bptree_node.go | 23 +++++++++++++----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..af4381e 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,14 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	removed := 0
+	new_root, err := self.root.remove(key, func(value interface{}) bool {
+		if where(value) {
+			removed++
+			return true
+		}
+		return false
+	})
 	if err != nil {
 		return err
 	}
@@ -102,7 +109,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 556601c..413bc91 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -465,7 +465,7 @@ func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode
 	if self.Internal() {
 		return self.internal_remove(key, nil, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, nil, where)
 	}
 }
 
@@ -519,7 +519,9 @@ func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc)
 		return nil, errors.BpTreeError("Expected a leaf node")
 	}
 	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
+	end := false
+	j, l := self.get_start(key)
+	for !end && j < len(l.keys) && l.keys[j].Equals(key) {
 		if where(l.values[j]) {
 			if err := l.remove_key_at(j); err != nil {
 				return nil, err
@@ -527,19 +529,20 @@ func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc)
 			if err := l.remove_value_at(j); err != nil {
 				return nil, err
 			}
+			j-- // the next entry moved into this place
 		}
 		if len(l.keys) == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
+			if l == a {
+				// what is left of the run, if anything, takes this block's place
+				if l.next == nil || (stop != nil && l.next.keys[0].Equals(stop)) {
+					a = nil
+				} else {
+					a = l.next
+				}
 			}
 		}
+		j, l, end = next_location(j, l)
 	}
 	return a, nil
 }
-- 
2.43.0


From 46973c572267a229fcdcc5eef89ca2ab8b5189b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:56 +0000
Subject: [PATCH 12/23] fix: report not found from BpMap.Get and Remove on an
 empty map

They indexed into the empty root and crashed.
---
 tree/bptree/bpmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..ec178eb 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -40,7 +40,7 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
 	j, l := self.root.get_start(key)
-	if l.keys[j].Equals(key) {
+	if j < len(l.keys) && l.keys[j].Equals(key) {
 		return l.values[j], nil
 	}
 	return nil, errors.NotFound(key)
-- 
2.43.0


From d4385c96d7c71af5fa912a37aae96ddf0dbac5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:21 +0000
Subject: [PATCH 13/23] fix: return nil from Pop on an empty unique priority
 queue

The type assertion on the missing item crashed.
---
 heap/unique.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..c2088cc 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,7 +48,9 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
-	item := u.pq.Pop().(types.Hashable)
-	u.set.Delete(item)
-	return item
+	top := u.pq.Pop()
+	if item, is := top.(types.Hashable); is {
+		u.set.Delete(item)
+	}
+	return top
 }
-- 
2.43.0


From 93d99e62da59c06de75b2d0326f10a042ffad522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:21 +0000
Subject: [PATCH 14/23] fix: keep the bucket index in range for the most
 negative hash

Negating the smallest int overflows, which gave a negative index.
---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 89b61e0713f17843ea7f7f7a612df38bcacf5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:21 +0000
Subject: [PATCH 15/23] fix: give a hash table created with size 0 a bucket

Every operation on it divided by zero, and it could never grow.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..b65073b 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From c8f0a2cad2e5d66dbc7c06993a485d3e57e3203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:21 +0000
Subject: [PATCH 16/23] fix: traverse an empty tree in pre-order and post-order

The missing root was pushed on the stack and crashed the first step.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From afd22f99527033c9baf57a419fdb7c90a985f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:42 +0000
Subject: [PATCH 17/23] fix: report a failed root split instead of dropping it

With one key per node the second half never fitted under the new root,
and the addition was still reported as a success.
---
 tree/bptree/bptree_node.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 413bc91..54c75c9 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -190,8 +190,12 @@ func (self *BpNode) put(key types.Hashable, value interface{}) (root *BpNode, er
 	}
 	// else we have root split
 	root = NewInternal(self.NodeSize())
-	root.put_kp(a.keys[0], a)
-	root.put_kp(b.keys[0], b)
+	if err := root.put_kp(a.keys[0], a); err != nil {
+		return nil, err
+	}
+	if err := root.put_kp(b.keys[0], b); err != nil {
+		return nil, err
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 792a30f6b2e7edeb07e8c05301aea15b9874b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:16 +0000
Subject: [PATCH 18/23] fix: let MapSet.Put replace the value stored for a key

A set ignores an item it already holds, so the old value stayed.
---
 set/mapset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..1c8f78e 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,13 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	me := &types.MapEntry{key, value}
+	if m.Set.Has(me) {
+		if err := m.Set.Delete(me); err != nil {
+			return err
+		}
+	}
+	return m.Add(me)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From b04ce92d7917e6218a1bd53721790e84082fca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:16 +0000
Subject: [PATCH 19/23] fix: hash an empty list like other empty containers

An empty array list equals an empty linked list but hashed differently.
---
 list/array_list.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..710d899 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -235,9 +235,6 @@ func Less(a, b types.IterableContainer) bool {
 
 func (l *List) Hash() int {
 	h := fnv.New32a()
-	if len(l.list) == 0 {
-		return 0
-	}
 	bs := make([]byte, 4)
 	for _, item := range l.list {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
-- 
2.43.0


From 28a055c8caff9edf937cdb8b5a92f8ed449364a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:16 +0000
Subject: [PATCH 20/23] fix: report items that do not fit when decoding a fixed
 size list

They were dropped without an error.
---
 list/array_list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/list/array_list.go b/list/array_list.go
index 710d899..a00387e 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -71,7 +71,9 @@ func (m *MList) UnmarshalBinary(bytes []byte) error {
 		if err != nil {
 			return err
 		}
-		m.Append(item)
+		if err := m.Append(item); err != nil {
+			return err
+		}
 		off = e
 	}
 	return nil
-- 
2.43.0


From 967aca86ca5e40d65a66d77ae1321a14e8aa4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:22 +0000
Subject: [PATCH 21/23] fix: removing an absent key from an AVL tree no longer
 loses entries

AvlNode.Remove rebalanced when the key was not found. AvlTree.Remove then
dropped the new root because of the error, so the entries that had been
rotated above the old root were lost.
---
 tree/avl/avltree.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..76e8f32 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -257,9 +257,6 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
 	return self, value, err
 }
 
-- 
2.43.0


From 7c38d29c6f93951c1dcb9fa89f75fbb14116a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:14 +0000
Subject: [PATCH 22/23] fix: backward scans of a B+tree start at the last block
 of the last run

A run of equal keys longer than a block continues in blocks which have no
entry in the parent. Backward started before them and skipped their entries.
---
 tree/bptree/bptree_node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 54c75c9..723cc7c 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -98,7 +98,12 @@ func (self *BpNode) right_most_leaf() *BpNode {
 	if self.Internal() {
 		return self.pointers[len(self.pointers)-1].right_most_leaf()
 	}
-	return self
+	// the last block may be followed by the rest of its run
+	leaf := self
+	for leaf.next != nil {
+		leaf = leaf.next
+	}
+	return leaf
 }
 
 /* returns the index and leaf-block of the first key greater than or equal to
-- 
2.43.0


From 34ee43bf823b51d4cc62d29131a938390e8a0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:14 +0000
Subject: [PATCH 23/23] fix: keep B+tree keys in order behind a partly removed
 run

After RemoveWhere a run of equal keys can start in a block with room left, or
in blocks which have no entry in the parent. A greater key was put into the
first block, in front of the rest of the run. It now gets a block after it.
---
 tree/bptree/bptree_node.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 723cc7c..bd789bc 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -297,7 +297,9 @@ func (self *BpNode) leaf_insert(key types.Hashable, value interface{}) (a, b *Bp
 			return self, nil, nil
 		}
 	}
-	if self.Full() {
+	if self.next != nil && self.next.keys[0].Less(key) {
+		return self.leaf_append(key, value)
+	} else if self.Full() {
 		return self.leaf_split(key, value)
 	} else {
 		if err := self.put_kv(key, value); err != nil {
@@ -307,6 +309,23 @@ func (self *BpNode) leaf_insert(key types.Hashable, value interface{}) (a, b *Bp
 	}
 }
 
+/* the leaf is followed by blocks which are only reachable through it (what is
+ * left of a run of equal keys) and which are less than the key. A new block
+ * has to be put after them.
+ */
+func (self *BpNode) leaf_append(key types.Hashable, value interface{}) (a, b *BpNode, err error) {
+	e := self.next
+	for e.next != nil && e.next.keys[0].Less(key) {
+		e = e.next
+	}
+	b = NewLeaf(self.NodeSize(), self.no_dup)
+	if err := b.put_kv(key, value); err != nil {
+		return nil, nil, err
+	}
+	insert_linked_list_node(b, e, e.next)
+	return self, b, nil
+}
+
 /* on leaf split if the block is pure then it will defer to pure_leaf_split
  * else
  *    - a new block will be made and inserted after this one
-- 
2.43.0

