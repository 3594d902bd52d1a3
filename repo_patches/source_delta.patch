From ff119e9b7c25a1cab1a0b02ada1a4c53f0644c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 01/19] fix: array2d: use the width as the row stride

Cells were stored at x+y*height, so arrays that are not square panicked
or let cells of different rows overwrite each other.
---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From 8cb436e0919a116ef1bf0c73fade8b88c84c9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/19] fix: array2d: OfJagged ignores rows beyond the height

Values of the jagged slice that are out of bounds are documented to be
ignored, but extra rows made OfJagged panic.
---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From 69cec971dc2d6d720e81f8b020ade5392de27c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 03/19] fix: btree: do not count an overwritten key twice

Put incremented the size even when the key was already present.
---
 btree/btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..adf20ee 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,10 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	if _, ok := t.Get(key); !ok {
+		t.n++
+	}
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 19c07a15df95ba88a7035c2034122ec1254b28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 04/19] fix: cache: a cache without capacity stores nothing

Put on a cache of capacity 0 tried to evict from an empty list and
panicked.
---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..2d85f35 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity <= 0 {
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 15eb7fa10febac735ba8e5df2c095cbedfe71cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 05/19] fix: cache: remove the evicted entry even if the
 callback used it

A callback that called Get on the entry being evicted moved it to the
front, and a different entry was then taken off the list.
---
 cache/cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 2d85f35..c778685 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -71,11 +71,12 @@ func (t *Cache[K, V]) Put(k K, e V) {
 }
 
 func (t *Cache[K, V]) evict() {
-	entry := t.lru.Back.Value
+	node := t.lru.Back
+	entry := node.Value
 	if t.evictCb != nil {
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
+	t.lru.Remove(node)
 	delete(t.table, entry.Key)
 }
 
-- 
2.43.0


From c88eb64bd7eb2d25ce9408aff60a12fa533a444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 06/19] fix: hashmap: Clear must not write to storage shared
 with a copy

Clear ignored the copy-on-write flag and emptied the entries of every
copy of the map.
---
 hashmap/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..ae71edf 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,12 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		m.entries = make([]entry[K, V], m.capacity)
+		m.length = 0
+		m.readonly = false
+		return
+	}
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From 33e2f330b09eabdadecea037678353e744bc0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 07/19] fix: rope: Rebuild leaves a valid rope

Rebuild dropped the children but left the node marked as an inner node,
so any later use dereferenced nil.
---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..6fd66fc 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,8 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
+		n.length = len(n.value)
 		n.adjust()
 	}
 }
-- 
2.43.0


From f2a47936d8c5380c633939a7698472b6b8771dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 08/19] fix: rope: allow inserting a slice of the rope's own
 storage

Slice and Value may return the underlying storage; when there was spare
capacity, Insert shifted that storage before reading the inserted value.
---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fd66fc..7c136e5 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -269,6 +269,8 @@ func (n *Node[V]) Each(fn func(n *Node[V])) {
 // from slice tricks
 func insert[V any](s []V, k int, vs []V) []V {
 	if n := len(s) + len(vs); n <= cap(s) {
+		// vs may be a slice of s, which is about to be shifted
+		vs = append([]V(nil), vs...)
 		s2 := s[:n]
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
-- 
2.43.0


From 15dd32a1c5e69739de50e346300c520cc263a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 09/19] fix: set: IsDisjoint returned the opposite answer

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From df7302d1457452a89e6e75e1a83a0f20de81e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 10/19] fix: set: do not remove from a set that is being
 iterated

Removing from a hashset moves other entries, so InPlaceIntersection, and
InPlaceDifference of a set with itself, skipped some of the keys.
---
 set/set.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..9bb44f9 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,20 +108,26 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// collect the keys first: a set may not be changed while iterating
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
+		// collect the keys first: other may be s itself
+		keys := make([]K, 0, other.Size())
 		other.Each(func(key K) {
-			s.Remove(key)
+			keys = append(keys, key)
 		})
+		for _, key := range keys {
+			s.Remove(key)
+		}
 	}
 	return s
 }
-- 
2.43.0


From f70f6d733dfcbcbd69e8d94cec995537b2116b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 11/19] fix: trie: removing an absent key must not change the
 size

---
 trie/trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..0db0e58 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -149,6 +149,9 @@ func (t *Trie[V]) Remove(key string) {
 		return
 	}
 
+	if !t.Contains(key) {
+		return
+	}
 	t.root = t.remove(t.root, key, 0)
 	t.n--
 }
-- 
2.43.0


From 62f167d410641a03e566a7dc6969ad794d7ba111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 12/19] fix: ulist: Remove moves the iterator on to the next
 block

After removing the last entry of a block that is not the last one the
iterator was left invalid, although there is a next element.
---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..1e64d5b 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of the block was removed, but not that of the list.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 545019918a662ae6537947c22fd43e5fd53175bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 13/19] fix: ulist: moving an iterator of an empty list returns
 false

Next and Prev on an iterator of an empty list dereferenced nil.
---
 ulist/ulist_iter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ulist/ulist_iter.go b/ulist/ulist_iter.go
index 858ac61..bf305d2 100644
--- a/ulist/ulist_iter.go
+++ b/ulist/ulist_iter.go
@@ -51,6 +51,9 @@ func (iter *UListIter[V]) Get() V {
 
 // Next moves the iterator one step forward and returns true if the iterator is valid.
 func (iter *UListIter[V]) Next() bool {
+	if iter.node == nil {
+		return false
+	}
 	iter.index++
 	blk := iter.node.Value
 	if iter.index >= len(blk) {
@@ -67,6 +70,9 @@ func (iter *UListIter[V]) Next() bool {
 
 // Prev moves the iterator one step back and returns true if the iterator is valid.
 func (iter *UListIter[V]) Prev() bool {
+	if iter.node == nil {
+		return false
+	}
 	iter.index--
 	if iter.index < 0 {
 		if iter.node.Prev != nil {
-- 
2.43.0


From f8ab50269b98053b4fe98dfdbf13e5ee3c6c7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 14/19] fix: prope: Remove shares the parts it does not change

The subtrees outside of the removed range were copied down to their
leaves, so every Remove took space linear in the size of the rope.
---
 prope/prope.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prope/prope.go b/prope/prope.go
index cfca004..421b4ce 100644
--- a/prope/prope.go
+++ b/prope/prope.go
@@ -116,6 +116,9 @@ func (n *Node[V]) Insert(pos int, value []V) *Node[V] {
 // Remove returns a new version of the rope with the elements
 // in the [start:end) range removed.
 func (n *Node[V]) Remove(start, end int) *Node[V] {
+	if start >= end {
+		return n
+	}
 	if n.kind == tLeaf {
 		return New(remove(n.value, start, end))
 	}
-- 
2.43.0


From f5ddf5f8f0402f945f8bfc1d1e974a27a69cfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 15/19] fix: btree: a split leaves no stale entries that keep
 removed values alive

---
 btree/btree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/btree/btree.go b/btree/btree.go
index adf20ee..d707235 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -166,6 +166,7 @@ func (t *Tree[K, V]) split(h *node[K, V]) *node[K, V] {
 	h.m = maxChildren / 2
 	for j := 0; j < maxChildren/2; j++ {
 		n.children[j] = h.children[maxChildren/2+j]
+		h.children[maxChildren/2+j] = entry[K, V]{}
 	}
 	return n
 }
-- 
2.43.0


From db9173fadafeb251a573baa56e46ee788a1ed497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 16/19] fix: heap: Pop releases the slot it vacates

---
 heap/heap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heap/heap.go b/heap/heap.go
index 7bc8bc0..d051b4e 100644
--- a/heap/heap.go
+++ b/heap/heap.go
@@ -56,7 +56,9 @@ func (h *Heap[T]) Pop() (T, bool) {
 
 	x = h.data[0]
 
+	var zero T
 	h.data[0] = h.data[len(h.data)-1]
+	h.data[len(h.data)-1] = zero // release the moved element
 	h.data = h.data[:len(h.data)-1]
 	down(h.data, 0, h.less)
 
-- 
2.43.0


From 0801483d1fb816236253b8854b0d6d5e6f929c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 17/19] fix: stack: Pop releases the popped value

---
 stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stack/stack.go b/stack/stack.go
index af971a6..2f20617 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -26,6 +26,7 @@ func (s *Stack[T]) Pop() (t T) {
 		return t
 	}
 	v := s.entries[len(s.entries)-1]
+	s.entries[len(s.entries)-1] = t // release the popped value
 	s.entries = s.entries[:len(s.entries)-1]
 	return v
 }
-- 
2.43.0


From bc6f8ba45fab0af525abe652243d421be3e1965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 18/19] fix: ulist: Remove releases the removed value

---
 ulist/ulist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 1e64d5b..459e7ff 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -120,7 +120,10 @@ func (ul *UList[V]) AddBefore(iter *UListIter[V], v V) {
 // that occurs after the deleted entry.
 func (ul *UList[V]) Remove(iter *UListIter[V]) {
 	ul.size--
-	iter.node.Value = append(iter.node.Value[:iter.index], iter.node.Value[iter.index+1:]...)
+	blk := iter.node.Value
+	iter.node.Value = append(blk[:iter.index], blk[iter.index+1:]...)
+	var zero V
+	blk[len(blk)-1] = zero // release the removed value
 	if len(iter.node.Value) == 0 {
 		// Block got emptied.
 		ul.ll.Remove(iter.node)
-- 
2.43.0


From 68981e772f30a17e3e3d8e96ba601717ef6d9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 19/19] fix: btree: inner nodes do not keep the value whose
 insertion split a child

---
 btree/btree.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/btree/btree.go b/btree/btree.go
index d707235..9ae52b0 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -140,9 +140,8 @@ func (t *Tree[K, V]) insert(h *node[K, V], key K, val V, height int, valid bool)
 					return nil
 				}
 				j++
-				ent.key = u.children[0].key
-				ent.valid = false
-				ent.next = u
+				// the value belongs to the leaf only
+				ent = entry[K, V]{key: u.children[0].key, next: u}
 				break
 			}
 		}
-- 
2.43.0

