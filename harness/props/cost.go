package props

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	. "verif/harness/pbt"
)

// C36: the time of operations at sizes of 10^5, measured in units of what the
// same number of accesses to a Go map of that size takes at the same moment.

// costOp is an operation whose cost is claimed: of one call (fn), or per
// element of a call that visits everything (whole).
type costOp struct {
	name  string
	fn    func(i int64)
	whole func()
}

// costEnv describes the structure to build.
type costEnv struct {
	n     int64
	order func(i int64) int64 // a permutation of 0..n-1: the order of insertion
	tick  func()              // called with every insertion
	a     int64
}

// at is a pseudo-random position in 0..n-1.
func (e costEnv) at(i int64) int64 { return Mod64(Mix(i+e.a), int(e.n)) }

// key is a present key, odd(i) an absent one; both spread over the range.
func (e costEnv) key(i int64) int64 { return 2 * e.at(i) }
func (e costEnv) odd(i int64) int64 { return 2*e.at(i) + 1 }

var sink int64

func costTree(e costEnv, t treeLike, constSize bool) []costOp {
	for i := int64(0); i < e.n; i++ {
		e.tick()
		t.Put(2*e.order(i), i)
	}
	ops := []costOp{
		{name: "Get", fn: func(i int64) { v, _ := t.Get(e.key(i)); sink += v }},
		{name: "Get of an absent key", fn: func(i int64) { v, _ := t.Get(e.odd(i)); sink += v }},
		{name: "Put over", fn: func(i int64) { t.Put(e.key(i), i) }},
		{name: "Put and Remove", fn: func(i int64) { t.Put(e.odd(i), i); t.Remove(e.odd(i)) }},
		{name: "Remove of an absent key", fn: func(i int64) { t.Remove(e.odd(i)) }},
		{name: "Remove and Put", fn: func(i int64) { t.Remove(e.key(i)); t.Put(e.key(i), i) }},
		{name: "Each", whole: func() { t.Each(func(k, v int64) { sink += v }) }},
	}
	if constSize {
		ops = append(ops, costOp{name: "Size", fn: func(i int64) { sink += int64(t.Size()) }})
	}
	return ops
}

func costSet(e costEnv, t set.SetOf[int64]) []costOp {
	for i := int64(0); i < e.n; i++ {
		e.tick()
		t.Put(2 * e.order(i))
	}
	return []costOp{
		{name: "Has", fn: func(i int64) { sink += bool64(t.Has(e.key(i))) }},
		{name: "Has of an absent element", fn: func(i int64) { sink += bool64(t.Has(e.odd(i))) }},
		{name: "Put over", fn: func(i int64) { t.Put(e.key(i)) }},
		{name: "Put and Remove", fn: func(i int64) { t.Put(e.odd(i)); t.Remove(e.odd(i)) }},
		{name: "Remove and Put", fn: func(i int64) { t.Remove(e.key(i)); t.Put(e.key(i)) }},
		{name: "Size", fn: func(i int64) { sink += int64(t.Size()) }},
		{name: "Each", whole: func() { t.Each(func(k int64) { sink += k }) }},
	}
}

func costAlgebra(e costEnv, s set.Set[int64]) []costOp {
	ops := costSet(e, s)
	same, shift := mapset.New[int64](), hashset.New(0, g.Equals[int64], g.HashInt64)
	for i := int64(0); i < e.n; i++ {
		e.tick()
		same.Put(2 * i)
		shift.Put(2 * (i + e.n/2))
	}
	n := func(t set.Set[int64]) { sink += int64(t.Size()) }
	return append(ops,
		costOp{name: "Clone", whole: func() { n(s.Clone()) }},
		costOp{name: "Keys", whole: func() { sink += int64(len(s.Keys())) }},
		costOp{name: "Map", whole: func() { sink += int64(len(s.Map())) }},
		costOp{name: "Union", whole: func() { n(s.Union(shift)) }},
		costOp{name: "Intersection", whole: func() { n(s.Intersection(shift)) }},
		costOp{name: "Difference", whole: func() { n(s.Difference(shift)) }},
		costOp{name: "SymmetricDifference", whole: func() { n(s.SymmetricDifference(shift)) }},
		costOp{name: "Equal", whole: func() { sink += bool64(s.Equal(same)) }},
		costOp{name: "IsSubset", whole: func() { sink += bool64(s.IsSubset(same)) }},
		costOp{name: "IsSuperset", whole: func() { sink += bool64(s.IsSuperset(same)) }},
		costOp{name: "IsDisjoint", whole: func() { sink += bool64(s.IsDisjoint(shift)) }},
	)
}

func costMulti(e costEnv, m multimap.MultiMap[int64, int64], tree bool) []costOp {
	for i := int64(0); i < e.n; i++ {
		e.tick()
		m.Put(2*e.order(i), i)
	}
	ops := []costOp{
		{name: "Get", fn: func(i int64) { sink += int64(len(m.Get(e.key(i)))) }},
		{name: "Has and Count", fn: func(i int64) { sink += int64(m.Count(e.key(i))) + bool64(m.Has(e.odd(i))) }},
		{name: "Put and Remove", fn: func(i int64) { m.Put(e.key(i), -1); m.Remove(e.key(i), -1) }},
		{name: "Put and RemoveAll", fn: func(i int64) { m.Put(e.odd(i), 5); m.RemoveAll(e.odd(i)) }},
		{name: "Size", fn: func(i int64) { sink += int64(m.Size()) }},
		{name: "Each", whole: func() { m.Each(func(k, v int64) { sink += v }) }},
		{name: "EachAssociation", whole: func() { m.EachAssociation(func(k int64, vs []int64) { sink += int64(len(vs)) }) }},
	}
	if !tree {
		ops = append(ops, costOp{name: "Dimension", fn: func(i int64) { sink += int64(m.Dimension()) }})
	}
	return ops
}

// costMany is a multimap with one key of n values.
func costMany(e costEnv, m multimap.MultiMap[int64, int64], set bool) []costOp {
	for i := int64(0); i < e.n; i++ {
		e.tick()
		m.Put(7, e.order(i))
	}
	ops := []costOp{
		{name: "Put", fn: func(i int64) { m.Put(7, e.n+i) }},
		{name: "Has", fn: func(i int64) { sink += bool64(m.Has(7)) }},
		{name: "Put and Remove of another key", fn: func(i int64) { m.Put(8, i); m.Remove(8, i) }},
		{name: "Get", whole: func() { sink += int64(len(m.Get(7))) }},
		{name: "Each", whole: func() { m.Each(func(k, v int64) { sink += v }) }},
	}
	if set {
		ops = append(ops, costOp{name: "Remove and Put", fn: func(i int64) { m.Remove(7, e.at(i)); m.Put(7, e.at(i)) }})
	} else {
		ops = append(ops, costOp{name: "Get of the slice", fn: func(i int64) { sink += int64(len(m.Get(7))) + int64(m.Count(7)) }})
	}
	return ops
}

func costKey(i int64) string {
	var b [9]byte
	x := uint64(Mix(i))
	for j := range b {
		b[j] = 'a' + byte(x%8)
		x /= 8
	}
	return string(b[:])
}

type ropeLike struct {
	at     func(i int64)
	slice  func(i int64)
	length func() int
	insert func(i int64)
	remove func(i int64)
	split  func(i int64)
	join   func()
	value  func()
}

func costRope(r ropeLike) []costOp {
	return []costOp{
		{name: "At", fn: r.at}, {name: "Slice", fn: r.slice}, {name: "Len", fn: func(int64) { sink += int64(r.length()) }},
		{name: "Insert and Remove", fn: func(i int64) { r.insert(i); r.remove(i) }},
		{name: "SplitAt", fn: r.split}, {name: "Join", fn: func(int64) { r.join() }}, {name: "Value", whole: r.value},
	}
}

var costKinds = []string{"avl", "btree", "interval", "interval-cover", "hashmap", "hashset", "mapset", "set-map", "set-hash", "trie", "heap", "heap-from",
	"cache", "bimap", "MapSlice", "MapSet", "AvlSlice", "AvlSet", "MapSlice-many", "MapSet-many", "AvlSlice-many", "AvlSet-many",
	"list", "queue", "stack", "rope", "rope-rebuilt", "rope-rebalanced", "prope", "prope-rebuilt", "prope-rebalanced", "ulist", "array2d", "hashmap-shrunk", "hashmap-copied"}

func costOps(kind string, e costEnv) []costOp {
	less := g.Less[int64]
	n := e.n
	switch kind {
	case "avl":
		t := avl.New[int64, int64](less)
		return append(costTree(e, t, false), costOp{name: "Height", fn: func(i int64) { sink += int64(t.Height()) }})
	case "btree":
		return costTree(e, btree.New[int64, int64](less), true)
	case "hashmap":
		return costTree(e, hashmap.New[int64, int64](uint64(Mod(e.a, 100)), g.Equals[int64], g.HashInt64), true)
	case "hashmap-copied": // the two pay once for what they share
		m := hashmap.New[int64, int64](uint64(Mod(e.a, 100)), g.Equals[int64], g.HashInt64)
		ops := costTree(e, m, true)
		c := m.Copy()
		return append(append([]costOp{
			{name: "Remove of an absent key after Copy", fn: func(i int64) { c.Remove(e.odd(i)) }},
			{name: "Remove after Copy", fn: func(i int64) { c.Remove(e.key(i)) }},
			{name: "Put after Copy", fn: func(i int64) { c.Put(e.key(i), i) }},
		}, ops...), costOp{name: "Copy", fn: func(i int64) { sink += int64(m.Copy().Size()) }})
	case "hashmap-shrunk":
		m := hashmap.New[int64, int64](0, g.Equals[int64], g.HashInt64)
		for i := int64(0); i < n; i++ {
			e.tick()
			m.Put(i, i)
		}
		for i := int64(0); i < n-n/64; i++ {
			e.tick()
			m.Remove(e.order(i))
		}
		left := n / 64
		return []costOp{{name: "Each after most was removed", fn: func(i int64) {
			if i%left == 0 {
				m.Each(func(k, v int64) { sink += v })
			}
		}}}
	case "interval", "interval-cover":
		t := interval.New[int64, int64]()
		for i := int64(0); i < n; i++ {
			e.tick()
			k := 2 * e.order(i)
			t.Put(k, k+1+e.at(i)%5, i)
		}
		if kind == "interval-cover" {
			t.Put(-1, 2*n+5, 0) // overlaps everything, sits at one end
		}
		return []costOp{
			{name: "Get", fn: func(i int64) { v, _ := t.Get(e.key(i)); sink += v.Val }},
			{name: "Put over", fn: func(i int64) { k := e.key(i); t.Put(k, k+1, i) }},
			{name: "Add over", fn: func(i int64) { k := e.key(i); t.Add(k, k+1, i) }},
			{name: "Add and Remove", fn: func(i int64) { k := e.odd(i); t.Add(k, k+1, i); t.Remove(k) }},
			{name: "Remove and Add", fn: func(i int64) { k := e.key(i); t.Remove(k); t.Add(k, k+2, i) }},
			{name: "Remove of an absent position", fn: func(i int64) { t.Remove(e.odd(i)) }},
			{name: "Overlaps with few results", fn: func(i int64) { k := e.key(i); sink += int64(len(t.Overlaps(k, k+3))) }},
			{name: "Overlaps left of all", fn: func(i int64) { sink += int64(len(t.Overlaps(-9-i%4, -8))) }},
			{name: "Overlaps right of all", fn: func(i int64) { sink += int64(len(t.Overlaps(2*n+9+i%4, 2*n+99))) }},
			{name: "Overlaps with all", whole: func() { sink += int64(len(t.Overlaps(-5, 3*n))) }},
			{name: "Height", fn: func(i int64) { sink += int64(t.Height()) }},
			{name: "Each", whole: func() { t.Each(func(lo, hi, v int64) { sink += v }) }},
		}
	case "hashset":
		return costSet(e, hashset.New(uint64(Mod(e.a, 100)), g.Equals[int64], g.HashInt64))
	case "mapset":
		return costSet(e, mapset.New[int64]())
	case "set-map":
		return costAlgebra(e, set.NewMapset[int64]())
	case "set-hash":
		return costAlgebra(e, set.NewHashset(uint64(Mod(e.a, 100)), g.Equals[int64], g.HashInt64))
	case "trie":
		t := trie.New[int64]()
		for i := int64(0); i < n; i++ {
			e.tick()
			t.Put(costKey(i), i)
		}
		return []costOp{
			{name: "Get", fn: func(i int64) { v, _ := t.Get(costKey(e.at(i))); sink += v }},
			{name: "Contains of an absent key", fn: func(i int64) { sink += bool64(t.Contains(costKey(-i))) }},
			{name: "Put over", fn: func(i int64) { t.Put(costKey(e.at(i)), i) }},
			{name: "Put and Remove", fn: func(i int64) { k := costKey(-i); t.Put(k, i); t.Remove(k) }},
			{name: "Size", fn: func(i int64) { sink += int64(t.Size()) }},
			{name: "LongestPrefix", fn: func(i int64) { sink += int64(len(t.LongestPrefix(costKey(e.at(i)) + "ab"))) }},
			{name: "KeysWithPrefix with few results", fn: func(i int64) { sink += int64(len(t.KeysWithPrefix(costKey(e.at(i))[:8]))) }},
			{name: "Keys", whole: func() { sink += int64(len(t.Keys())) }},
		}
	case "heap":
		h := heap.New(less)
		for i := int64(0); i < n; i++ {
			e.tick()
			h.Push(e.order(i))
		}
		return []costOp{
			{name: "Push and Pop", fn: func(i int64) { h.Push(e.at(i)); v, _ := h.Pop(); sink += v }},
			{name: "Pop and Push", fn: func(i int64) { v, _ := h.Pop(); h.Push(v) }},
			{name: "Peek", fn: func(i int64) { v, _ := h.Peek(); sink += v }},
			{name: "Size", fn: func(i int64) { sink += int64(h.Size()) }},
		}
	case "heap-from":
		data := make([]int64, n)
		return []costOp{{name: "FromSlice", whole: func() {
			for i := range data {
				data[i] = e.order(int64(i))
			}
			sink += int64(heap.FromSlice(less, data).Size())
		}}}
	case "cache":
		c := cache.New[int64, int64](int(n))
		c.SetEvictCallback(func(k, v int64) { sink += v })
		for i := int64(0); i < n; i++ {
			e.tick()
			c.Put(2*e.order(i), i)
		}
		return []costOp{
			{name: "Get", fn: func(i int64) { v, _ := c.Get(e.key(i)); sink += v }},
			{name: "Put over", fn: func(i int64) { c.Put(e.key(i), i) }},
			{name: "Put with eviction", fn: func(i int64) { c.Put(e.odd(i), i) }},
			{name: "Remove and Put", fn: func(i int64) { c.Remove(e.key(i)); c.Put(e.key(i), i) }},
			{name: "Resize by one", fn: func(i int64) { c.Resize(int(n - 1 - i%2)); c.Put(e.odd(i), i) }},
			{name: "Size", fn: func(i int64) { sink += int64(c.Size() + c.Capacity()) }},
			{name: "Each", whole: func() { c.Each(func(k, v int64) { sink += v }) }},
		}
	case "bimap":
		m := &bimap.Bimap[int64, int64]{}
		for i := int64(0); i < n; i++ {
			e.tick()
			m.Add(2*e.order(i), 2*i)
		}
		return []costOp{
			{name: "GetForward", fn: func(i int64) { v, _ := m.GetForward(e.key(i)); sink += v }},
			{name: "GetReverse", fn: func(i int64) { v, _ := m.GetReverse(e.key(i)); sink += v }},
			{name: "Contains", fn: func(i int64) { sink += bool64(m.ContainsForward(e.key(i))) + bool64(m.ContainsReverse(e.key(i))) }},
			{name: "Add and RemoveForward", fn: func(i int64) { m.Add(e.odd(i), e.odd(i)); m.RemoveForward(e.odd(i)) }},
			{name: "Add and RemoveReverse", fn: func(i int64) { m.Add(e.odd(i), e.odd(i)); m.RemoveReverse(e.odd(i)) }},
			{name: "Add over", fn: func(i int64) { m.Add(e.key(i), e.odd(i)) }},
			{name: "Len", fn: func(i int64) { sink += int64(m.Len()) }},
			{name: "Each", whole: func() { m.Each(func(k, v int64) { sink += v }) }},
			{name: "Copy", whole: func() { c := m.Copy(); sink += int64(c.Len()) }},
		}
	case "MapSlice":
		return costMulti(e, multimap.NewMapSlice[int64, int64](), false)
	case "MapSet":
		return costMulti(e, multimap.NewMapSet[int64](less), false)
	case "AvlSlice":
		return costMulti(e, multimap.NewAvlSlice[int64, int64](less), true)
	case "AvlSet":
		return costMulti(e, multimap.NewAvlSet(less, less), true)
	case "MapSlice-many":
		return costMany(e, multimap.NewMapSlice[int64, int64](), false)
	case "MapSet-many":
		return costMany(e, multimap.NewMapSet[int64](less), true)
	case "AvlSlice-many":
		return costMany(e, multimap.NewAvlSlice[int64, int64](less), false)
	case "AvlSet-many":
		return costMany(e, multimap.NewAvlSet(less, less), true)
	case "list":
		l := list.New[int64]()
		nodes := make([]*list.Node[int64], n)
		for i := range nodes {
			nodes[i] = &list.Node[int64]{Value: int64(i)}
			l.PushBackNode(nodes[i])
		}
		return []costOp{
			{name: "PushFront and Remove", fn: func(i int64) { l.PushFront(i); l.Remove(l.Front) }},
			{name: "PushBack and Remove", fn: func(i int64) { l.PushBack(i); l.Remove(l.Back) }},
			{name: "Remove and PushBackNode", fn: func(i int64) { x := nodes[e.at(i)]; l.Remove(x); l.PushBackNode(x) }},
			{name: "Remove and PushFrontNode", fn: func(i int64) { x := nodes[e.at(i)]; l.Remove(x); l.PushFrontNode(x) }},
			{name: "InsertAfter and Remove", fn: func(i int64) {
				x := &list.Node[int64]{Value: i}
				l.InsertAfter(nodes[e.at(i)], x)
				l.Remove(x)
			}},
			{name: "InsertBefore and Remove", fn: func(i int64) {
				x := &list.Node[int64]{Value: i}
				l.InsertBefore(nodes[e.at(i)], x)
				l.Remove(x)
			}},
			{name: "Each", whole: func() { l.Front.Each(func(v int64) { sink += v }) }},
			{name: "EachReverse", whole: func() { l.Back.EachReverse(func(v int64) { sink += v }) }},
		}
	case "queue":
		q := queue.New[int64]()
		for i := int64(0); i < n; i++ {
			e.tick()
			q.Enqueue(i)
		}
		return []costOp{
			{name: "Enqueue and Dequeue", fn: func(i int64) { q.Enqueue(i); sink += q.Dequeue() }},
			{name: "Enqueue and TryDequeue", fn: func(i int64) { q.Enqueue(i); v, _ := q.TryDequeue(); sink += v }},
			{name: "Peek", fn: func(i int64) { v, _ := q.TryPeek(); sink += v + q.Peek() }},
			{name: "Len", fn: func(i int64) { sink += int64(q.Len()) + bool64(q.Empty()) }},
			{name: "PeekAll", whole: func() { sink += int64(len(q.PeekAll())) }},
			{name: "Copy", whole: func() { sink += int64(q.Copy().Len()) }},
			{name: "Each", whole: func() { q.Each(func(v int64) { sink += v }) }},
			{name: "DequeueAll of a copy", whole: func() { sink += int64(len(q.Copy().DequeueAll())) }},
		}
	case "stack":
		s := stack.New[int64]()
		for i := int64(0); i < n; i++ {
			e.tick()
			s.Push(i)
		}
		return []costOp{
			{name: "Push", fn: func(i int64) { s.Push(i) }},
			{name: "Pop and Push", fn: func(i int64) { s.Push(s.Pop()) }},
			{name: "Pop", fn: func(i int64) { sink += s.Pop() }},
			{name: "Peek", fn: func(i int64) { sink += s.Peek() + int64(s.Size()) }},
			{name: "Copy", whole: func() { sink += int64(s.Copy().Size()) }},
		}
	case "rope", "rope-rebuilt", "rope-rebalanced":
		_, restore := thresholds(Case{Cfg: map[string]int64{"split": 5, "join": 3, "ratio": 1}})
		rope.SplitLength, rope.JoinLength = 64, 32
		_ = restore // by the caller, which saves them too
		var t *rope.Node[int32]
		if kind == "rope" {
			t = rope.New(run32(0, int(n)))
		} else {
			rope.SplitLength, rope.JoinLength = 16, 8
			t = skewRope(e)
			if kind == "rope-rebuilt" {
				t.Rebuild()
			} else {
				t.Rebalance()
			}
		}
		return costRope(ropeLike{
			at:     func(i int64) { sink += int64(t.At(int(e.at(i)))) },
			slice:  func(i int64) { p := int(e.at(i)) % (t.Len() - 8); sink += int64(len(t.Slice(p, p+7))) },
			length: t.Len,
			insert: func(i int64) { t.Insert(int(e.at(i)), []int32{1, 2, 3}) },
			remove: func(i int64) { p := int(e.at(i)); t.Remove(p, p+3) },
			split: func(i int64) {
				if i%64 == 0 { // gives back what it takes apart
					l, r := t.SplitAt(int(e.at(i)))
					sink += int64(l.Len())
					t = rope.Join(l, r)
				}
			},
			join:  func() { sink += int64(rope.Join(t, t).Len()) },
			value: func() { sink += int64(len(t.Value())) },
		})
	case "prope", "prope-rebuilt", "prope-rebalanced":
		prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = 64, 32, 1.2
		var t *prope.Node[int32]
		if kind == "prope" {
			t = prope.New(run32(0, int(n)))
		} else {
			prope.SplitLength, prope.JoinLength = 16, 8
			t = skewPrope(e)
			if kind == "prope-rebuilt" {
				t.Rebuild()
			} else {
				t.Rebalance()
			}
		}
		return costRope(ropeLike{
			at:     func(i int64) { sink += int64(t.At(int(e.at(i)))) },
			slice:  func(i int64) { p := int(e.at(i)) % (t.Len() - 8); sink += int64(len(t.Slice(p, p+7))) },
			length: t.Len,
			insert: func(i int64) { sink += int64(t.Insert(int(e.at(i)), []int32{1, 2, 3}).Len()) },
			remove: func(i int64) { p := int(e.at(i)) % (t.Len() - 8); sink += int64(t.Remove(p, p+3).Len()) },
			split:  func(i int64) { l, r := t.SplitAt(int(e.at(i))); sink += int64(l.Len() - r.Len()) },
			join:   func() { sink += int64(prope.Join(t, t).Len()) },
			value:  func() { sink += int64(len(t.Value())) },
		})
	case "ulist":
		u := ulist.New[int64]([]int{1, 4, 16, 64}[Mod(e.a, 4)])
		for i := int64(0); i < n; i++ {
			e.tick()
			u.PushBack(i)
		}
		mid := u.Begin()
		for i := int64(0); i < n/2; i++ {
			e.tick()
			mid.Next()
		}
		return []costOp{
			{name: "Next and Prev", fn: func(i int64) { mid.Next(); sink += mid.Get(); mid.Prev() }},
			{name: "AddAfter and Remove", fn: func(i int64) { u.AddAfter(mid, i); u.Remove(mid) }},
			{name: "AddBefore and Remove", fn: func(i int64) { u.AddBefore(mid, i); u.Remove(mid) }},
			{name: "PushFront", fn: func(i int64) { u.PushFront(i) }},
			{name: "PushBack", fn: func(i int64) { u.PushBack(i) }},
			{name: "Begin and End", fn: func(i int64) { sink += u.Begin().Get() + u.End().Get() }},
			{name: "Remove at Begin", fn: func(i int64) { u.Remove(u.Begin()) }},
			{name: "Size", fn: func(i int64) { sink += int64(u.Size()) }},
			{name: "iteration", whole: func() {
				for it := u.Begin(); it.IsValid(); it.Next() {
					sink += it.Get()
				}
			}},
			{name: "iteration backwards", whole: func() {
				for it := u.End(); it.IsValid(); it.Prev() {
					sink += it.Get()
				}
			}},
		}
	case "array2d":
		w := []int{1, 7, 300, int(n)}[Mod(e.a, 4)]
		h := int(n) / w
		a := array2d.New[int64](w, h)
		ops := []costOp{
			{name: "Get", fn: func(i int64) { p := int(e.at(i)) % (w * h); sink += a.Get(p%w, p/w) }},
			{name: "Set", fn: func(i int64) { p := int(e.at(i)) % (w * h); a.Set(p%w, p/w, i) }},
			{name: "Row", fn: func(i int64) { sink += int64(len(a.Row(int(e.at(i)) % h))) }},
			{name: "RowSpan", fn: func(i int64) { sink += int64(len(a.RowSpan(0, w-1, int(e.at(i))%h))) }},
			{name: "Fill of a cell", fn: func(i int64) { p := int(e.at(i)) % (w * h); a.Fill(p%w, p/w, p%w, p/w, i) }},
			{name: "Fill of all", whole: func() { a.Fill(0, 0, w-1, h-1, 3) }},
			{name: "Copy", whole: func() { sink += int64(a.Copy().Width()) }},
			{name: "NewFilled", whole: func() { b := array2d.NewFilled[int64](w, h, 3); sink += int64(b.Width()) }},
		}
		return ops
	}
	panic("unknown kind " + kind)
}

// skewLen is the length of the pieces that skewRope joins one after the other:
// too long for two of them to become one leaf.
const skewLen = 12

// skewed joins pieces one at a time at the end, at the front, or (in the mixed
// order) two such ropes of the same length, so that only their halves lean.
func skewed[T any](e costEnv, make func(at, n int64) T, join func(a, b T) T) T {
	lean := func(from, to int64, front bool) T {
		t := make(from, skewLen)
		for m := from + skewLen; m < to; m += skewLen {
			e.tick()
			if x := make(m, skewLen); front {
				t = join(x, t)
			} else {
				t = join(t, x)
			}
		}
		return t
	}
	switch first, last := e.order(0), e.order(e.n-1); {
	case first == 0 && last == e.n-1:
		return lean(0, e.n, false)
	case first == e.n-1 && last == 0:
		return lean(0, e.n, true)
	}
	half := e.n / 2 / skewLen * skewLen
	return join(lean(0, half, e.a&1 != 0), lean(half, e.n, e.a&2 != 0))
}

func skewRope(e costEnv) *rope.Node[int32] {
	return skewed(e, func(at, n int64) *rope.Node[int32] { return rope.New(run32(int32max(at), int(n))) },
		func(a, b *rope.Node[int32]) *rope.Node[int32] { return rope.Join(a, b) })
}

func skewPrope(e costEnv) *prope.Node[int32] {
	return skewed(e, func(at, n int64) *prope.Node[int32] { return prope.New(run32(int32max(at), int(n))) },
		func(a, b *prope.Node[int32]) *prope.Node[int32] { return prope.Join(a, b) })
}

func int32max(m int64) int64 { return m & (1<<30 - 1) }

// threadTime is the CPU time of the calling thread, 0 if there is no clock.
func threadTime() time.Duration {
	var ts syscall.Timespec
	const clockThreadCPU = 3
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, clockThreadCPU, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return 0
	}
	return time.Duration(ts.Nano())
}

// watch starts a clock: CPU time of the thread or, if that is less or not
// available, time on the wall.
func watch() func() time.Duration {
	w, c := time.Now(), threadTime()
	return func() time.Duration {
		cpu, wall := threadTime()-c, time.Since(w)
		if cpu > 0 && cpu < wall {
			return cpu
		}
		return wall
	}
}

// spent returns the time fn takes.
func spent(fn func()) time.Duration {
	end := watch()
	fn()
	return end()
}

// costBuild builds the structure; ok is false if the insertions took more than
// limit each, on average.
func costBuild(kind string, e costEnv, limit time.Duration) (ops []costOp, d time.Duration, ok bool) {
	type tooSlow struct{}
	defer func() {
		if x := recover(); x != nil {
			if _, slow := x.(tooSlow); !slow {
				panic(x)
			}
		}
	}()
	clock, ticks := watch(), 0
	e.tick = func() {
		if ticks++; ticks%64 == 0 {
			if d = clock(); d > time.Duration(e.n)*limit {
				panic(tooSlow{})
			}
		}
	}
	ops = costOps(kind, e)
	return ops, d, true
}

// mapCost is what one access to a Go map of n entries takes now.
func mapCost(n int64) time.Duration {
	m := make(map[int64]int64, n)
	const k = 20000
	d := spent(func() {
		for i := int64(0); i < n; i++ {
			m[i*7] = i
		}
		for i := int64(0); i < k; i++ {
			sink += m[Mod64(Mix(i), int(n))*7]
		}
	})
	return d / time.Duration(n+k)
}

const (
	costCalls  = 8192
	costBatch  = 16
	costFactor = 200 // of a map access, per call or per element of a whole pass
	costBase   = 6 * time.Microsecond
)

func runTime(c Case, r *Rec) error {
	if c.Cfg["churn"] > 0 {
		return runChurn(c, r)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	_, restore := thresholds(Case{Cfg: map[string]int64{}})
	defer restore()
	kind := costKinds[Mod(c.Cfg["kind"], len(costKinds))]
	e := costEnv{n: 200000 + Mod64(c.Cfg["n"], 100000), a: c.Cfg["a"]}
	switch Mod(c.Cfg["order"], 3) {
	case 0:
		e.order = func(i int64) int64 { return i }
	case 1:
		e.order = func(i int64) int64 { return e.n - 1 - i }
	case 2:
		e.n |= 1 // a step prime to n visits everything
		step := int64(60013)
		for gcd(step, e.n) != 1 {
			step += 2
		}
		e.order = func(i int64) int64 { return i * step % e.n }
	}
	var ops []costOp
	limit := func() time.Duration { return costBase + costFactor*mapCost(e.n) }
	l := limit()
	for try := 0; ; try++ {
		var ok bool
		var d time.Duration
		if ops, d, ok = costBuild(kind, e, l); ok {
			break
		}
		if try == 1 {
			return fmt.Errorf("%s: building it by up to %d insertions took more than %v, the limit is %v per insertion: %d map accesses of the same size", kind, e.n, d, l, costFactor)
		}
		l = max(l, limit())
	}
	r.Label(kind)
	for j, o := range ops {
		if only := Mod(c.Cfg["op"], 64); only > 0 && only != j+1 {
			continue
		}
		var best time.Duration
		for try := 0; ; try++ {
			var d time.Duration
			if o.fn != nil {
				calls := 0
				for stop := false; calls < costCalls && !stop; {
					d += spent(func() {
						for k := 0; k < costBatch; k++ {
							o.fn(int64(calls))
							calls++
						}
					})
					stop = d > 2*costCalls*l
				}
				d /= time.Duration(calls)
			} else {
				d = spent(o.whole) / time.Duration(e.n)
			}
			if try == 0 || d < best {
				best = d
			}
			if best <= l {
				break
			}
			if try == 3 || try > 0 && best > 20*l {
				return fmt.Errorf("%s with %d elements: %s takes %v per call (per element where it visits all), the limit is %v: %d map accesses of the same size", kind, e.n, o.name, best, l, costFactor)
			}
			if again := limit(); again > l {
				l = again
			}
		}
	}
	r.NonTrivial()
	return nil
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func init() {
	Register(&Prop{
		ID: "C36", Slow: true, Quick: 60, Thorough: 4000,
		Rule: "every structure built with 200000-300000 elements in rising, falling or mixed order, then 8192 calls of each operation whose cost does not grow with the size (or grows logarithmically), and the operations that visit everything once; the time per call (per element) must stay below 6 µs and 200 accesses to a Go map of the same size measured at the same moment, in the best of four attempts (several times what any operation takes; looking at every element takes far longer); or (churn) at 100-600 consecutive and 200 other sizes up to 32768, reached from below and from above, 256 times 1-6 insertions and as many removals, which together must allocate no more than 1 KB per operation (ropes 16, B-trees 6) and 1 KB per element; or (growth) up to 2^20 insertions, each of which must on average allocate no more from a quarter of the way on than 3 times what it allocates from 1/64 to 1/16 of the way, and 512 bytes; every case is non-trivial",
		Fixed: func() []Case {
			var out []Case
			for k := range costKinds {
				for o := 0; o < 3; o++ {
					out = append(out, Case{Cfg: map[string]int64{"kind": int64(k), "order": int64(o), "n": 0, "a": int64(k + o), "op": 0}})
				}
			}
			for k := range churnKinds {
				out = append(out, Case{Cfg: map[string]int64{"churn": int64(k + 1), "a": int64(k), "n": 0, "gap": 0}})
				out = append(out, Case{Cfg: map[string]int64{"churn": int64(k + 1), "grow": 1, "a": int64(k), "n": 0}})
			}
			return out
		},
		Gen: func(g *G) Case {
			if g.Chance(12) {
				return Case{Cfg: map[string]int64{"churn": 1 + g.Uniform(int64(len(churnKinds))), "grow": 1, "a": g.Uniform(1 << 10), "n": g.Uniform(6000)}}
			}
			if g.Chance(3) {
				return Case{Cfg: map[string]int64{"churn": 1 + g.Uniform(int64(len(churnKinds))), "a": g.Uniform(1 << 10), "n": g.Uniform(6000), "gap": g.Pick(0, 0, 0, 1, 2, 3, 4, 5)}}
			}
			return Case{Cfg: map[string]int64{"kind": g.Uniform(int64(len(costKinds))), "order": g.Uniform(3), "n": g.Uniform(100000), "a": g.Uniform(1 << 20), "op": 0}}
		},
		Run:        runTime,
		Assumption: []string{"the thread's CPU clock (or, without one, the wall clock in the best of four attempts) is a measure of the steps taken"},
	})
}
