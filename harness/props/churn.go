package props

import (
	"fmt"
	"runtime"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	. "verif/harness/pbt"
)

// The other half of C36: insertions and removals in turn at any one size. A
// structure that makes room and gives it back at the same size would copy
// everything each time, which a history of one direction does not show.

var churnKinds = []string{"hashmap", "hashset", "mapset", "set-hash", "avl", "btree", "interval", "trie", "heap", "cache", "cache-evict", "bimap",
	"MapSlice", "MapSet", "AvlSlice", "AvlSet", "MapSlice-one", "MapSet-one", "AvlSlice-one", "AvlSet-one",
	"list", "queue", "stack", "ulist", "ulist-middle", "rope", "prope", "hashmap-copied"}

// churner has at any time the elements 0..size-1; add puts the next one, del
// removes the last.
type churner struct {
	add, del func(i int64)
	perOp    int64 // bytes an operation may allocate besides growth
}

func makeChurn(kind string, a int64) churner {
	less := g.Less[int64]
	c := churner{perOp: 1 << 10}
	hcap := uint64(capacities[Mod(a, len(capacities))])
	multi := func(m multimap.MultiMap[int64, int64], one bool) {
		c.add = func(i int64) { m.Put(i, i) }
		c.del = func(i int64) { m.Remove(i, i) }
		if one {
			c.add = func(i int64) { m.Put(1, i) }
			c.del = func(i int64) { m.Remove(1, i) }
		} else if a%2 == 1 {
			c.del = func(i int64) { m.RemoveAll(i) }
		}
	}
	tree := func(t treeLike) {
		c.add = func(i int64) { t.Put(i, i) }
		c.del = func(i int64) { t.Remove(i) }
	}
	sets := func(s set.SetOf[int64]) { c.add, c.del = s.Put, s.Remove }
	switch kind {
	case "hashmap":
		tree(hashmap.New[int64, int64](hcap, g.Equals[int64], g.HashInt64))
	case "hashmap-copied":
		m := hashmap.New[int64, int64](hcap, g.Equals[int64], g.HashInt64)
		first := true
		c.add = func(i int64) {
			if m.Put(i, i); first && i > 1000 {
				first = false
				m = m.Copy()
			}
		}
		c.del = func(i int64) { m.Remove(i) }
	case "hashset":
		sets(hashset.New(hcap, g.Equals[int64], g.HashInt64))
	case "mapset":
		sets(mapset.New[int64]())
	case "set-hash":
		sets(set.NewHashset(hcap, g.Equals[int64], g.HashInt64))
	case "avl":
		tree(avl.New[int64, int64](less))
	case "btree":
		tree(btree.New[int64, int64](less))
		c.perOp = 6 << 10 // a node
	case "interval":
		t := interval.New[int64, int64]()
		c.add = func(i int64) { t.Put(i, i+2, i) }
		c.del = func(i int64) { t.Remove(i) }
	case "trie":
		t := trie.New[int64]()
		c.add = func(i int64) { t.Put(costKey(i), i) }
		c.del = func(i int64) { t.Remove(costKey(i)) }
	case "heap":
		h := heap.New(less)
		if a%2 == 1 {
			h = heap.FromSlice(less, nil)
		}
		c.add = func(i int64) { h.Push(-i) }
		c.del = func(i int64) { h.Pop() }
	case "cache":
		m := cache.New[int64, int64](1 << 20)
		c.add = func(i int64) { m.Put(i, i) }
		c.del = func(i int64) { m.Remove(i) }
	case "cache-evict": // sizes are capacities
		m := cache.New[int64, int64](0)
		c.add = func(i int64) { m.Resize(int(i) + 1); m.Put(i, i) }
		c.del = func(i int64) { m.Resize(int(i)) }
	case "bimap":
		m := &bimap.Bimap[int64, int64]{}
		c.add = func(i int64) { m.Add(i, -i) }
		c.del = func(i int64) { m.RemoveForward(i) }
		if a%2 == 1 {
			c.del = func(i int64) { m.RemoveReverse(-i) }
		}
	case "MapSlice", "MapSlice-one":
		multi(multimap.NewMapSlice[int64, int64](), kind != "MapSlice")
	case "MapSet", "MapSet-one":
		multi(multimap.NewMapSet[int64](less), kind != "MapSet")
	case "AvlSlice", "AvlSlice-one":
		multi(multimap.NewAvlSlice[int64, int64](less), kind != "AvlSlice")
	case "AvlSet", "AvlSet-one":
		multi(multimap.NewAvlSet(less, less), kind != "AvlSet")
	case "list":
		l := list.New[int64]()
		c.add = func(i int64) { l.PushBack(i) }
		c.del = func(i int64) { l.Remove(l.Back) }
	case "queue":
		q := queue.New[int64]()
		c.add = func(i int64) { q.Enqueue(i) }
		c.del = func(i int64) { q.Dequeue() }
	case "stack":
		s := stack.New[int64]()
		c.add = func(i int64) { s.Push(i) }
		c.del = func(i int64) { s.Pop() }
	case "ulist":
		u := ulist.New[int64](1 + Mod(a, 64))
		c.add = func(i int64) { u.PushBack(i) }
		c.del = func(i int64) { u.Remove(u.End()) }
		if a%2 == 1 {
			c.add = func(i int64) { u.PushFront(i) }
			c.del = func(i int64) { u.Remove(u.Begin()) }
		}
		c.perOp = 2 << 10
	case "ulist-middle":
		u := ulist.New[int64](1 + Mod(a, 64))
		var it *ulist.UListIter[int64]
		c.add = func(i int64) {
			if it == nil || !it.IsValid() {
				u.PushBack(i)
				it = u.Begin()
			} else if i%3 == 0 {
				u.AddBefore(it, i)
			} else {
				u.AddAfter(it, i)
			}
		}
		c.del = func(i int64) {
			if u.Remove(it); !it.IsValid() {
				it = u.End()
			}
		}
		c.perOp = 3 << 10
	case "rope":
		rope.SplitLength, rope.JoinLength = 64, 32
		if a%2 == 1 {
			rope.JoinLength = 60 // a leaf that was split is joined soon
		}
		t := rope.New[int64](nil)
		x := []int64{7}
		c.add = func(i int64) { t.Insert(Mod(Mix(i), t.Len()+1), x) }
		c.del = func(i int64) { p := Mod(Mix(i), t.Len()); t.Remove(p, p+1) }
		c.perOp = 16 << 10
	case "prope":
		prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = 64, 32, 1.2
		if a%2 == 1 {
			prope.JoinLength = 60
		}
		t := prope.New[int64](nil)
		x := []int64{7}
		c.add = func(i int64) { t = t.Insert(Mod(Mix(i), t.Len()+1), x) }
		c.del = func(i int64) { p := Mod(Mix(i), t.Len()); t = t.Remove(p, p+1) }
		c.perOp = 16 << 10
	default:
		panic("unknown kind " + kind)
	}
	return c
}

// churnSizes are the sizes to stop at: all of a stretch, and those around
// powers of two and simple fractions of them.
func churnSizes(from, n, top int64) []int64 {
	at := map[int64]int64{}
	for i := int64(0); i < n; i++ {
		at[from+i] = 1
	}
	for p := int64(256); p <= top; p *= 2 {
		for _, eighths := range []int64{4, 5, 6, 7} {
			for d := int64(-3); d <= 3; d++ {
				at[p/4*eighths+d] = 1
			}
		}
	}
	return sortedKeys(at)
}

const churnTurns = 256

func runChurn(c Case, r *Rec) error {
	_, restore := thresholds(Case{Cfg: map[string]int64{}})
	defer restore()
	kind := churnKinds[Mod(c.Cfg["churn"]-1, len(churnKinds))]
	a := c.Cfg["a"]
	s := makeChurn(kind, a)
	r.Label("churn-" + kind)
	if c.Cfg["grow"]&1 == 1 {
		return runGrowth(kind, s, c, r)
	}
	gap := 1 + Mod64(c.Cfg["gap"], 6)
	top := int64(1 << 15)
	if kind == "rope" || kind == "prope" || kind == "trie" {
		top = 1 << 13
	}
	sizes := churnSizes(Mod64(c.Cfg["n"], 6000), 600/gap, top)
	size := int64(0)
	to := func(n int64) {
		for size < n {
			s.add(size)
			size++
		}
		for size > n {
			size--
			s.del(size)
		}
	}
	turns := func() uint64 {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		at := size
		for t := 0; t < churnTurns; t++ {
			to(at + gap)
			to(at)
		}
		runtime.ReadMemStats(&after)
		return after.TotalAlloc - before.TotalAlloc
	}
	visit := func(n int64) error {
		r.Budget()
		to(n)
		// room for the elements may be made and given up a few times
		limit := uint64(churnTurns*2*gap*s.perOp + 1000*n)
		if got := turns(); got > limit && turns() > limit {
			return fmt.Errorf("%s with %d elements: %d times %d insertions and as many removals allocate %d bytes, limit %d: room is made and given up over and over", kind, n, churnTurns, gap, got, limit)
		}
		return nil
	}
	for _, n := range sizes {
		if err := visit(n); err != nil {
			return err
		}
	}
	for i := len(sizes) - 1; i >= 0; i-- {
		if err := visit(sizes[i]); err != nil {
			return err
		}
	}
	r.NonTrivial()
	return nil
}

// runGrowth compares what an insertion allocates on the way to a size and on
// the way to sixteen times that size: the same if it is an amortised constant
// (a little more if it is logarithmic), sixteen times as much if room is made
// for a constant number of elements at a time.
func runGrowth(kind string, s churner, c Case, r *Rec) error {
	low := int64(1<<16) + Mod64(c.Cfg["n"], 6000)
	if kind == "rope" || kind == "prope" || kind == "trie" || kind == "interval" {
		low /= 8
	}
	size := int64(0)
	perOp := func(to int64) uint64 {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		from := size
		for size < to {
			if s.add(size); size%1024 == 0 {
				r.Budget()
			}
			size++
		}
		runtime.ReadMemStats(&after)
		return (after.TotalAlloc - before.TotalAlloc) / uint64(to-from)
	}
	perOp(low / 4)
	small := perOp(low)
	perOp(low * 4)
	if large, limit := perOp(low*16), 3*small+512; large > limit {
		return fmt.Errorf("%s: an insertion allocates %d bytes on average on the way from %d to %d elements, and %d from %d to %d: room is made for too few at a time", kind, small, low/4, low, large, low*4, low*16)
	}
	r.Label("growth")
	r.NonTrivial()
	return nil
}
