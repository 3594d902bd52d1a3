package props

import (
	"fmt"
	"slices"
	"sync"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	. "verif/harness/pbt"
)

// shared is one structure as C35 sees it. Reads return what they saw in a form
// that does not depend on an unspecified iteration order; they use nothing
// (fmt, pools, locks) that would order two goroutines and so hide a race.
type shared struct {
	write func(o Op)
	reads []func(a, b int64) []int64
	// nest are iterations over the structure that call inner for each element.
	nest []func(inner func())
	// fork returns an independent structure (a copy, a version, a part).
	fork func() *shared
}

func ok64(v int64, ok bool) []int64 {
	if ok {
		return []int64{v, 1}
	}
	return []int64{0}
}

func sorted64(a []int64) []int64 {
	slices.Sort(a)
	return a
}

func bool64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// str64 packs a string into integers.
func str64(out []int64, s string) []int64 {
	out = append(out, int64(len(s)))
	for i := 0; i < len(s); i++ {
		out = append(out, int64(s[i]))
	}
	return out
}

var sharedKinds = []string{"avl", "btree", "interval", "hashmap", "hashset", "mapset", "set-hash", "set-map", "trie", "heap", "cache", "bimap",
	"MapSlice", "MapSet", "AvlSlice", "AvlSet", "list", "queue", "stack", "rope", "prope", "ulist", "array2d", "functions"}

type treeLike interface {
	Put(k, v int64)
	Get(k int64) (int64, bool)
	Remove(k int64)
	Size() int
	Each(fn func(k, v int64))
}

func shareTree(t treeLike, extra ...func(a, b int64) []int64) *shared {
	each := func(a, b int64) []int64 {
		var out []int64
		t.Each(func(k, v int64) { out = append(out, k, v) })
		return out
	}
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					t.Remove(k)
				} else {
					t.Put(k, k*3+o.B)
				}
			}
		},
		reads: append([]func(a, b int64) []int64{
			func(a, b int64) []int64 { return ok64(t.Get(a)) },
			func(a, b int64) []int64 { return []int64{int64(t.Size())} },
			each,
		}, extra...),
		nest: []func(func()){func(inner func()) { t.Each(func(k, v int64) { inner() }) }},
	}
}

func shareHashmap(m *hashmap.Map[int64, int64]) *shared {
	s := shareTree(m)
	s.reads[2] = func(a, b int64) []int64 {
		var out []int64
		m.Each(func(k, v int64) { out = append(out, k<<20^v) })
		return sorted64(out)
	}
	s.fork = func() *shared { return shareHashmap(m.Copy()) }
	return s
}

func shareSetOf(t set.SetOf[int64], fork func() *shared) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					t.Remove(k)
				} else {
					t.Put(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return []int64{bool64(t.Has(a)), bool64(t.Has(b))} },
			func(a, b int64) []int64 { return []int64{int64(t.Size())} },
			func(a, b int64) []int64 {
				var out []int64
				t.Each(func(k int64) { out = append(out, k) })
				return sorted64(out)
			},
		},
		nest: []func(func()){func(inner func()) { t.Each(func(int64) { inner() }) }},
		fork: fork,
	}
}

func shareHashset(h *hashset.Set[int64]) *shared {
	return shareSetOf(h, func() *shared { return shareHashset(h.Copy()) })
}

// shareSet reads through the algebra and the relations too, with operands that
// all goroutines share.
func shareSet(s set.Set[int64], others []set.SetOf[int64], of func(in ...int64) set.Set[int64]) *shared {
	sh := shareSetOf(s, func() *shared { return shareSet(s.Clone(), others, of) })
	dump := func(t set.Set[int64]) []int64 { return sorted64(t.Keys()) }
	sh.reads = append(sh.reads,
		func(a, b int64) []int64 { return dump(s) },
		func(a, b int64) []int64 { return dump(s.Union(others...)) },
		func(a, b int64) []int64 { return dump(s.Intersection(others[Mod(a, len(others))])) },
		func(a, b int64) []int64 { return dump(s.Difference(others[Mod(a, len(others))])) },
		func(a, b int64) []int64 { return dump(s.SymmetricDifference(others[Mod(a, len(others))])) },
		func(a, b int64) []int64 { return dump(s.ConstUnion(a, b)) },
		func(a, b int64) []int64 { return dump(s.ConstIntersection(a, b)) },
		func(a, b int64) []int64 { return dump(s.ConstDifference(a, b)) },
		func(a, b int64) []int64 { return dump(s.Clone()) },
		func(a, b int64) []int64 {
			t := others[Mod(a, len(others))]
			return []int64{bool64(s.IsSubset(t)), bool64(s.IsSuperset(t)), bool64(s.Equal(t)), bool64(s.IsDisjoint(t)), bool64(s.IsProperSubset(t)), bool64(s.IsProperSuperset(t)), int64(len(s.Map()))}
		})
	return sh
}

func shareBimap(m *bimap.Bimap[int64, int64]) *shared {
	return &shared{
		write: func(o Op) {
			for j, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				switch Mod(o.C, 5) {
				case 3:
					m.RemoveForward(k)
				case 4:
					m.RemoveReverse(k + 1)
				default:
					m.Add(k, o.A+int64(j)+o.C)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return ok64(m.GetForward(a)) },
			func(a, b int64) []int64 { return ok64(m.GetReverse(a)) },
			func(a, b int64) []int64 {
				return []int64{bool64(m.ContainsForward(a)), bool64(m.ContainsReverse(a)), int64(m.Len())}
			},
			func(a, b int64) []int64 {
				var out []int64
				m.Each(func(k, v int64) { out = append(out, k<<20^v) })
				return sorted64(out)
			},
		},
		nest: []func(func()){func(inner func()) { m.Each(func(k, v int64) { inner() }) }},
		fork: func() *shared { c := m.Copy(); return shareBimap(&c) },
	}
}

func shareMulti(m multimap.MultiMap[int64, int64]) *shared {
	return &shared{
		write: func(o Op) {
			for j, k := range pattern(Mod64(o.A, 12), Mod(o.B, 12)+1, o.C) {
				k = Mod64(k, 14)
				switch Mod(o.C, 7) {
				case 5:
					m.Remove(k, int64(j%5))
				case 6:
					m.RemoveAll(k)
				default:
					m.Put(k, int64(j%5)+o.B%3)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return sorted64(append([]int64(nil), m.Get(Mod64(a, 14))...)) },
			func(a, b int64) []int64 {
				k := Mod64(a, 14)
				return []int64{int64(m.Count(k)), bool64(m.Has(k)), int64(m.Size()), int64(m.Dimension())}
			},
			func(a, b int64) []int64 {
				var out []int64
				m.Each(func(k, v int64) { out = append(out, k<<20^v) })
				return sorted64(out)
			},
			func(a, b int64) []int64 {
				var out []int64
				m.EachAssociation(func(k int64, vs []int64) {
					for _, v := range vs {
						out = append(out, k<<20^v)
					}
				})
				return sorted64(out)
			},
		},
		nest: []func(func()){
			func(inner func()) { m.Each(func(k, v int64) { inner() }) },
			func(inner func()) { m.EachAssociation(func(int64, []int64) { inner() }) },
		},
	}
}

func shareQueue(q *queue.Queue[int64]) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					q.TryDequeue()
				} else {
					q.Enqueue(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return ok64(q.TryPeek()) },
			func(a, b int64) []int64 { return []int64{int64(q.Len()), bool64(q.Empty())} },
			func(a, b int64) []int64 { return append([]int64(nil), q.PeekAll()...) },
			func(a, b int64) []int64 {
				var out []int64
				q.Each(func(v int64) { out = append(out, v) })
				return out
			},
			func(a, b int64) []int64 { return q.Copy().DequeueAll() },
		},
		nest: []func(func()){func(inner func()) { q.Each(func(int64) { inner() }) }},
		fork: func() *shared { return shareQueue(q.Copy()) },
	}
}

func shareStack(s *stack.Stack[int64]) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					s.Pop()
				} else {
					s.Push(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return []int64{s.Peek(), int64(s.Size())} },
			func(a, b int64) []int64 {
				var out []int64
				for c := s.Copy(); c.Size() > 0; {
					out = append(out, c.Pop())
				}
				return out
			},
		},
		fork: func() *shared { return shareStack(s.Copy()) },
	}
}

func shareHeap(h *heap.Heap[int64]) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					h.Pop()
				} else {
					h.Push(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return ok64(h.Peek()) },
			func(a, b int64) []int64 { return []int64{int64(h.Size())} },
		},
	}
}

func to64(v []int32) []int64 {
	out := make([]int64, len(v))
	for i := range v {
		out[i] = int64(v[i])
	}
	return out
}

func run32(a int64, n int) []int32 {
	out := make([]int32, n)
	for i := range out {
		out[i] = int32(a) + int32(i)
	}
	return out
}

func shareRope(n *rope.Node[int32]) *shared {
	return &shared{
		write: func(o Op) {
			if Mod(o.C, 3) == 2 {
				a, b := span(o.A, o.B, n.Len())
				n.Remove(a, b)
			} else if n.Len() < 2000 {
				n.Insert(position(o.A, n.Len()), run32(o.A, Mod(o.B, 20)))
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return to64(n.Value()) },
			func(a, b int64) []int64 { x, y := span(a, b, n.Len()); return to64(n.Slice(x, y)) },
			func(a, b int64) []int64 {
				if n.Len() == 0 {
					return nil
				}
				return []int64{int64(n.Len()), int64(n.At(Mod(a, n.Len())))}
			},
			func(a, b int64) []int64 {
				var out []int64
				n.Each(func(l *rope.Node[int32]) { out = append(out, to64(l.Value())...) })
				return out
			},
		},
		nest: []func(func()){func(inner func()) { n.Each(func(*rope.Node[int32]) { inner() }) }},
		fork: func() *shared { // the parts of a split
			l, r := n.SplitAt(n.Len() / 2)
			n = l
			return shareRope(r)
		},
	}
}

// sharePrope: operations that make a new version are reads of the old one.
func sharePrope(n *prope.Node[int32]) *shared {
	return &shared{
		write: func(o Op) {
			if Mod(o.C, 3) == 2 {
				a, b := span(o.A, o.B, n.Len())
				n = n.Remove(a, b)
			} else if n.Len() < 2000 {
				n = n.Insert(position(o.A, n.Len()), run32(o.A, Mod(o.B, 20)))
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return to64(n.Value()) },
			func(a, b int64) []int64 { x, y := span(a, b, n.Len()); return to64(n.Slice(x, y)) },
			func(a, b int64) []int64 {
				if n.Len() == 0 {
					return nil
				}
				return []int64{int64(n.Len()), int64(n.At(Mod(a, n.Len())))}
			},
			func(a, b int64) []int64 { return to64(n.Insert(position(a, n.Len()), run32(b, Mod(b, 9))).Value()) },
			func(a, b int64) []int64 { x, y := span(a, b, n.Len()); return to64(n.Remove(x, y).Value()) },
			func(a, b int64) []int64 {
				l, r := n.SplitAt(position(a, n.Len()))
				return append(to64(l.Value()), to64(r.Value())...)
			},
			func(a, b int64) []int64 { return to64(prope.Join(n, n).Value()) },
		},
		fork: func() *shared { return sharePrope(n) },
	}
}

func shareUlist(u *ulist.UList[int64]) *shared {
	walk := func(a, b int64) []int64 {
		var out []int64
		for it := u.Begin(); it.IsValid(); it.Next() {
			out = append(out, it.Get())
		}
		return out
	}
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				switch Mod(o.C, 4) {
				case 0:
					u.PushFront(k)
				case 3:
					if it := u.Begin(); it.IsValid() {
						u.Remove(it)
					}
				default:
					u.PushBack(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			walk,
			func(a, b int64) []int64 {
				var out []int64
				for it := u.End(); it.IsValid(); it.Prev() {
					out = append(out, it.Get())
				}
				return out
			},
			func(a, b int64) []int64 { return []int64{int64(u.Size())} },
		},
	}
}

func shareGrid(a2 array2d.Array2D[int64]) *shared {
	w, h := a2.Width(), a2.Height()
	return &shared{
		write: func(o Op) {
			if Mod(o.C, 2) == 0 {
				a2.Fill(Mod(o.A, w), Mod(o.B, h), Mod(o.A>>5, w), Mod(o.B>>5, h), o.C)
			} else {
				a2.Set(Mod(o.A, w), Mod(o.B, h), o.C)
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 {
				return []int64{a2.Get(Mod(a, w), Mod(b, h)), int64(a2.Width()), int64(a2.Height())}
			},
			func(a, b int64) []int64 { return append([]int64(nil), a2.Row(Mod(b, h))...) },
			func(a, b int64) []int64 {
				return append([]int64(nil), a2.RowSpan(Mod(a, w), Mod(b, w), Mod(a+b, h))...)
			},
			func(a, b int64) []int64 { return str64(nil, a2.String()) },
			func(a, b int64) []int64 { return a2.Copy().Row(Mod(a, h)) },
		},
		fork: func() *shared { return shareGrid(a2.Copy()) },
	}
}

func shareList(l *list.List[int64]) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				switch Mod(o.C, 4) {
				case 0:
					l.PushFront(k)
				case 3:
					if l.Front != nil {
						l.Remove(l.Front)
					}
				default:
					l.PushBack(k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 {
				var out []int64
				l.Front.Each(func(v int64) { out = append(out, v) })
				return out
			},
			func(a, b int64) []int64 {
				var out []int64
				l.Back.EachReverse(func(v int64) { out = append(out, v) })
				return out
			},
			func(a, b int64) []int64 {
				var out []int64
				l.Front.EachNode(func(n *list.Node[int64]) { out = append(out, n.Value) })
				l.Back.EachReverseNode(func(n *list.Node[int64]) { out = append(out, n.Value) })
				return out
			},
		},
		nest: []func(func()){
			func(inner func()) { l.Front.Each(func(int64) { inner() }) },
			func(inner func()) { l.Back.EachReverse(func(int64) { inner() }) },
			func(inner func()) { l.Front.EachNode(func(*list.Node[int64]) { inner() }) },
			func(inner func()) { l.Back.EachReverseNode(func(*list.Node[int64]) { inner() }) },
		},
	}
}

func shareTrie(t *trie.Trie[int64]) *shared {
	key := func(a int64) string {
		s := ""
		for n := Mod(a, 4) + 1; n > 0; n-- {
			a = Mix(a) >> 3
			s += string("abc\x00\xff"[Mod(a, 5)])
		}
		return s
	}
	all := func(ks []string) []int64 {
		var out []int64
		for _, k := range ks {
			out = str64(out, k)
		}
		return out
	}
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				if Mod(o.C, 3) == 2 {
					t.Remove(key(k))
				} else {
					t.Put(key(k), k)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return ok64(t.Get(key(a))) },
			func(a, b int64) []int64 { return []int64{bool64(t.Contains(key(b))), int64(t.Size())} },
			func(a, b int64) []int64 { return all(t.Keys()) },
			func(a, b int64) []int64 { return all(t.KeysWithPrefix(key(a)[:1])) },
			func(a, b int64) []int64 { return str64(nil, t.LongestPrefix(key(a)+key(b))) },
		},
	}
}

func shareCache(t *cache.Cache[int64, int64]) *shared {
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				switch Mod(o.C, 4) {
				case 2:
					t.Remove(k)
				case 3:
					t.Get(k)
				default:
					t.Put(k, k*7)
				}
			}
		},
		reads: []func(a, b int64) []int64{ // Get is a use of the entry, not a plain read
			func(a, b int64) []int64 { return []int64{int64(t.Size()), int64(t.Capacity())} },
			func(a, b int64) []int64 {
				var out []int64
				t.Each(func(k, v int64) { out = append(out, k, v) })
				return out
			},
		},
		nest: []func(func()){func(inner func()) { t.Each(func(k, v int64) { inner() }) }},
	}
}

func shareInterval(t *interval.Tree[int64, int64]) *shared {
	kv := func(e interval.KV[int64, int64], ok bool) []int64 { return []int64{e.Low, e.High, e.Val, bool64(ok)} }
	return &shared{
		write: func(o Op) {
			for _, k := range pattern(o.A, Mod(o.B, 12)+1, o.C) {
				switch Mod(o.C, 4) {
				case 3:
					t.Remove(k)
				case 2:
					t.Add(k, k+1+Mod64(o.B, 9), k*5)
				default:
					t.Put(k, k+1+Mod64(o.B, 20), k*3)
				}
			}
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 { return kv(t.Get(a)) },
			func(a, b int64) []int64 { return []int64{int64(t.Size()), int64(t.Height())} },
			func(a, b int64) []int64 {
				var out []int64
				for _, e := range t.Overlaps(a, a+1+Mod64(b, 30)) {
					out = append(out, e.Low, e.High, e.Val)
				}
				return out
			},
			func(a, b int64) []int64 {
				var out []int64
				t.Each(func(lo, hi, v int64) { out = append(out, lo, hi, v) })
				return out
			},
		},
		nest: []func(func()){func(inner func()) { t.Each(func(lo, hi, v int64) { inner() }) }},
	}
}

// shareFunctions reads through the functions of the top-level package: their
// argument is the only state.
func shareFunctions() *shared {
	text := "a text"
	bytes := []byte(text)
	return &shared{
		write: func(o Op) {
			bytes = append(bytes, byte(o.A), byte(o.B))
			text = string(bytes)
		},
		reads: []func(a, b int64) []int64{
			func(a, b int64) []int64 {
				return []int64{int64(g.HashString(text[Mod(a, len(text)):])), int64(g.HashBytes(bytes[Mod(b, len(bytes)):]))}
			},
			func(a, b int64) []int64 {
				return []int64{int64(g.HashInt(int(a))), int64(g.HashInt64(a)), int64(g.HashUint64(uint64(b))), int64(g.HashUint32(uint32(a))), int64(g.HashInt32(int32(a))),
					int64(g.HashUint16(uint16(a))), int64(g.HashInt16(int16(a))), int64(g.HashUint8(uint8(a))), int64(g.HashInt8(int8(b))), int64(g.HashUint(uint(b)))}
			},
			func(a, b int64) []int64 {
				return []int64{g.Max(a, b), g.Min(a, b), g.Clamp(a, 3, 9), int64(g.Compare(a, b, g.Less[int64])), bool64(g.Equals(a, b)),
					g.MaxFunc(a, b, g.Less[int64]), g.MinFunc(a, b, g.Less[int64]), g.ClampFunc(a, 3, 9, g.Less[int64])}
			},
		},
	}
}

// Mod64 is Mod as an int64.
func Mod64(a int64, n int) int64 { return int64(Mod(a, n)) }

func makeShared(kind string, size int64) *shared {
	less := g.Less[int64]
	hash := g.HashInt64
	if Mod(size, 3) == 1 {
		hash = func(a int64) uint64 { return uint64(Mod(a, 5)) }
	}
	hcap := uint64(Mod(size, 20))
	operands := func() []set.SetOf[int64] {
		a, b := mapset.New[int64](), hashset.New(4, g.Equals[int64], hash)
		for i := int64(0); i < 20; i++ {
			a.Put(i * 2)
			b.Put(i + size%7)
		}
		return []set.SetOf[int64]{a, b}
	}
	switch kind {
	case "avl":
		t := avl.New[int64, int64](less)
		return shareTree(t, func(a, b int64) []int64 { return []int64{int64(t.Height())} })
	case "btree":
		return shareTree(btree.New[int64, int64](less))
	case "interval":
		return shareInterval(interval.New[int64, int64]())
	case "hashmap":
		return shareHashmap(hashmap.New[int64, int64](hcap, g.Equals[int64], hash))
	case "hashset":
		return shareHashset(hashset.New(hcap, g.Equals[int64], hash))
	case "mapset":
		return shareSetOf(mapset.New[int64](), nil)
	case "set-hash":
		of := func(in ...int64) set.Set[int64] { return set.NewHashset(hcap, g.Equals[int64], hash, in...) }
		return shareSet(of(), operands(), of)
	case "set-map":
		of := func(in ...int64) set.Set[int64] { return set.NewMapset(in...) }
		return shareSet(of(), operands(), of)
	case "trie":
		return shareTrie(trie.New[int64]())
	case "heap":
		return shareHeap(heap.New(less))
	case "cache":
		return shareCache(cache.New[int64, int64](Mod(size, 20)))
	case "bimap":
		return shareBimap(&bimap.Bimap[int64, int64]{})
	case "MapSlice":
		return shareMulti(multimap.NewMapSlice[int64, int64]())
	case "MapSet":
		return shareMulti(multimap.NewMapSet[int64](less))
	case "AvlSlice":
		return shareMulti(multimap.NewAvlSlice[int64, int64](less))
	case "AvlSet":
		return shareMulti(multimap.NewAvlSet(less, less))
	case "list":
		return shareList(list.New[int64]())
	case "queue":
		return shareQueue(queue.New[int64]())
	case "stack":
		return shareStack(stack.New[int64]())
	case "rope":
		return shareRope(rope.New(run32(0, Mod(size, 90))))
	case "prope":
		return sharePrope(prope.New(run32(0, Mod(size, 90))))
	case "ulist":
		return shareUlist(ulist.New[int64](Mod(size, 6) + 1))
	case "functions":
		return shareFunctions()
	case "array2d":
		return shareGrid(array2d.New[int64](Mod(size, 7)+1, Mod(size>>3, 7)+1))
	}
	panic("unknown kind " + kind)
}

const goroutines = 3

// abort is the value an aborted iteration panics with.
type abort struct{}

// runSharing builds one structure twice by the same history. The reads run on
// the one in a single goroutine, which gives what each must return, and on the
// other in several unsynchronised goroutines under the race detector. In copy
// mode every goroutine also writes, to a structure of its own: a copy, a
// version, a split part, or one built separately.
func runSharing(c Case, r *Rec) error {
	kind := sharedKinds[Mod(c.Cfg["kind"], len(sharedKinds))]
	split, restore := thresholds(Case{Cfg: map[string]int64{"split": c.Cfg["split"], "join": c.Cfg["join"]}})
	defer restore()
	_ = split
	build := func() *shared {
		s := makeShared(kind, c.Cfg["size"])
		for _, o := range c.Ops {
			if o.N == "write" {
				s.write(o)
			}
		}
		return s
	}
	r.Label(kind)
	copies := Mod(c.Cfg["copies"], 2) == 1
	setup := func() (own [goroutines]*shared, base *shared) {
		base = build()
		for i := range own {
			own[i] = base
			switch {
			case !copies || i == 0: // goroutine 0 keeps the original
			case base.fork != nil && (i == 1 || Mod(c.Cfg["copies"], 4) == 1):
				own[i] = base.fork()
			default:
				own[i] = build() // unrelated
			}
		}
		return
	}
	type step struct {
		o   Op
		idx int
	}
	var plan [goroutines][]step
	reads := 0
	for i, o := range c.Ops {
		if o.N == "read" || o.N == "sweep" || o.N == "own" && copies {
			w := Mod(o.C, goroutines)
			plan[w] = append(plan[w], step{o, i})
			if o.N != "own" {
				reads++
			}
		}
	}
	results := make([][]int64, len(c.Ops))
	perform := func(s *shared, p []step, results [][]int64) {
		for _, st := range p {
			o := st.o
			if o.N == "own" {
				s.write(Op{A: o.A, B: o.B, C: o.C >> 3})
				continue
			}
			read := s.reads[Mod(o.C>>3, len(s.reads))]
			if o.N == "sweep" { // the same read for a run of arguments
				var all []int64
				for d := int64(0); d < 40; d++ {
					all = append(all, read(o.A+d, o.A+d+1+o.B%7)...)
				}
				results[st.idx] = all
				continue
			}
			results[st.idx] = read(o.A, o.B)
		}
	}
	want := make([][]int64, len(c.Ops))
	own, _ := setup()
	for w := range plan {
		perform(own[w], plan[w], want)
	}
	own, base := setup()
	races := raceErrors()
	var wg sync.WaitGroup
	panics := make([]any, goroutines)
	for w := range plan {
		if len(plan[w]) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			panics[w] = Panics(func() { perform(own[w], plan[w], results) })
		}()
	}
	wg.Wait()
	for w, p := range panics {
		if p != nil {
			return fmt.Errorf("%s: goroutine %d of %d panicked: %v", kind, w, goroutines, p)
		}
	}
	if n := raceErrors() - races; n > 0 {
		what := "reads of one structure"
		if copies {
			what = "uses of independent structures"
		}
		return fmt.Errorf("%s: the race detector reports %d data races between %s in different goroutines", kind, n, what)
	}
	for i := range want {
		if !sameInts(results[i], want[i]) {
			return errf(i, c.Ops[i], "%s: a concurrent read gives %v, alone it gives %v", kind, trunc(fmt.Sprint(results[i])), trunc(fmt.Sprint(want[i])))
		}
	}
	if !copies {
		// the reads changed nothing, also when nested into an iteration
		again := make([][]int64, len(c.Ops))
		for w := range plan {
			perform(base, plan[w], again)
		}
		for _, nest := range base.nest {
			nested := 0
			nest(func() {
				if nested < 3 {
					for w := range plan {
						perform(base, plan[w], results)
					}
				}
				nested++
			})
			r.LabelIf(nested > 0, "nested")
		}
		for i := range want {
			if !sameInts(again[i], want[i]) || !sameInts(results[i], want[i]) {
				return errf(i, c.Ops[i], "%s: repeated or inside an iteration the read gives %v and %v, at first %v", kind, trunc(fmt.Sprint(again[i])), trunc(fmt.Sprint(results[i])), trunc(fmt.Sprint(want[i])))
			}
		}
		// an iteration that ends by a panic of its callback leaves no trace
		// either, also not in what follows
		other := build()
		for _, nest := range base.nest {
			stop := 1 + Mod(c.Cfg["size"], 4)
			p := Panics(func() {
				nest(func() {
					if stop--; stop <= 0 {
						panic(abort{})
					}
				})
			})
			if _, mine := p.(abort); p != nil && !mine {
				return fmt.Errorf("%s: an iteration panics: %v", kind, p)
			}
			r.LabelIf(p != nil, "aborted iteration")
		}
		for round := 0; round < 2; round++ {
			for w := range plan {
				perform(base, plan[w], again)
				perform(other, plan[w], results)
			}
			for i := range want {
				if !sameInts(again[i], results[i]) {
					return errf(i, c.Ops[i], "%s: after iterations cut short by a panic and %d changes the read gives %v, without them %v", kind, round*3, trunc(fmt.Sprint(again[i])), trunc(fmt.Sprint(results[i])))
				}
			}
			for j := int64(0); j < 3; j++ {
				o := Op{A: c.Cfg["size"] + j*3, B: c.Cfg["size"] / 7, C: c.Cfg["split"] + j}
				base.write(o)
				other.write(o)
			}
		}
	}
	busy := 0
	for _, p := range plan {
		if len(p) > 0 {
			busy++
		}
	}
	r.LabelIf(copies, "copies")
	r.LabelIf(busy > 1, "concurrent")
	if busy > 1 && reads > 1 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	wr := func(g *G) Op { return Op{A: g.Uniform(40), B: g.Uniform(60), C: g.Uniform(15)} }
	rd := func(g *G) Op { return Op{A: g.Uniform(60), B: g.Uniform(60), C: g.Uniform(1 << 10)} }
	Register(&Prop{
		ID: "C35", Quick: 40000, Thorough: 1000000,
		Rule: "random histories on each of 23 structures (and on the top-level functions), then reads (and in copy mode writes to an own copy, version or split part, or an unrelated structure) spread over three unsynchronised goroutines in a binary with the race detector; every read must return what it returns alone on a structure with the same history, again afterwards, from inside an iteration and after an iteration that its callback ended by a panic; non-trivial: at least two goroutines were busy and at least two reads ran",
		Gen: func(g *G) Case {
			c := Case{Cfg: map[string]int64{"kind": g.Uniform(int64(len(sharedKinds))), "copies": g.Uniform(4), "size": g.Uniform(400), "split": g.Uniform(9), "join": g.Uniform(5)}}
			c.Ops = append(c.Ops, g.HistoryN([]Spec{{"write", 1, wr}}, 1+g.Uniform(8))...)
			c.Ops = append(c.Ops, g.HistoryN([]Spec{{"read", 5, rd}, {"sweep", 1, rd}, {"own", 2, rd}}, 2+g.Uniform(14))...)
			return c
		},
		Run:        runSharing,
		Assumption: []string{"the Go race detector reports every pair of conflicting accesses of two goroutines that are not ordered, unless one of them has been evicted from its shadow cells (four per word)"},
	})
}
