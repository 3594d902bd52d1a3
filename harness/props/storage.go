//go:build go1.24

package props

import (
	"fmt"
	"runtime"
	"unsafe"
	"weak"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	. "verif/harness/pbt"
)

// C37: what was removed, replaced or evicted is released.

const payloadSize = 2048

type payload = *[payloadSize]byte

// tracked are the payloads made by the case in progress.
var tracked []weak.Pointer[byte]

// alive counts the payloads that have not been collected.
func alive() int {
	n := 0
	for _, p := range tracked {
		if p.Value() != nil {
			n++
		}
	}
	return n
}

// bigString is a string of payloadSize bytes that differs for each k.
func bigString(k int64) string {
	b := make([]byte, payloadSize)
	for i := 0; i < 8; i++ {
		b[i] = byte(k >> (8 * i))
	}
	s := string(b)
	tracked = append(tracked, weak.Make(unsafe.StringData(s)))
	return s
}

// store is a structure that holds a payload for each of the keys put.
type store struct {
	put    func(k int64)
	remove func(k int64)
	clear  func()
	drop   func() // gives the structure up
	// perEntry and perPeak bound the bytes besides the payload for an entry
	// that is present and for one that was present at the same time once.
	perEntry, perPeak int
	// shared entries: payloads an entry that is present may hold on to
	payloads int
	room     int // if not 0: the entries there can be at once
}

var storeKinds = []string{"hashmap", "hashset", "mapset", "avl", "interval", "trie", "queue", "list", "cache", "bimap-value", "bimap-key", "MapSlice", "MapSet", "AvlSlice", "AvlSet", "trie-keys", "hashmap-copied", "btree", "stack", "heap", "ulist", "cache-small", "set-hash", "set-map"}

func payloadLess(a, b payload) bool {
	for i := 0; i < 8; i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func newPayload(k int64) payload {
	p := payload(new([payloadSize]byte))
	for i := 0; i < 8; i++ {
		p[i] = byte(uint64(k) >> (8 * i))
	}
	tracked = append(tracked, weak.Make(&p[0]))
	return p
}

func multiStore(m multimap.MultiMap[int64, payload], perPeak int) *store {
	vals := map[int64]payload{}
	return &store{
		put: func(k int64) {
			if vals[k] == nil {
				vals[k] = newPayload(k)
				m.Put(k/2, vals[k])
			}
		},
		remove: func(k int64) {
			if v := vals[k]; v != nil {
				m.Remove(k/2, v)
				delete(vals, k)
			}
		},
		clear:    func() { m.Clear(); vals = map[int64]payload{} },
		drop:     func() { m, vals = nil, map[int64]payload{} },
		perEntry: 600, perPeak: perPeak + 100, payloads: 2,
	}
}

func makeStore(kind string, n int) *store {
	less := g.Less[int64]
	switch kind {
	case "hashmap", "hashmap-copied":
		m := hashmap.New[int64, payload](0, g.Equals[int64], g.HashInt64)
		s := &store{
			put:      func(k int64) { m.Put(k, newPayload(k)) },
			remove:   func(k int64) { m.Remove(k) },
			clear:    func() { m.Clear() },
			drop:     func() { m = nil },
			perEntry: 1000, perPeak: 0, payloads: 1,
		}
		if kind == "hashmap-copied" {
			i := 0
			s.put = func(k int64) {
				if i++; i%100 == 0 {
					m = m.Copy() // the original is given up
				}
				m.Put(k, newPayload(k))
			}
		}
		return s
	case "hashset":
		m := hashset.New(0, g.Equals[string], g.HashString)
		return &store{
			put:      func(k int64) { m.Put(bigString(k)) },
			remove:   func(k int64) { m.Remove(bigString(k)) },
			clear:    func() { m.Clear() },
			drop:     func() { m = nil },
			perEntry: 1000, perPeak: 0, payloads: 1,
		}
	case "mapset":
		m := mapset.New[string]()
		return &store{
			put:      func(k int64) { m.Put(bigString(k)) },
			remove:   func(k int64) { m.Remove(bigString(k)) },
			clear:    func() { m.Clear() },
			drop:     func() { m = mapset.New[string]() },
			perEntry: 200, perPeak: 200, payloads: 1,
		}
	case "avl":
		m := avl.New[int64, payload](less)
		return &store{
			put:    func(k int64) { m.Put(k, newPayload(k)) },
			remove: func(k int64) { m.Remove(k) },
			drop:   func() { m = nil }, perEntry: 300, payloads: 1,
		}
	case "interval":
		m := interval.New[int64, payload]()
		return &store{
			put:    func(k int64) { m.Put(k, k+3, newPayload(k)) },
			remove: func(k int64) { m.Remove(k) },
			drop:   func() { m = nil }, perEntry: 300, payloads: 1,
		}
	case "trie":
		m := trie.New[payload]()
		return &store{
			put:    func(k int64) { m.Put(costKey(k), newPayload(k)) },
			remove: func(k int64) { m.Remove(costKey(k)) },
			drop:   func() { m = nil }, perEntry: 2000, payloads: 1,
		}
	case "trie-keys": // the storage is the path of nodes
		m := trie.New[int64]()
		return &store{
			put:    func(k int64) { m.Put(bigString(k)[:200], k) },
			remove: func(k int64) { m.Remove(bigString(k)[:200]) },
			drop:   func() { m = nil }, perEntry: 20000, payloads: 1,
		}
	case "queue":
		m := queue.New[payload]()
		return &store{
			put:    func(k int64) { m.Enqueue(newPayload(k)) },
			remove: func(k int64) { m.TryDequeue() },
			clear:  func() { m.Clear() },
			drop:   func() { m = nil }, perEntry: 300, payloads: 1,
		}
	case "list":
		m := list.New[payload]()
		nodes := map[int64]*list.Node[payload]{}
		return &store{
			put: func(k int64) {
				if n := nodes[k]; n != nil {
					n.Value = newPayload(k)
					return
				}
				m.PushBack(newPayload(k))
				nodes[k] = m.Back
			},
			remove: func(k int64) {
				if n := nodes[k]; n != nil {
					m.Remove(n)
					delete(nodes, k)
				}
			},
			drop: func() { m = nil; nodes = nil }, perEntry: 300, perPeak: 100, payloads: 1,
		}
	case "cache":
		m := cache.New[int64, payload](n)
		return &store{
			put:    func(k int64) { m.Put(k, newPayload(k)) },
			remove: func(k int64) { m.Remove(k) },
			clear:  func() { m.Resize(0); m.Resize(n) },
			drop:   func() { m = nil }, perEntry: 400, perPeak: 200, payloads: 1,
		}
	case "cache-small": // a put evicts
		room := 1 + n%20
		m := cache.New[int64, payload](room)
		kept := 0
		m.SetEvictCallback(func(int64, payload) { kept++ })
		return &store{
			put:    func(k int64) { m.Put(k, newPayload(k)); m.Get(k / 2) },
			remove: func(k int64) { m.Remove(k) },
			clear:  func() { m.Resize(room / 2); m.Resize(0); m.Resize(room) },
			drop:   func() { m = nil }, perEntry: 400, perPeak: 200, payloads: 1, room: room,
		}
	case "set-hash", "set-map":
		m := set.NewMapset[string]()
		if kind == "set-hash" {
			m = set.NewHashset(0, g.Equals[string], g.HashString)
		}
		return &store{
			put: func(k int64) {
				if k%3 == 0 {
					m.InPlaceUnion(set.NewMapset(bigString(k)))
				} else {
					m.Put(bigString(k))
				}
			},
			remove: func(k int64) {
				switch {
				case k%100 == 1:
					m = m.ConstDifference(bigString(k))
				case k%3 == 0:
					m.InPlaceDifference(set.NewMapset(bigString(k)))
				default:
					m.Remove(bigString(k))
				}
			},
			clear:    func() { m.Clear() },
			drop:     func() { m = set.NewMapset[string]() },
			perEntry: 1000, perPeak: 200, payloads: 1,
		}
	case "bimap-value":
		m := &bimap.Bimap[int64, string]{}
		return &store{
			put:    func(k int64) { m.Add(k, bigString(k)) },
			remove: func(k int64) { m.RemoveForward(k) },
			clear:  func() { m.Clear() },
			drop:   func() { m = nil }, perEntry: 600, perPeak: 400, payloads: 1,
		}
	case "bimap-key":
		m := &bimap.Bimap[string, int64]{}
		return &store{
			put:    func(k int64) { m.Add(bigString(k), k) },
			remove: func(k int64) { m.RemoveReverse(k) },
			clear:  func() { m.Clear() },
			drop:   func() { m = nil }, perEntry: 600, perPeak: 400, payloads: 1,
		}
	case "btree": // removed keys stay as separators, their values do not
		m := btree.New[int64, payload](less)
		return &store{
			put:    func(k int64) { m.Put(k, newPayload(k)) },
			remove: func(k int64) { m.Remove(k) },
			drop:   func() { m = nil }, perEntry: 300, perPeak: 300, payloads: 1,
		}
	case "stack":
		m := stack.New[payload]()
		return &store{
			put:    func(k int64) { m.Push(newPayload(k)) },
			remove: func(k int64) { m.Pop() },
			drop:   func() { m = nil }, perEntry: 50, perPeak: 50, payloads: 1,
		}
	case "heap":
		m := heap.New(payloadLess)
		return &store{
			put:    func(k int64) { m.Push(newPayload(k)) },
			remove: func(k int64) { m.Pop() },
			drop:   func() { m = nil }, perEntry: 50, perPeak: 50, payloads: 1,
		}
	case "ulist": // whole blocks stay while one of their entries is present
		m := ulist.New[payload](64)
		steps := 0
		at := func() *ulist.UListIter[payload] {
			it := m.Begin()
			steps = (steps*7 + 3) % 71
			for j := 0; j < steps; j++ {
				if next := *it; next.Next() {
					it = &next
				}
			}
			return it
		}
		return &store{
			put: func(k int64) {
				switch n % 5 {
				case 0:
					m.PushFront(newPayload(k))
				case 1, 2:
					if it := at(); it.IsValid() {
						if n%5 == 1 {
							m.AddAfter(it, newPayload(k))
						} else {
							m.AddBefore(it, newPayload(k))
						}
						return
					}
					fallthrough
				default:
					m.PushBack(newPayload(k))
				}
			},
			remove: func(k int64) {
				switch n % 3 {
				case 0:
					m.Remove(m.Begin())
				case 1:
					m.Remove(m.End())
				case 2:
					m.Remove(at())
				}
			},
			drop: func() { m = nil }, perEntry: 1000, perPeak: 500, payloads: 1,
		}
	case "MapSlice":
		return multiStore(multimap.NewMapSlice[int64, payload](), 250)
	case "MapSet":
		return multiStore(multimap.NewMapSet[int64](payloadLess), 250)
	case "AvlSlice":
		return multiStore(multimap.NewAvlSlice[int64, payload](less), 0)
	case "AvlSet":
		return multiStore(multimap.NewAvlSet(less, payloadLess), 0)
	}
	panic("unknown kind " + kind)
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC() // what a sync.Pool keeps
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runStorage(c Case, r *Rec) error {
	kind := storeKinds[Mod(c.Cfg["kind"], len(storeKinds))]
	n := 300 + Mod(c.Cfg["n"], 1200)
	tracked = nil
	defer func() { tracked = nil }()
	s := makeStore(kind, n)
	ordered := kind == "queue" || kind == "stack" || kind == "heap" || kind == "ulist"
	present := map[int64]bool{}
	var fifo []int64 // the ordered ones remove by an order of their own
	peak := 0
	add := func(k int64) {
		if kind == "cache" && len(present) >= n && !present[k] {
			return // would evict another key
		}
		if !ordered || !present[k] {
			s.put(k)
		}
		if !present[k] {
			fifo = append(fifo, k)
		}
		present[k] = true
		peak = max(peak, len(present))
	}
	del := func(k int64) {
		if ordered {
			if len(fifo) == 0 {
				return
			}
			k = fifo[0]
			fifo = fifo[1:]
		}
		s.remove(k)
		delete(present, k)
	}
	r.Label(kind)
	released := false
	// leaked tells if more values are alive than there are entries
	leaked := func() error {
		most := len(present)
		if s.room > 0 {
			most = min(most, s.room)
		}
		if kind == "MapSlice" || kind == "AvlSlice" {
			most += len(present) // what the slices that Get hands out share
		}
		for try := 0; alive() > most && kind != "trie-keys"; try++ {
			if try == 5 {
				return fmt.Errorf("%s with %d entries keeps %d values alive", kind, len(present), alive())
			}
			runtime.GC()
		}
		return nil
	}
	for i, o := range c.Ops {
		switch o.N {
		case "fill":
			for _, k := range pattern(Mod64(o.A, 500), n, o.C) {
				add(Mod64(k, 4*n))
			}
			r.LabelIf(i > 0, "refilled")
		case "remove":
			// all but a few, in the order of a pattern
			keep := Mod(o.B, 12)
			keys := sortedKeys(present)
			if len(keys) <= keep {
				continue
			}
			step := 1 + 2*Mod(o.C, 40)
			for step > 1 && gcd(int64(step), int64(len(keys))) != 1 {
				step += 2
			}
			for j := 0; j < len(keys)-keep; j++ {
				at := j * step % len(keys)
				if Mod(o.A, 2) == 1 {
					at = len(keys) - 1 - at
				}
				del(keys[at])
			}
			r.Label("removed")
		case "thin": // takes out about one of two to one of nine, or all but these
			keys := sortedKeys(present)
			every := 2 + int64(Mod(o.B, 8))
			for j, k := range keys {
				if (Mix(o.C+int64(j))%every == 0) == (o.A%2 == 0) {
					del(k)
				}
			}
			r.Label("thinned")
		case "touch": // new values for some of the keys
			for j, k := range sortedKeys(present) {
				if Mod(Mix(o.C+int64(j)), 1+Mod(o.B, 4)) == 0 {
					add(k)
				}
			}
			r.Label("replaced")
		case "clear":
			if s.clear == nil {
				continue
			}
			s.clear()
			clear(present)
			fifo = nil
			r.Label("cleared")
			if s.perPeak == 0 {
				s.perPeak = 200 // a cleared hash table keeps its slots
			}
		}
		if len(present) < peak/4 {
			released = true
		}
		if err := leaked(); err != nil {
			return errf(i, o, "%v", err)
		}
	}
	if kind == "trie-keys" {
		// what the nodes of one key take differs between implementations
		s.perEntry = 200 * 100
	}
	held := liveHeap()
	if err := leaked(); err != nil {
		return err
	}
	s.drop()
	held -= liveHeap()
	limit := int64(len(present)*(s.payloads*(payloadSize+300)+s.perEntry) + peak*s.perPeak + 32<<10)
	if held > limit {
		return fmt.Errorf("%s holds %d bytes for %d entries of %d bytes, at most %d are expected; there were %d entries at the most", kind, held, len(present), payloadSize, limit, peak)
	}
	if released {
		r.NonTrivial()
	}
	runtime.KeepAlive(s)
	return nil
}

func init() {
	ops := func(g *G) Op { return Op{A: g.Uniform(500), B: g.Uniform(12), C: g.Uniform(200)} }
	Register(&Prop{
		ID: "C37", Quick: 2000, Thorough: 60000,
		Rule: "structures filled with 300-1500 entries of 2 KB, then emptied but for a few (by removal in various orders, or cleared), thinned out, refilled, given new values, and so on; after each of these steps no more values may be alive than there are entries; in the end the bytes that become free when the structure is dropped are compared with what its entries and a few hundred bytes for each of them need (for structures on a Go map also up to 400 for each entry of the past); non-trivial: most entries had been removed at some point",
		Gen: func(g *G) Case {
			h := g.HistoryN([]Spec{{"fill", 3, ops}, {"remove", 3, ops}, {"thin", 3, ops}, {"touch", 3, ops}, {"clear", 1, ops}}, 1+g.Uniform(7))
			h = append(append([]Op{{N: "fill", C: g.Uniform(200)}}, h...), Op{N: "remove", A: g.Uniform(2), B: g.Uniform(12), C: g.Uniform(40)})
			return Case{Cfg: map[string]int64{"kind": g.Uniform(int64(len(storeKinds))), "n": g.Uniform(1200)}, Ops: h}
		},
		Run:        runStorage,
		Assumption: []string{"the garbage collector frees all that is unreachable in two cycles"},
	})
}
