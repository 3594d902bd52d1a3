package props

import (
	"fmt"
	"math"
	"slices"
	"sort"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"golang.org/x/exp/constraints"
	. "verif/harness/pbt"
)

// codec embeds small numbers in a type. dec panics on a value that enc never
// made, except that the zero value of the type may be enc(0).
type codec[T any] struct {
	name string
	enc  func(int64) T
	dec  func(T) int64
}

const opaqueIDs = 200 // numbers; a case uses the first 48 or all

type (
	box     struct{ id int64 }
	bigVal  [30]int64
	openVal struct { // not comparable, with padding
		flag byte
		list []int64
		fn   func() int64
		id   int64
	}
	pairVal struct {
		a int8
		b string
	}
	named struct{ p *box }
)

func (n named) Error() string { return "named" } // usable as an error, nil pointer inside

var boxes = func() (out [opaqueIDs]box) {
	for i := range out {
		out[i].id = int64(i)
	}
	return
}()

func notMine(what string, v any) int64 {
	panic(fmt.Sprintf("a %s that was never passed in: %#v", what, v))
}

// numCodec never uses the zero value: it is the type of the reference run.
var numCodec = codec[int64]{"int64", func(i int64) int64 { return i + 1000 }, func(v int64) int64 {
	if v < 1000 || v >= 1000+opaqueIDs {
		notMine("int64", v)
	}
	return v - 1000
}}

var zeroNumCodec = codec[int64]{"int64 from 0", func(i int64) int64 { return i }, func(v int64) int64 { return v }}

var ptrCodec = codec[*box]{"*box with nil", func(i int64) *box {
	if i == 0 {
		return nil
	}
	return &boxes[i]
}, func(p *box) int64 {
	if p == nil {
		return 0
	}
	return p.id
}}

// solidCodec has no number for nil: no function may ever see one.
var solidCodec = codec[*box]{"*box without nil", func(i int64) *box { return &boxes[i] }, func(p *box) int64 {
	if p == nil {
		notMine("pointer", p)
	}
	return p.id
}}

var strCodec = codec[string]{"string", func(i int64) string {
	if i == 0 {
		return ""
	}
	return string([]byte{byte(i), 0, 255})
}, func(s string) int64 {
	if s == "" {
		return 0
	}
	return int64(s[0])
}}

var pairCodec = codec[pairVal]{"struct", func(i int64) pairVal {
	if i == 0 {
		return pairVal{}
	}
	return pairVal{int8(i % 3), fmt.Sprint(i)}
}, func(p pairVal) (id int64) {
	if p.b == "" {
		return 0
	}
	fmt.Sscan(p.b, &id)
	return id
}}

// mixCodec is an interface with comparable values of many types.
var mixCodec = codec[any]{"any of comparable types", func(i int64) any {
	switch {
	case i == 0:
		return nil
	case i%6 == 1:
		return i
	case i%6 == 2:
		return fmt.Sprint(i)
	case i%6 == 3:
		return &boxes[i]
	case i%6 == 4:
		return float64(i) / 2
	case i%6 == 5:
		return [2]int64{i, 0}
	}
	return int32(i)
}, func(v any) (id int64) {
	switch v := v.(type) {
	case nil:
		return 0
	case int64:
		return v
	case string:
		fmt.Sscan(v, &id)
		return id
	case *box:
		return v.id
	case float64:
		return int64(v * 2)
	case [2]int64:
		return v[0]
	case int32:
		return int64(v)
	}
	return notMine("value", v)
}}

// wildCodec is an interface with values that cannot be compared, NaN among them.
var wildCodec = codec[any]{"any of any types", func(i int64) any {
	switch {
	case i == 0:
		return nil
	case i%6 == 1:
		return []int64{i}
	case i%6 == 2:
		return func() int64 { return i }
	case i%6 == 3:
		return map[int64]bool{i: true}
	case i%6 == 4:
		return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(i))
	case i%6 == 5:
		return openVal{list: []int64{i}}
	}
	return i
}, func(v any) int64 {
	switch v := v.(type) {
	case nil:
		return 0
	case []int64:
		return v[0]
	case func() int64:
		return v()
	case map[int64]bool:
		for k := range v {
			return k
		}
	case float64:
		return int64(math.Float64bits(v) - math.Float64bits(math.NaN()))
	case openVal:
		return v.list[0]
	case int64:
		return v
	}
	return notMine("value", v)
}}

var floatCodec = codec[float64]{"float64 with NaN and -0", func(i int64) float64 {
	switch i {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	}
	return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(i))
}, func(f float64) int64 {
	switch b := math.Float64bits(f); b {
	case 0:
		return 0
	case 1 << 63:
		return 1
	default:
		return int64(b - math.Float64bits(math.NaN()))
	}
}}

var sliceCodec = codec[[]byte]{"[]byte, nil and empty", func(i int64) []byte {
	switch i {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return []byte{byte(i)}
}, func(b []byte) int64 {
	switch {
	case b == nil:
		return 0
	case len(b) == 0:
		return 1
	}
	return int64(b[0])
}}

var funcCodec = codec[func() int64]{"func", func(i int64) func() int64 {
	if i == 0 {
		return nil
	}
	return func() int64 { return i }
}, func(f func() int64) int64 {
	if f == nil {
		return 0
	}
	return f()
}}

var errCodec = codec[error]{"error, nil and nil inside", func(i int64) error {
	switch i {
	case 0:
		return nil
	case 1:
		return named{}
	}
	return named{&boxes[i]}
}, func(e error) int64 {
	switch {
	case e == nil:
		return 0
	case e.(named).p == nil:
		return 1
	}
	return e.(named).p.id
}}

var openCodec = codec[openVal]{"struct with slice and func", func(i int64) openVal {
	if i == 0 {
		return openVal{}
	}
	return openVal{byte(i), []int64{i}, func() int64 { return i }, i}
}, func(o openVal) int64 {
	if o.list != nil && (o.list[0] != o.id || o.fn() != o.id || int64(o.flag) != o.id) {
		notMine("struct", o.id)
	}
	return o.id
}}

var bigCodec = codec[bigVal]{"array", func(i int64) (b bigVal) {
	for j := range b {
		b[j] = i * int64(j+1)
	}
	return
}, func(b bigVal) int64 {
	for j := range b {
		if b[j] != b[0]*int64(j+1) {
			notMine("array", b)
		}
	}
	return b[0]
}}

var emptyCodec = codec[struct{}]{"struct{}", func(int64) struct{} { return struct{}{} }, func(struct{}) int64 { return 0 }}

var boolCodec = codec[bool]{"bool", func(i int64) bool { return i%2 == 1 }, func(b bool) int64 { return bool64(b) }}

// ordCodec embeds numbers into an ordered type, keeping their order, from the
// least value of the type to the greatest.
func ordCodec[I constraints.Ordered](name string, at func(i int64) I) codec[I] {
	table := make([]I, opaqueIDs)
	for i := range table {
		table[i] = at(int64(i))
	}
	return codec[I]{name, func(i int64) I { return table[i] }, func(v I) int64 {
		i, ok := slices.BinarySearch(table, v)
		if !ok {
			notMine("position", v)
		}
		return int64(i)
	}}
}

// opq is one run: the calls made and what they returned, as numbers.
type opq struct {
	c   Case
	w   int64 // numbers in use
	out []int64
	// proj is what the value type makes of a number (all of it, one bit, nothing)
	proj func(int64) int64
	// at marks where each op starts in out
	at []int
}

func (e *opq) log(vs ...int64) { e.out = append(e.out, vs...) }

// got logs a result that may be absent; then the value must be the zero value.
func got[V any](e *opq, vc codec[V], v V, ok bool) {
	if !ok {
		if fmt.Sprintf("%#v", v) != fmt.Sprintf("%#v", *new(V)) {
			panic(fmt.Sprintf("an absent result is not the zero value but %#v", v))
		}
		e.log(-1)
		return
	}
	e.log(vc.dec(v))
}

// each runs fn for every operation with the numbers of its key and value.
func (e *opq) each(fn func(o Op, k, v int64)) {
	for _, o := range e.c.Ops {
		e.at = append(e.at, len(e.out))
		fn(o, Mod64(o.A, int(e.w)), e.proj(Mod64(o.B, int(e.w))))
	}
}

// pairs logs entries visited in an unspecified order.
func (e *opq) pairs(ps [][2]int64) {
	sort.Slice(ps, func(i, j int) bool {
		return ps[i][0] < ps[j][0] || ps[i][0] == ps[j][0] && ps[i][1] < ps[j][1]
	})
	for _, p := range ps {
		e.log(p[0], p[1])
	}
}

// keysOf guards the functions handed to a structure: they must see only keys
// that were handed to it too.
type keysOf[K any] struct {
	codec[K]
	supplied [opaqueIDs]bool
	coarse   bool
}

func (s *keysOf[K]) key(i int64) K { s.supplied[i] = true; return s.enc(i) }

func (s *keysOf[K]) see(k K) int64 {
	i := s.dec(k)
	if i < 0 || i >= opaqueIDs || !s.supplied[i] {
		notMine("key", k)
	}
	return i
}

func (s *keysOf[K]) less(a, b K) bool  { return s.see(a) < s.see(b) }
func (s *keysOf[K]) equal(a, b K) bool { return s.see(a) == s.see(b) }
func (s *keysOf[K]) hash(k K) uint64 {
	if s.coarse {
		return uint64(s.see(k) % 5)
	}
	return g.HashInt64(s.see(k))
}

type opaqueDict[K, V any] interface {
	Put(K, V)
	Get(K) (V, bool)
	Remove(K)
	Size() int
	Each(func(K, V))
}

func driveDict[K, V any](e *opq, t opaqueDict[K, V], kc *keysOf[K], vc codec[V], ordered bool) {
	e.each(func(o Op, k, v int64) {
		switch Mod(o.C, 8) {
		case 0, 1, 2:
			t.Put(kc.key(k), vc.enc(v))
		case 3:
			t.Remove(kc.key(k))
		case 4: // again with the same value
			t.Put(kc.key(k), vc.enc(v))
			t.Put(kc.key(k), vc.enc(v))
		case 5:
			for j := int64(0); j < e.w; j += 1 + Mod64(o.B, 3) {
				t.Put(kc.key((k+j)%e.w), vc.enc(v))
			}
		case 6:
			if h, ok := t.(*hashmap.Map[K, V]); ok && Mod(o.B, 4) == 0 {
				h.Clear()
			}
			for j := int64(0); j < e.w; j += 1 + Mod64(o.B, 3) {
				t.Remove(kc.key((k + j) % e.w))
			}
		}
		for _, q := range []int64{k, (k + 1) % e.w, 0} {
			x, ok := t.Get(kc.key(q))
			got(e, vc, x, ok)
		}
		e.log(int64(t.Size()))
		var ps [][2]int64
		t.Each(func(k K, v V) { ps = append(ps, [2]int64{kc.see(k), vc.dec(v)}) })
		if !ordered {
			e.pairs(ps)
		} else {
			for _, p := range ps {
				e.log(p[0], p[1])
			}
		}
	})
}

type trieDict[V any] struct{ *trie.Trie[V] }

func (t trieDict[V]) Each(fn func(string, V)) {
	for _, k := range t.Keys() {
		v, _ := t.Get(k)
		fn(k, v)
	}
}

// trieKeys are non-empty and prefixes of each other.
var trieKeys = func() codec[string] {
	ids := map[string]int64{}
	var ks []string
	for i := int64(0); len(ks) < opaqueIDs; i++ {
		k := ""
		for n := i; n > 0; n /= 3 {
			k += string("ab\xff"[n%3])
		}
		if _, ok := ids[k]; !ok && k != "" {
			ids[k] = int64(len(ks))
			ks = append(ks, k)
		}
	}
	return codec[string]{"string", func(i int64) string { return ks[i] }, func(s string) int64 {
		if i, ok := ids[s]; ok {
			return i
		}
		return notMine("key", s)
	}}
}()

type opaqueSet[K any] interface {
	Put(K)
	Has(K) bool
	Remove(K)
	Size() int
	Each(func(K))
	Clear()
}

func driveSet[K any](e *opq, t opaqueSet[K], kc *keysOf[K]) {
	e.each(func(o Op, k, _ int64) {
		switch Mod(o.C, 8) {
		case 0, 1, 2:
			t.Put(kc.key(k))
		case 3:
			t.Remove(kc.key(k))
		case 4, 5:
			for j := int64(0); j < e.w; j += 1 + Mod64(o.B, 3) {
				t.Put(kc.key((k + j) % e.w))
			}
		case 6:
			if Mod(o.B, 4) == 0 {
				t.Clear()
			}
			t.Remove(kc.key((k + 1) % e.w))
		}
		e.log(bool64(t.Has(kc.key(k))), bool64(t.Has(kc.key(0))), int64(t.Size()))
		var ps [][2]int64
		t.Each(func(k K) { ps = append(ps, [2]int64{kc.see(k)}) })
		e.pairs(ps)
	})
}

func driveAlgebra[K comparable](e *opq, a, b set.Set[K], kc *keysOf[K]) {
	dump := func(s set.Set[K]) {
		var ps [][2]int64
		for _, k := range s.Keys() {
			ps = append(ps, [2]int64{kc.see(k)})
		}
		e.log(int64(s.Size()))
		e.pairs(ps)
	}
	e.each(func(o Op, k, _ int64) {
		x, y := a, b
		if Mod(o.B, 2) == 1 {
			x, y = b, a
		}
		k2 := Mod64(o.B, int(e.w))
		switch Mod(o.C, 8) {
		case 0, 1:
			x.Put(kc.key(k))
		case 2:
			x.Put(kc.key(k))
			y.Put(kc.key(k))
		case 3:
			x.Remove(kc.key(k))
		case 4:
			dump(x.Union(y))
			dump(x.Intersection(y))
			dump(x.Difference(y))
			dump(x.SymmetricDifference(y))
		case 5:
			dump(x.ConstUnion(kc.key(k), kc.key(k2)))
			dump(x.ConstIntersection(kc.key(k), kc.key(k2)))
			dump(x.ConstDifference(kc.key(k), kc.key(k2)))
			dump(x.ConstSymmetricDifference(kc.key(k)))
		case 6:
			x.InPlaceUnion(y)
		case 7:
			c := x.Clone()
			c.InPlaceDifference(y)
			dump(c)
		}
		e.log(bool64(x.IsSubset(y)), bool64(x.IsDisjoint(y)), bool64(x.Equal(y)), bool64(x.Has(kc.key(k))), int64(len(x.Map())))
		dump(x)
		dump(y)
	})
}

func driveHeap[T any](e *opq, kc *keysOf[T], vals bool) {
	num := func(o Op) int64 {
		if vals {
			return e.proj(Mod64(o.B, int(e.w)))
		}
		return Mod64(o.B, int(e.w))
	}
	h := heap.New(kc.less)
	if n := Mod(e.c.Cfg["size"], 20); n%2 == 1 {
		var in []T
		for i := 0; i < n; i++ {
			in = append(in, kc.key(num(Op{B: Mix(int64(i)) % e.w})))
		}
		h = heap.FromSlice(kc.less, in)
	}
	e.each(func(o Op, k, _ int64) {
		switch Mod(o.C, 8) {
		case 0, 1, 2, 3:
			h.Push(kc.key(num(o)))
		case 4:
			for j := int64(0); j < 9; j++ {
				h.Push(kc.key(num(Op{B: o.B + j*7})))
			}
		default:
			x, ok := h.Pop()
			got(e, kc.codec, x, ok)
		}
		x, ok := h.Peek()
		got(e, kc.codec, x, ok)
		e.log(int64(h.Size()))
	})
	for h.Size() > 0 {
		x, ok := h.Pop()
		got(e, kc.codec, x, ok)
	}
}

func driveBimap[K, V comparable](e *opq, kc codec[K], vc codec[V]) {
	var zero bimap.Bimap[K, V]
	m := &zero
	e.each(func(o Op, k, _ int64) {
		v := Mod64(o.B, int(e.w))
		switch Mod(o.C, 8) {
		case 0, 1, 2, 3:
			m.Add(kc.enc(k), vc.enc(v))
		case 4:
			m.RemoveForward(kc.enc(k))
		case 5:
			m.RemoveReverse(vc.enc(v))
		case 6:
			for j := int64(0); j < e.w; j += 2 {
				m.Add(kc.enc((k+j)%e.w), vc.enc((v+j)%e.w))
			}
		}
		x, ok := m.GetForward(kc.enc(k))
		got(e, vc, x, ok)
		y, ok := m.GetReverse(vc.enc(v))
		got(e, kc, y, ok)
		e.log(bool64(m.ContainsForward(kc.enc(0))), bool64(m.ContainsReverse(vc.enc(0))), int64(m.Len()))
		var ps [][2]int64
		m.Each(func(k K, v V) { ps = append(ps, [2]int64{kc.dec(k), vc.dec(v)}) })
		e.pairs(ps)
	})
}

func driveMulti[K, V any](e *opq, m multimap.MultiMap[K, V], kc *keysOf[K], vc *keysOf[V]) {
	list := func(k int64, vs []V) {
		var ps [][2]int64
		for _, v := range vs {
			ps = append(ps, [2]int64{k, vc.dec(v)})
		}
		e.pairs(ps)
	}
	e.each(func(o Op, k, v int64) {
		switch Mod(o.C, 9) {
		case 0, 1, 2, 3:
			m.Put(kc.key(k), vc.key(v))
		case 4:
			m.Remove(kc.key(k), vc.key(v))
		case 5:
			m.Put(kc.key(k), vc.key(v))
			m.Put(kc.key(k), vc.key(v))
			m.Remove(kc.key(k), vc.key(v))
		case 6:
			m.RemoveAll(kc.key(k))
		case 7:
			for j := int64(0); j < e.w; j += 5 {
				m.Put(kc.key(k), vc.key(e.proj((v+j)%e.w)))
			}
		case 8:
			for j := int64(0); j < e.w; j += 5 {
				m.Put(kc.key((k+j)%e.w), vc.key(v))
			}
		}
		e.log(int64(m.Size()), int64(m.Dimension()), int64(m.Count(kc.key(k))), bool64(m.Has(kc.key(0))))
		list(k, m.Get(kc.key(k)))
		var ps [][2]int64
		m.Each(func(k K, v V) { ps = append(ps, [2]int64{kc.see(k), vc.see(v)}) })
		e.pairs(ps)
		ps = nil
		m.EachAssociation(func(k K, vs []V) {
			for _, v := range vs {
				ps = append(ps, [2]int64{kc.see(k), vc.see(v)})
			}
		})
		e.pairs(ps)
	})
}

func driveInterval[I constraints.Ordered, V any](e *opq, ic codec[I], vc codec[V]) {
	t := interval.New[I, V]()
	kv := func(x interval.KV[I, V], ok bool) {
		if !ok {
			got(e, vc, x.Val, ok)
			return
		}
		e.log(ic.dec(x.Low), ic.dec(x.High), vc.dec(x.Val))
	}
	e.each(func(o Op, k, v int64) {
		high := min(k+1+Mod64(o.B>>6, 9), e.w-1)
		switch Mod(o.C, 8) {
		case 0, 1, 2:
			kv(t.Put(ic.enc(k), ic.enc(high), vc.enc(v)))
		case 3:
			x, ok := t.Add(ic.enc(k), ic.enc(high), vc.enc(v))
			e.log(bool64(ok))
			_ = x
		case 4, 5:
			kv(t.Remove(ic.enc(k)))
		case 6:
			for j := int64(0); j < e.w-1; j += 3 {
				t.Put(ic.enc(j), ic.enc(max(j, high)), vc.enc(v))
			}
		}
		kv(t.Get(ic.enc(k)))
		kv(t.Get(ic.enc(0)))
		for _, x := range t.Overlaps(ic.enc(k), ic.enc(high)) {
			kv(x, true)
		}
		for _, x := range t.Overlaps(ic.enc(0), ic.enc(e.w-1)) {
			kv(x, true)
		}
		e.log(int64(t.Size()), int64(t.Height()))
		t.Each(func(lo, hi I, v V) { e.log(ic.dec(lo), ic.dec(hi), vc.dec(v)) })
	})
}

func decAll[V any](e *opq, vc codec[V], vs []V) {
	e.log(int64(len(vs)))
	for _, v := range vs {
		e.log(vc.dec(v))
	}
}

func driveSequence[V any](kind string, e *opq, vc codec[V]) {
	some := func(o Op) []V {
		out := make([]V, Mod(o.A, 9))
		for i := range out {
			out[i] = vc.enc(e.proj(Mod64(o.B+int64(i)*5, int(e.w))))
		}
		return out
	}
	switch kind {
	case "list":
		l := list.New[V]()
		e.each(func(o Op, _, v int64) {
			switch Mod(o.C, 6) {
			case 0, 1:
				l.PushBack(vc.enc(v))
			case 2:
				l.PushFront(vc.enc(v))
			case 3:
				if l.Front != nil {
					l.Remove(l.Front)
				}
			case 4:
				if l.Back != nil {
					l.InsertBefore(l.Back, &list.Node[V]{Value: vc.enc(v)})
				}
			case 5:
				if l.Back != nil {
					l.Remove(l.Back)
				}
			}
			l.Front.Each(func(v V) { e.log(vc.dec(v)) })
			l.Back.EachReverse(func(v V) { e.log(vc.dec(v)) })
		})
	case "queue":
		q := queue.Of(some(Op{A: e.c.Cfg["size"]}))
		e.each(func(o Op, _, v int64) {
			switch Mod(o.C, 7) {
			case 0, 1, 2:
				q.Enqueue(vc.enc(v))
			case 3, 4:
				x, ok := q.TryDequeue()
				got(e, vc, x, ok)
			case 5:
				q = q.Copy()
				if Mod(o.A, 7) == 0 {
					decAll(e, vc, q.DequeueAll())
				}
			case 6:
				if !q.Empty() {
					e.log(vc.dec(q.Dequeue()))
				}
			}
			x, ok := q.TryPeek()
			got(e, vc, x, ok)
			e.log(int64(q.Len()), bool64(q.Empty()))
			decAll(e, vc, q.PeekAll())
			q.Each(func(v V) { e.log(vc.dec(v)) })
		})
	case "stack":
		s := stack.New[V]()
		e.each(func(o Op, _, v int64) {
			empty := s.Size() == 0
			switch Mod(o.C, 6) {
			case 0, 1, 2:
				s.Push(vc.enc(v))
			case 3, 4:
				got(e, vc, s.Pop(), !empty)
			case 5:
				s = s.Copy()
			}
			got(e, vc, s.Peek(), s.Size() > 0)
			e.log(int64(s.Size()))
		})
	case "ulist":
		u := ulist.New[V](Mod(e.c.Cfg["size"], 6) + 1)
		e.each(func(o Op, _, v int64) {
			it := u.Begin()
			for j := Mod(o.A, 12); j > 0 && it.IsValid(); j-- {
				it.Next()
			}
			switch ok := it.IsValid(); {
			case Mod(o.C, 6) < 2:
				u.PushBack(vc.enc(v))
			case Mod(o.C, 6) == 2:
				u.PushFront(vc.enc(v))
			case !ok:
			case Mod(o.C, 6) == 3:
				u.AddAfter(it, vc.enc(v))
			case Mod(o.C, 6) == 4:
				u.AddBefore(it, vc.enc(v))
			default:
				u.Remove(it)
			}
			if it.IsValid() {
				e.log(vc.dec(it.Get()))
			}
			e.log(int64(u.Size()))
			for x := u.Begin(); x.IsValid(); x.Next() {
				e.log(vc.dec(x.Get()))
			}
			for x := u.End(); x.IsValid(); x.Prev() {
				e.log(vc.dec(x.Get()))
			}
		})
	case "rope":
		n := rope.New(some(Op{A: e.c.Cfg["size"]}))
		e.each(func(o Op, _, v int64) {
			a, b := span(o.A, o.B, n.Len())
			switch Mod(o.C, 7) {
			case 0, 1, 2, 3:
				n.Insert(a, some(o))
			case 4:
				n.Remove(a, b)
			case 5:
				l, r := n.SplitAt(a)
				n = rope.Join(r, l)
			case 6:
				n.Rebuild()
			}
			e.log(int64(n.Len()))
			decAll(e, vc, n.Value())
			a, b = span(o.A, o.B, n.Len())
			decAll(e, vc, n.Slice(a, b))
			if a < n.Len() {
				e.log(vc.dec(n.At(a)))
			}
			if Mod(o.B, 3) == 0 {
				n.Rebalance()
			}
		})
	case "prope":
		n := prope.New(some(Op{A: e.c.Cfg["size"]}))
		e.each(func(o Op, _, v int64) {
			a, b := span(o.A, o.B, n.Len())
			old := n
			switch Mod(o.C, 7) {
			case 0, 1, 2, 3:
				n = n.Insert(a, some(o))
			case 4:
				n = n.Remove(a, b)
			case 5:
				l, r := n.SplitAt(a)
				n = prope.Join(r, prope.New[V](nil), l)
			case 6:
				n.Rebuild()
			}
			decAll(e, vc, old.Value())
			e.log(int64(n.Len()))
			decAll(e, vc, n.Value())
			a, b = span(o.A, o.B, n.Len())
			decAll(e, vc, n.Slice(a, b))
			if a < n.Len() {
				e.log(vc.dec(n.At(a)))
			}
			if Mod(o.B, 3) == 0 {
				n.Rebalance()
			}
		})
	case "array2d":
		w, h := Mod(e.c.Cfg["size"], 7)+1, Mod(e.c.Cfg["size"]>>3, 7)+1
		a := array2d.NewFilled(w, h, vc.enc(e.proj(Mod64(e.c.Cfg["size"], int(e.w)))))
		if Mod(e.c.Cfg["size"], 3) == 1 {
			a = array2d.OfJagged(w, h, [][]V{some(Op{A: 3}), nil, some(Op{A: 7, B: 3})})
			// the cells that were left out are zero values, whatever their number
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if !(y == 0 && x < 3 || y == 2 && x < 7) {
						got(e, vc, a.Get(x, y), false)
						a.Set(x, y, vc.enc(0))
					}
				}
			}
		}
		e.each(func(o Op, _, v int64) {
			x, y, x2, y2 := Mod(o.A, w), Mod(o.A>>3, h), Mod(o.B, w), Mod(o.B>>3, h)
			switch Mod(o.C, 4) {
			case 0:
				a.Set(x, y, vc.enc(v))
			case 1:
				a.Fill(x, y, x2, y2, vc.enc(v))
			case 2:
				a.Row(y)[x] = vc.enc(v)
			case 3:
				a = a.Copy()
				decAll(e, vc, a.RowSpan(x, x2, y))
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					e.log(vc.dec(a.Get(x, y)))
				}
			}
		})
	}
}

var opaqueKinds = []string{"avl", "btree", "hashmap", "trie", "cache", "interval", "hashset", "heap", "mapset", "sethash", "bimap",
	"MapSlice", "MapSet", "AvlSlice", "AvlSet", "list", "queue", "stack", "ulist", "rope", "prope", "array2d"}

func guard[K any](e *opq, c codec[K]) *keysOf[K] {
	return &keysOf[K]{codec: c, coarse: Mod(e.c.Cfg["size"], 3) == 1}
}

func opaqueCap(e *opq) uint64 { return uint64(Mod(e.c.Cfg["size"], 40)) }

// withValues drives the structures that take values of any type.
func withValues[V any](kind string, e *opq, vc codec[V]) {
	e.proj = func(i int64) int64 { return vc.dec(vc.enc(i)) }
	kc := guard(e, numCodec)
	vs := guard(e, vc)
	switch kind {
	case "avl":
		driveDict(e, opaqueDict[int64, V](avl.New[int64, V](kc.less)), kc, vc, true)
	case "btree":
		driveDict(e, opaqueDict[int64, V](btree.New[int64, V](kc.less)), kc, vc, true)
	case "hashmap":
		driveDict(e, opaqueDict[int64, V](hashmap.New[int64, V](opaqueCap(e), kc.equal, kc.hash)), kc, vc, false)
	case "trie":
		driveDict(e, opaqueDict[string, V](trieDict[V]{trie.New[V]()}), guard(e, trieKeys), vc, true)
	case "cache":
		t := cache.New[int64, V](Mod(e.c.Cfg["size"], 20))
		t.SetEvictCallback(func(k int64, v V) { e.log(kc.see(k), vc.dec(v)) })
		driveDict(e, opaqueDict[int64, V](t), kc, vc, true)
	case "interval":
		driveInterval(e, numCodec, vc)
	case "heap":
		driveHeap(e, vs, true)
	case "MapSet":
		driveMulti(e, multimap.NewMapSet[int64](vs.less), kc, vs)
	case "AvlSet":
		driveMulti(e, multimap.NewAvlSet(kc.less, vs.less), kc, vs)
	default:
		driveSequence(kind, e, vc)
	}
}

// withKeys drives the structures that take keys of any type.
func withKeys[K any](kind string, e *opq, c codec[K]) {
	kc := guard(e, c)
	vs := guard(e, numCodec)
	switch kind {
	case "avl":
		driveDict(e, opaqueDict[K, int64](avl.New[K, int64](kc.less)), kc, numCodec, true)
	case "btree":
		driveDict(e, opaqueDict[K, int64](btree.New[K, int64](kc.less)), kc, numCodec, true)
	case "hashmap":
		driveDict(e, opaqueDict[K, int64](hashmap.New[K, int64](opaqueCap(e), kc.equal, kc.hash)), kc, numCodec, false)
	case "hashset":
		driveSet(e, opaqueSet[K](hashset.New(opaqueCap(e), kc.equal, kc.hash)), kc)
	case "heap":
		driveHeap(e, kc, false)
	case "AvlSlice":
		driveMulti(e, multimap.NewAvlSlice[K, int64](kc.less), kc, vs)
	case "AvlSet":
		driveMulti(e, multimap.NewAvlSet(kc.less, vs.less), kc, vs)
	}
}

// withComparable drives the structures that need comparable keys or values.
func withComparable[K comparable](kind string, e *opq, c codec[K]) {
	kc := guard(e, c)
	vs := guard(e, numCodec)
	switch kind {
	case "mapset":
		if Mod(e.c.Cfg["size"], 2) == 0 {
			s := set.NewMapset[K]()
			driveSet(e, opaqueSet[K](s), kc)
		} else {
			driveAlgebra(e, set.NewMapset[K](), set.NewHashset(opaqueCap(e), kc.equal, kc.hash), kc)
		}
	case "sethash":
		driveAlgebra(e, set.NewHashset(opaqueCap(e), kc.equal, kc.hash), set.NewMapset[K](), kc)
	case "cache":
		t := cache.New[K, int64](Mod(e.c.Cfg["size"], 20))
		t.SetEvictCallback(func(k K, v int64) { e.log(kc.see(k), numCodec.dec(v)) })
		driveDict(e, opaqueDict[K, int64](t), kc, numCodec, true)
	case "bimap":
		if Mod(e.c.Cfg["size"], 2) == 0 {
			driveBimap(e, c, numCodec)
		} else {
			driveBimap(e, numCodec, c)
		}
	case "MapSlice":
		if Mod(e.c.Cfg["size"], 2) == 0 {
			driveMulti(e, multimap.NewMapSlice[K, int64](), kc, vs)
		} else {
			driveMulti(e, multimap.NewMapSlice[int64, K](), vs, kc)
		}
	case "MapSet":
		driveMulti(e, multimap.NewMapSet[K](vs.less), kc, vs)
	case "AvlSlice":
		driveMulti(e, multimap.NewAvlSlice[int64, K](vs.less), vs, kc)
	}
}

// opaqueRun runs the case once with the given type; type 0 is the reference.
func opaqueRun(c Case, kind, role string, typ int, proj func(int64) int64) (e *opq, name string) {
	e = &opq{c: c, w: []int64{48, 48, opaqueIDs}[Mod(c.Cfg["size"]/3, 3)], proj: func(i int64) int64 { return i }}
	switch role {
	case "values":
		switch typ {
		case 0:
			name = numCodec.name
			withValues(kind, e, codec[int64]{numCodec.name, func(i int64) int64 { return numCodec.enc(proj(i)) }, numCodec.dec})
		case 1:
			name = ptrCodec.name
			withValues(kind, e, ptrCodec)
		case 2:
			name = wildCodec.name
			withValues(kind, e, wildCodec)
		case 3:
			name = floatCodec.name
			withValues(kind, e, floatCodec)
		case 4:
			name = sliceCodec.name
			withValues(kind, e, sliceCodec)
		case 5:
			name = funcCodec.name
			withValues(kind, e, funcCodec)
		case 6:
			name = errCodec.name
			withValues(kind, e, errCodec)
		case 7:
			name = openCodec.name
			withValues(kind, e, openCodec)
		case 8:
			name = bigCodec.name
			withValues(kind, e, bigCodec)
		case 9:
			name = emptyCodec.name
			withValues(kind, e, emptyCodec)
		case 10:
			name = boolCodec.name
			withValues(kind, e, boolCodec)
		case 11:
			name = strCodec.name
			withValues(kind, e, strCodec)
		default:
			name = zeroNumCodec.name
			withValues(kind, e, zeroNumCodec)
		}
	case "keys":
		switch typ {
		case 0:
			name = numCodec.name
			withKeys(kind, e, numCodec)
		case 1:
			name = solidCodec.name
			withKeys(kind, e, solidCodec)
		case 2:
			name = wildCodec.name
			withKeys(kind, e, wildCodec)
		case 3:
			name = floatCodec.name
			withKeys(kind, e, floatCodec)
		case 4:
			name = sliceCodec.name
			withKeys(kind, e, sliceCodec)
		case 5:
			name = openCodec.name
			withKeys(kind, e, openCodec)
		case 6:
			name = strCodec.name
			withKeys(kind, e, strCodec)
		case 7:
			name = ptrCodec.name
			withKeys(kind, e, ptrCodec)
		default:
			name = zeroNumCodec.name
			withKeys(kind, e, zeroNumCodec)
		}
	case "comparable":
		switch typ {
		case 0:
			name = numCodec.name
			withComparable(kind, e, numCodec)
		case 1:
			name = ptrCodec.name
			withComparable(kind, e, ptrCodec)
		case 2:
			name = mixCodec.name
			withComparable(kind, e, mixCodec)
		case 3:
			name = strCodec.name
			withComparable(kind, e, strCodec)
		case 4:
			name = pairCodec.name
			withComparable(kind, e, pairCodec)
		case 5:
			name = errCodec.name
			withComparable(kind, e, errCodec)
		case 6:
			name = bigCodec.name
			withComparable(kind, e, bigCodec)
		default:
			name = zeroNumCodec.name
			withComparable(kind, e, zeroNumCodec)
		}
	case "positions":
		pos := func(i codec[int64]) { name = i.name; driveInterval(e, i, numCodec) }
		switch typ {
		case 0:
			pos(numCodec)
		case 1:
			c := ordCodec("int8, all of its range", func(i int64) int8 { return int8(-128 + i*255/(opaqueIDs-1)) })
			name = c.name
			driveInterval(e, c, numCodec)
		case 2:
			c := ordCodec("uint8, all of its range", func(i int64) uint8 { return uint8(i * 255 / (opaqueIDs - 1)) })
			name = c.name
			driveInterval(e, c, numCodec)
		case 3:
			c := ordCodec("float32 with infinities", func(i int64) float32 {
				switch i {
				case 0:
					return float32(math.Inf(-1))
				case opaqueIDs - 1:
					return float32(math.Inf(1))
				}
				return float32(i-opaqueIDs/2) * float32(math.MaxFloat32/opaqueIDs)
			})
			name = c.name
			driveInterval(e, c, numCodec)
		case 4:
			c := ordCodec("string", func(i int64) string {
				if i == 0 {
					return ""
				}
				return string([]byte{byte(i), 0, 255}[:1+i%3])
			})
			name = c.name
			driveInterval(e, c, numCodec)
		case 5:
			pos(ordCodec("int64, all of its range", func(i int64) int64 { return math.MinInt64 + i*(math.MaxInt64/(opaqueIDs/2)) }))
		default:
			c := ordCodec("uint64, all of its range", func(i int64) uint64 { return uint64(i) * (math.MaxUint64 / (opaqueIDs - 1)) })
			name = c.name
			driveInterval(e, c, numCodec)
		}
	}
	e.at = append(e.at, len(e.out))
	return e, name
}

var opaqueRoles = map[string][]string{
	"avl": {"values", "keys"}, "btree": {"values", "keys"}, "hashmap": {"values", "keys"}, "trie": {"values"}, "cache": {"values", "comparable"},
	"interval": {"values", "positions"}, "hashset": {"keys"}, "heap": {"values", "keys"}, "mapset": {"comparable"}, "sethash": {"comparable"}, "bimap": {"comparable"},
	"MapSlice": {"comparable"}, "MapSet": {"values", "comparable"}, "AvlSlice": {"keys", "comparable"}, "AvlSet": {"values", "keys"},
}

var opaqueTypes = map[string]int{"values": 12, "keys": 8, "comparable": 7, "positions": 6}

// runOpaque runs one history twice, with int64 and with another type in the
// place of the keys, values or elements; what comes out must correspond.
func runOpaque(c Case, r *Rec) error {
	kind := opaqueKinds[Mod(c.Cfg["kind"], len(opaqueKinds))]
	roles := opaqueRoles[kind]
	if roles == nil {
		roles = []string{"values"}
	}
	role := roles[Mod(c.Cfg["role"], len(roles))]
	typ := Mod(c.Cfg["type"], opaqueTypes[role]) + 1
	_, restore := thresholds(Case{Cfg: map[string]int64{"split": c.Cfg["split"], "join": c.Cfg["join"]}})
	defer restore()
	var with *opq
	var name string
	if p := Panics(func() { with, name = opaqueRun(c, kind, role, typ, nil) }); p != nil {
		_, name = opaqueRun(Case{Cfg: c.Cfg}, kind, role, typ, nil)
		return fmt.Errorf("%s with %s as %s: panic: %v", kind, name, role, p)
	}
	ref, _ := opaqueRun(c, kind, role, 0, with.proj)
	r.Label(kind + " " + role)
	r.Label(role + ": " + name)
	if !slices.Equal(ref.out, with.out) {
		for i, o := range c.Ops {
			a, b := ref.out[ref.at[i]:], with.out[min(with.at[i], len(with.out)):]
			if ref.at[i+1] != with.at[i+1] || !slices.Equal(a[:ref.at[i+1]-ref.at[i]], b[:with.at[i+1]-with.at[i]]) {
				return errf(i, o, "%s with %s as %s shows %v, with int64 it shows %v", kind, name, role, trunc(fmt.Sprint(b)), trunc(fmt.Sprint(a)))
			}
		}
		return fmt.Errorf("%s with %s as %s shows %v, with int64 it shows %v", kind, name, role, trunc(fmt.Sprint(with.out)), trunc(fmt.Sprint(ref.out)))
	}
	if len(c.Ops) > 3 && len(ref.out) > 3*len(c.Ops) {
		r.NonTrivial()
	}
	return nil
}

func init() {
	args := func(g *G) Op {
		o := Op{A: g.Uniform(1 << 10), B: g.Uniform(1 << 10), C: g.Uniform(72)}
		if g.Chance(4) { // number 0 is the zero value in most types
			o.A = 0
		}
		if g.Chance(3) {
			o.B = g.Uniform(2)
		}
		return o
	}
	Register(&Prop{
		ID: "C38", Quick: 180000, Thorough: 3000000,
		Rule: "random histories on each structure, run with int64 keys and values that are never zero and again with one of 12 value types (nil pointers, interfaces holding slices, functions, maps and NaN, nil and empty slices, functions, nil errors, structs, arrays, struct{}, bool), 8 key types, 7 comparable types or 6 ordered types over their whole range; both runs must show the same, and less, equals and hash functions must see only keys that were passed in; non-trivial: more than three operations that showed more than three results each",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"kind": g.Uniform(int64(len(opaqueKinds))), "role": g.Uniform(2), "type": g.Uniform(12), "size": g.Uniform(400), "split": g.Uniform(9), "join": g.Uniform(5)},
				Ops: g.HistoryN([]Spec{{"op", 1, args}}, 1+g.Uniform(30))}
		},
		Run: runOpaque,
	})
}
