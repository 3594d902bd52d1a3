package props

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/interval"
	"golang.org/x/exp/constraints"
	. "verif/harness/pbt"
)

// ordEnv is a key type with a strict weak order.
type ordEnv[K any] struct {
	mk    func(int64) K
	canon func(int64) int64 // op argument -> equivalence class
	class func(K) int64
	less  g.LessFn[K]
}

func withOrdEnv(c Case, r *Rec, fi func(e ordEnv[int64]) error, fs func(e ordEnv[string]) error, ft func(e ordEnv[skey]) error) error {
	id := func(a int64) int64 { return a }
	i := ordEnv[int64]{mk: id, canon: id, class: id}
	step := func(f g.LessFn[int64]) g.LessFn[int64] { return func(a, b int64) bool { r.Step(); return f(a, b) } }
	switch Mod(c.Cfg["ord"], 6) {
	case 0:
		i.less = step(g.Less[int64])
		return fi(i)
	case 1:
		i.less = step(func(a, b int64) bool { return a > b })
		return fi(i)
	case 2: // 2n and 2n+1 are the same key
		h := func(a int64) int64 { return a >> 1 }
		i.canon, i.class = h, h
		i.less = step(func(a, b int64) bool { return a>>1 < b>>1 })
		return fi(i)
	case 3: // scrambled order
		i.less = step(func(a, b int64) bool {
			x, y := uint64(a)*0x9E3779B97F4A7C15, uint64(b)*0x9E3779B97F4A7C15
			return x < y
		})
		return fi(i)
	case 4:
		back := map[string]int64{}
		e := ordEnv[string]{canon: id,
			mk: func(a int64) string { s := orEmpty(a); back[s] = a; return s },
			class: func(s string) int64 {
				if v, ok := back[s]; ok {
					return v
				}
				return math.MinInt64 + 1
			},
			less: func(a, b string) bool { r.Step(); return a < b }}
		return fs(e)
	default: // struct ordered by second field, then first
		canon := func(a int64) int64 { return int64(int32(a))<<8 + a%100 + 100 }
		back := map[skey]int64{}
		e := ordEnv[skey]{canon: canon,
			mk: func(a int64) skey { k := structKey(a); back[k] = canon(a); return k },
			class: func(k skey) int64 {
				if v, ok := back[k]; ok {
					return v
				}
				return math.MinInt64 + 1
			},
			less: func(a, b skey) bool {
				r.Step()
				if a.b != b.b {
					return a.b < b.b
				}
				return a.a < b.a
			}}
		return ft(e)
	}
}

// tree is what avl and btree have in common.
type tree[K any] interface {
	Put(K, int64)
	Get(K) (int64, bool)
	Remove(K)
	Each(func(K, int64))
	Size() int
}

func diffTree[K any](t tree[K], model map[int64]int64, e ordEnv[K], r *Rec) string {
	r.Budget()
	if t.Size() != len(model) {
		return errStr("Size() = %d, want %d", t.Size(), len(model))
	}
	n, bad := 0, ""
	var prev K
	t.Each(func(k K, v int64) {
		if bad != "" {
			return
		}
		want, ok := model[e.class(k)]
		switch {
		case !ok:
			bad = errStr("Each visits key %v, which is not in the tree", k)
		case want != v:
			bad = errStr("Each gives %d for key %v, want %d", v, k, want)
		case n > 0 && !e.less(prev, k):
			bad = errStr("Each visits %v after %v", k, prev)
		}
		prev = k
		n++
	})
	if bad == "" && n != len(model) {
		bad = errStr("Each visits %d keys, want %d", n, len(model))
	}
	return bad
}

func runTree[K any](c Case, r *Rec, e ordEnv[K], t tree[K], maxBulk int) error {
	model := map[int64]int64{}
	touched := &argset{}
	var args []int64 // op arguments of put keys, for hitting
	cad := newCadence(c)
	put := func(a, v int64) {
		_, had := model[e.canon(a)]
		r.LabelIf(had, "overwrite")
		r.Budget()
		t.Put(e.mk(a), v)
		model[e.canon(a)] = v
	}
	remove := func(a int64) {
		_, had := model[e.canon(a)]
		r.LabelIf(had, "remove-hit")
		r.LabelIf(!had, "remove-miss")
		r.Budget()
		t.Remove(e.mk(a))
		delete(model, e.canon(a))
	}
	get := func(a int64) string {
		r.Budget()
		v, ok := t.Get(e.mk(a))
		want, wok := model[e.canon(a)]
		if ok != wok || ok && v != want {
			return errStr("Get(%v) = %s, want %s", e.mk(a), fmtVal(v, ok), fmtVal(want, wok))
		}
		return ""
	}
	if d := diffTree(t, model, e, r); d != "" {
		return errf(-1, Op{N: "new"}, "%s", d)
	}
	for i, o := range c.Ops {
		r.Turn()
		a := o.A
		if (o.N == "putOld" || o.N == "removeOld") && len(args) > 0 {
			a = args[Mod(o.A, len(args))]
		}
		switch o.N {
		case "put", "putOld":
			put(a, o.B)
			args = append(args, a)
			touched.add(a)
		case "remove", "removeOld":
			remove(a)
			touched.add(a)
		case "putRange", "removeRange":
			ks := pattern(o.A, bulk(o.B, maxBulk), o.C)
			for j, k := range ks {
				if o.N == "putRange" {
					put(k, o.B+int64(j))
				} else {
					remove(k)
				}
				if j < 20 || j%(len(ks)/30+1) == 0 {
					args = append(args, k)
					touched.add(k)
				}
			}
		}
		r.LabelIf(len(model) > 100, "size>100")
		r.LabelIf(len(model) > 2048, "size>2048")
		if d := get(a); d != "" {
			return errf(i, o, "%s", d)
		}
		if t.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", t.Size(), len(model))
		}
		last := i == len(c.Ops)-1
		if cad.due(len(model), last) {
			if d := diffTree(t, model, e, r); d != "" {
				return errf(i, o, "%s", d)
			}
			if len(model) <= 80 || last {
				for _, k := range touched.list {
					if d := get(k); d != "" {
						return errf(i, o, "%s", d)
					}
					// neighbours of touched keys are mostly absent keys
					if d := get(k + 1); d != "" {
						return errf(i, o, "%s", d)
					}
				}
			}
		}
	}
	if r.Has("remove-hit") && (r.Has("overwrite") || r.Has("size>100")) {
		r.NonTrivial()
	}
	return nil
}

func treeSpecs(max int64) []Spec {
	return []Spec{
		{"put", 8, argsKeyVal}, {"putOld", 3, argsKeyVal},
		{"remove", 4, argsKey}, {"removeOld", 6, argsKey},
		{"putRange", 2, argsBulk(max)}, {"removeRange", 2, argsBulk(max)},
	}
}

func avlMax(n int) int { // largest height of an AVL tree of n nodes
	a, b, h := 0, 1, 0 // fewest nodes of heights h, h+1
	for b <= n {
		a, b, h = b, a+b+1, h+1
	}
	return h
}

// runCost drives one tree and bounds height and comparator calls.
func runCost(c Case, r *Rec) error {
	maxN := 1 << 15
	for _, o := range c.Ops {
		if o.B >= bulkExact {
			maxN = 1 << 18
		}
	}
	if Mod(c.Cfg["impl"], 3) == 2 {
		return runIntervalHeight(c, r)
	}
	desc := Mod(c.Cfg["ord"], 2) == 1
	less := func(a, b int64) bool { r.Step(); return a < b != desc && a != b }
	av, bt := avl.New[int64, int64](less), btree.New[int64, int64](less)
	isAvl := Mod(c.Cfg["impl"], 3) == 0
	present, ever := map[int64]bool{}, map[int64]bool{}
	peak := 0
	limit := func(kind string) int64 {
		if isAvl {
			h := int64(avlMax(len(present) + 1))
			if kind == "Get" {
				return 8*h + 16
			}
			return 16*h + 32
		}
		levels := int64(1)
		for n := 32; n <= len(ever); n *= 32 {
			levels++
		}
		return 800 * (levels + 1)
	}
	do := func(kind string, k, v int64) error {
		var lim int64
		r.Budget()
		lim = limit(kind)
		switch {
		case kind == "Get" && isAvl:
			av.Get(k)
		case kind == "Get":
			bt.Get(k)
		case kind == "Put" && isAvl:
			av.Put(k, v)
			present[k] = true
		case kind == "Put":
			bt.Put(k, v)
			present[k], ever[k] = true, true
		case kind == "Remove" && isAvl:
			r.LabelIf(len(present) > 6 && present[k], "remove-hit")
			av.Remove(k)
			delete(present, k)
		case kind == "Remove":
			r.LabelIf(len(present) > 6 && present[k], "remove-hit")
			bt.Remove(k)
			delete(present, k)
		}
		if n := r.Steps(); n > lim {
			return fmt.Errorf("%s(%d) in a tree of %d keys (%d ever) called the comparator %d times; logarithmic limit %d", kind, k, len(present), len(ever), n, lim)
		}
		if isAvl {
			n := len(present)
			lo, hi := bits.Len(uint(n)), avlMax(n)
			if h := av.Height(); h < lo || h > hi {
				return fmt.Errorf("Height() = %d with %d keys after %s(%d), a balanced binary tree has %d..%d", h, n, kind, k, lo, hi)
			}
		}
		peak = max(peak, len(present))
		return nil
	}
	for i, o := range c.Ops {
		r.Turn()
		var ks []int64
		n := bulk(o.B, 6000)
		if len(ever)+n > maxN || len(present)+n > maxN {
			n = 1
		}
		ks = pattern(o.A, n, o.C)
		kind := map[string]string{"putRange": "Put", "put": "Put", "removeRange": "Remove", "remove": "Remove", "get": "Get"}[o.N]
		if o.N == "put" || o.N == "remove" || o.N == "get" {
			ks = ks[:1]
		}
		if kind == "" {
			continue
		}
		for j, k := range ks {
			if err := do(kind, k, int64(j)); err != nil {
				return errf(i, o, "%v", err)
			}
			if j%8 == 0 {
				if err := do("Get", k, 0); err != nil {
					return errf(i, o, "%v", err)
				}
			}
		}
		r.LabelIf(o.N == "removeRange" && peak > 200, "bulk-remove")
	}
	r.LabelIf(peak > 200, "size>200")
	r.LabelIf(peak > 2048, "size>2048")
	if peak > 200 || r.Has("remove-hit") {
		r.NonTrivial()
	}
	return nil
}

func runIntervalHeight(c Case, r *Rec) error {
	t := interval.New[int64, int64]()
	present := map[int64]bool{}
	peak := 0
	r.Label("interval")
	for i, o := range c.Ops {
		r.Turn()
		n := bulk(o.B, 6000)
		if len(present)+n > 1<<14 && o.B < bulkExact {
			n = 1
		}
		ks := pattern(o.A, n, o.C)
		if o.N == "put" || o.N == "remove" || o.N == "get" {
			ks = ks[:1]
		}
		for j, k := range ks {
			if k > math.MaxInt64-200 {
				k -= 200
			}
			switch o.N {
			case "put", "putRange":
				if j%2 == 0 {
					t.Put(k, k+1+int64(j%7), 1)
				} else {
					t.Add(k, k+1+int64(j%100), 1)
				}
				present[k] = true
			case "remove", "removeRange":
				r.LabelIf(len(present) > 6 && present[k], "remove-hit")
				t.Remove(k)
				delete(present, k)
			default:
				t.Overlaps(k, k+1)
			}
			n := len(present)
			lo, hi := bits.Len(uint(n)), avlMax(n)
			if h := t.Height(); h < lo || h > hi {
				return errf(i, o, "interval Height() = %d with %d intervals, a balanced binary tree has %d..%d", h, n, lo, hi)
			}
			peak = max(peak, n)
		}
		r.LabelIf(o.N == "removeRange" && peak > 200, "bulk-remove")
	}
	if peak > 200 || r.Has("remove-hit") {
		r.NonTrivial()
	}
	return nil
}

type iv struct {
	high int64
	val  int64
}

// runInterval checks the dictionary (C09) and the overlap queries (C10).
func runInterval[I constraints.Ordered](c Case, r *Rec, mk func(int64) I, back func(I) int64, queries bool) error {
	t := interval.New[I, int64]()
	model := map[int64]iv{}
	lows := &argset{}
	var earlier results[interval.KV[I, int64]]
	cad := newCadence(c)
	kv := func(low int64) interval.KV[I, int64] {
		return interval.KV[I, int64]{Low: mk(low), High: mk(model[low].high), Val: model[low].val}
	}
	sorted := func() []int64 {
		out := make([]int64, 0, len(model))
		for k := range model {
			out = append(out, k)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	full := func(i int, o Op) error {
		if t.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", t.Size(), len(model))
		}
		want := sorted()
		n := 0
		var err error
		t.Each(func(low, high I, v int64) {
			if err != nil {
				return
			}
			if n >= len(want) {
				err = errf(i, o, "Each visits [%v,%v), beyond the %d intervals of the tree", low, high, len(want))
				return
			}
			if w := kv(want[n]); w.Low != low || w.High != high || w.Val != v {
				err = errf(i, o, "Each visits [%v,%v)=%d as number %d, want [%v,%v)=%d", low, high, v, n, w.Low, w.High, w.Val)
			}
			n++
		})
		if err == nil && n != len(want) {
			err = errf(i, o, "Each visits %d intervals, want %d", n, len(want))
		}
		return err
	}
	overlap := func(i int, o Op, lo, hi int64) error {
		var want []interval.KV[I, int64]
		for _, k := range sorted() {
			if k < hi && model[k].high > lo {
				want = append(want, kv(k))
			}
		}
		got := t.Overlaps(mk(lo), mk(hi))
		if s := earlier.changed(); s != "" {
			return errf(i, o, "Overlaps(%v,%v): %s", mk(lo), mk(hi), s)
		}
		earlier.add(got)
		r.LabelIf(len(want) > 0 && len(want) < len(model), "overlap-some")
		r.LabelIf(len(want) == 0 && len(model) > 0, "overlap-none")
		r.LabelIf(lo == hi, "empty-query")
		if len(got) != len(want) {
			return errf(i, o, "Overlaps(%v,%v) = %v, want %v", mk(lo), mk(hi), trunc(fmt.Sprint(got)), trunc(fmt.Sprint(want)))
		}
		for j := range got {
			if got[j] != want[j] {
				return errf(i, o, "Overlaps(%v,%v)[%d] = %v, want %v", mk(lo), mk(hi), j, got[j], want[j])
			}
		}
		return nil
	}
	if err := full(-1, Op{N: "new"}); err != nil {
		return err
	}
	span := int64(Mod(c.Cfg["span"], 400)) + 4
	coord := func(a int64) int64 { return int64(Mod(a, int(span))) - span/3 }
	put := func(i int, o Op, low, high, val int64, overwrite bool) error {
		old, had := model[low]
		var want, got interval.KV[I, int64]
		if had {
			want = kv(low)
		}
		var ok bool
		if overwrite {
			got, ok = t.Put(mk(low), mk(high), val)
		} else {
			got, ok = t.Add(mk(low), mk(high), val)
		}
		r.LabelIf(had && overwrite, "put-replaces")
		r.LabelIf(had && overwrite && old.high != high, "put-changes-high")
		r.LabelIf(had && !overwrite, "add-conflicts")
		r.LabelIf(low == high, "empty-interval")
		if ok != had || had && got != want {
			return errf(i, o, "[%v,%v) overwrite=%v returned %v, %v; want %v, %v", mk(low), mk(high), overwrite, got, ok, want, had)
		}
		if !had || overwrite {
			model[low] = iv{high, val}
		}
		lows.add(low)
		return nil
	}
	for i, o := range c.Ops {
		r.Turn()
		low := coord(o.A)
		length := int64(Mod(o.B, int(span)))
		if Mod(o.B>>20, 3) > 0 {
			length %= 6
		}
		if (o.N == "removeOld" || o.N == "putOld" || o.N == "addOld") && len(lows.list) > 0 {
			low = lows.list[Mod(o.A, len(lows.list))]
		}
		switch o.N {
		case "put", "putOld":
			if err := put(i, o, low, low+length, o.C, true); err != nil {
				return err
			}
		case "add", "addOld":
			if err := put(i, o, low, low+length, o.C, false); err != nil {
				return err
			}
		case "putRange":
			for j, k := range pattern(low, bulk(o.B, 120), o.C) {
				if err := put(i, o, k, k+int64(Mod(Mix(k+int64(j)), 20)), int64(j), j%3 > 0); err != nil {
					return err
				}
			}
		case "remove", "removeOld", "removeRange":
			ks := []int64{low}
			if o.N == "removeRange" {
				ks = pattern(low, bulk(o.B, 120), o.C)
			}
			for _, k := range ks {
				_, had := model[k]
				want := interval.KV[I, int64]{}
				if had {
					want = kv(k)
				}
				got, ok := t.Remove(mk(k))
				r.LabelIf(had, "remove-hit")
				if ok != had || had && got != want {
					return errf(i, o, "Remove(%v) = %v, %v; want %v, %v", mk(k), got, ok, want, had)
				}
				delete(model, k)
			}
		case "invalid":
			for _, f := range []func(){
				func() { t.Put(mk(low+1+length), mk(low), 7) },
				func() { t.Add(mk(low+1+length), mk(low), 7) },
				func() { t.Overlaps(mk(low+1+length), mk(low)) },
			} {
				if p := Panics(f); p == nil {
					return errf(i, o, "an interval with low > high (%v > %v) did not panic", mk(low+1+length), mk(low))
				}
			}
			r.Label("invalid")
		case "overlaps":
			if err := overlap(i, o, low, low+length); err != nil {
				return err
			}
		}
		if s := earlier.changed(); s != "" {
			return errf(i, o, "Overlaps: %s", s)
		}
		last := i == len(c.Ops)-1
		for _, k := range []int64{low, low + 1} {
			want, had := model[k]
			got, ok := t.Get(mk(k))
			if ok != had || had && (got.Low != mk(k) || got.High != mk(want.high) || got.Val != want.val) {
				return errf(i, o, "Get(%v) = %v, %v; want %v, %v", mk(k), got, ok, want, had)
			}
		}
		if cad.due(len(model), last) {
			if err := full(i, o); err != nil {
				return err
			}
			if queries {
				if err := overlap(i, o, low, low+length); err != nil {
					return err
				}
				if err := overlap(i, o, low+length, low+length+1); err != nil {
					return err
				}
				if last {
					for j, a := range lows.list {
						if len(lows.list) > 60 && Mod(a, 5) > 0 {
							continue
						}
						if len(lows.list) > 2000 && j%(len(lows.list)/15) > 0 {
							continue
						}
						// boundary queries around every interval seen
						h := model[a].high
						for _, q := range [][2]int64{{a, a}, {a - 1, a}, {a, a + 1}, {h, h + 1}, {h - 1, h}, {a - span, a + 1}, {h - 1, h + 2*span}} {
							if q[0] <= q[1] {
								if err := overlap(i, o, q[0], q[1]); err != nil {
									return err
								}
							}
						}
					}
				}
			}
		}
	}
	_ = back
	if queries {
		if r.Has("overlap-some") && (r.Has("remove-hit") || r.Has("put-changes-high")) {
			r.NonTrivial()
		}
	} else if r.Has("remove-hit") && (r.Has("put-replaces") || r.Has("add-conflicts")) {
		r.NonTrivial()
	}
	return nil
}

func runIntervalKinds(c Case, r *Rec, queries bool) error {
	switch Mod(c.Cfg["type"], 4) {
	case 0:
		return runInterval(c, r, func(a int64) int { return int(a) }, func(i int) int64 { return int64(i) }, queries)
	case 1:
		return runInterval(c, r, func(a int64) float64 { return float64(a) / 2 }, func(f float64) int64 { return int64(f * 2) }, queries)
	case 2:
		return runInterval(c, r, func(a int64) string { return fmt.Sprintf("%08d", a+1_000_000) }, nil, queries)
	default: // values close to the limits of the type
		return runInterval(c, r, func(a int64) uint64 { return math.MaxUint64 - 2_000_000 + uint64(a+500_000) }, nil, queries)
	}
}

func bigTree(n int64) []Case {
	var out []Case
	for i := int64(0); i < 8; i++ {
		m := n
		if i > 1 && i < 6 {
			m = n / 6
		}
		// the trees that grow at their smaller and larger end lean to different sides
		out = append(out, Case{Cfg: map[string]int64{"ord": Mod64(i, 6)}, Ops: []Op{
			{N: "putRange", A: 9, B: exactly(m), C: i % 5}, {N: "removeOld", A: 11}, {N: "putOld", A: 12, B: 5},
			{N: "removeRange", A: 30, B: exactly(m * 9 / 10), C: i % 5}, {N: "put", A: 8, B: 4}, {N: "putRange", A: 100, B: exactly(m / 3), C: (i + 2) % 5}}})
	}
	return out
}

func init() {
	genTree := func(big int64) func(g *G) Case {
		return func(g *G) Case {
			c := Case{Cfg: map[string]int64{"ord": g.Uniform(6)}}
			specs := treeSpecs(150)
			if g.Chance(40) {
				specs = treeSpecs(big)
				c.Ops = append(c.Ops, Op{N: "putRange", A: g.Uniform(100), B: big/2 + g.Uniform(big/2), C: g.Uniform(5)})
				c.Ops = append(c.Ops, g.History(specs, 3)...)
				return c
			}
			c.Ops = g.History(specs, 10)
			return c
		}
	}
	Register(&Prop{
		ID: "C06", Quick: 84000, Thorough: 1740000,
		Rule:  "random histories of Put/Remove/Get (single, bulk in five key orders) on avl with int, reversed, coarse, scrambled, string and struct orders against an ideal ordered dictionary; Each, Size compared after every step; non-trivial: a present key was removed in a history that also overwrote one or grew past 100 keys",
		Gen:   genTree(1500),
		Fixed: func() []Case { return bigTree(140_000) },
		Run: func(c Case, r *Rec) error {
			return withOrdEnv(c, r,
				func(e ordEnv[int64]) error { return runTree[int64](c, r, e, avl.New[int64, int64](e.less), 1500) },
				func(e ordEnv[string]) error { return runTree[string](c, r, e, avl.New[string, int64](e.less), 1500) },
				func(e ordEnv[skey]) error { return runTree[skey](c, r, e, avl.New[skey, int64](e.less), 1500) })
		},
	})
	costOps := []Spec{
		{"putRange", 6, argsBulk(3000)}, {"removeRange", 4, argsBulk(3000)},
		{"put", 2, argsKeyVal}, {"remove", 4, argsKey}, {"get", 2, argsKey},
	}
	Register(&Prop{
		ID: "C07", Quick: 54000, Thorough: 1560000,
		Rule: "histories of single and bulk Put/Remove/Get (ascending, descending, scattered, strided, outside-in; up to 32768 keys) on avl, btree and interval; and long histories on trees of at most 8-100 keys; after every operation the height is compared with the limits of balanced binary trees and the comparator calls with a logarithmic bound; non-trivial: the tree held more than 200 keys, or a present key was removed from a tree of 6 or more",
		Gen: func(g *G) Case {
			c := Case{Cfg: map[string]int64{"impl": g.Uniform(3), "ord": g.Uniform(2)}}
			if g.Chance(4) {
				c.Ops = g.HistoryN(costOps, 1+g.Uniform(14))
				return c
			}
			// small trees, where one node of imbalance shows in the height
			dom := g.Pick(8, 12, 20, 40, 100)
			one := func(g *G) Op { return Op{A: g.Uniform(dom)} }
			c.Ops = g.HistoryN([]Spec{{"put", 6, one}, {"remove", 5, one}, {"get", 1, one}}, 20+g.Uniform(4*dom))
			return c
		},
		Fixed: func() []Case {
			var out []Case
			for i := int64(0); i < 6; i++ {
				out = append(out, Case{Cfg: map[string]int64{"impl": i % 3, "ord": i / 3}, Ops: []Op{
					{N: "putRange", B: exactly(60_000), C: i % 5}, {N: "removeRange", A: 100, B: exactly(50_000), C: i % 5}, {N: "putRange", A: 10, B: exactly(3000), C: 2}}})
			}
			return out
		},
		Run: runCost,
	})
	Register(&Prop{
		ID: "C08", Quick: 60000, Thorough: 550000,
		Rule:  "random histories as for C06 on btree, one in forty with bulks of up to 5000 keys so that the tree has three levels, against an ideal ordered dictionary; Size, Each and Get compared after every step; non-trivial: a present key was removed in a history that also overwrote one or grew past 100 keys",
		Gen:   genTree(5000),
		Fixed: func() []Case { return bigTree(140_000) }, // four levels
		Run: func(c Case, r *Rec) error {
			return withOrdEnv(c, r,
				func(e ordEnv[int64]) error { return runTree[int64](c, r, e, btree.New[int64, int64](e.less), 5000) },
				func(e ordEnv[string]) error { return runTree[string](c, r, e, btree.New[string, int64](e.less), 5000) },
				func(e ordEnv[skey]) error { return runTree[skey](c, r, e, btree.New[skey, int64](e.less), 5000) })
		},
	})
	ivArgs := func(g *G) Op {
		return Op{A: g.Uniform(1 << 16), B: g.Uniform(1 << 24), C: g.Uniform(100)}
	}
	ivSpecs := func(q int) []Spec {
		return []Spec{
			{"add", 6, ivArgs}, {"put", 4, ivArgs}, {"addOld", 2, ivArgs}, {"putOld", 3, ivArgs},
			{"remove", 2, ivArgs}, {"removeOld", 5, ivArgs}, {"putRange", 1, ivArgs}, {"removeRange", 1, ivArgs},
			{"invalid", 1, ivArgs}, {"overlaps", q, ivArgs},
		}
	}
	for _, q := range []bool{false, true} {
		q := q
		id, rule := "C09", "random histories of Add/Put/Remove/Get and invalid intervals over int, float64, string and extreme uint64 positions against an ideal dictionary; return values, Size and Each compared after every step; non-trivial: a present interval was removed and a conflicting one added or replaced"
		if q {
			id, rule = "C10", "the same histories with Overlaps queries after every step and boundary queries around every interval at the end, against brute force over the model; non-trivial: a query with some but not all intervals in the result, in a history that removed an interval or changed one's end"
		}
		w := 0
		if q {
			w = 4
		}
		Register(&Prop{
			ID: id, Quick: 72000, Thorough: 720000, Rule: rule,
			Gen: func(g *G) Case {
				return Case{Cfg: map[string]int64{"type": g.Uniform(4), "span": g.Uniform(400)}, Ops: g.History(ivSpecs(w), 6)}
			},
			Fixed: func() []Case {
				var out []Case
				for i := int64(0); i < 4; i++ {
					n := int64(8000)
					if i == 0 {
						n = 70_000
					}
					out = append(out, Case{Cfg: map[string]int64{"type": i, "span": 100 * i}, Ops: []Op{
						{N: "putRange", A: 3, B: exactly(n), C: i}, {N: "add", A: 17, B: 9, C: 1}, {N: "removeOld", A: 4000}, {N: "putOld", A: 3000, B: 60},
						{N: "removeRange", A: 40, B: exactly(6000), C: i}, {N: "put", A: 5, B: 3, C: 8}, {N: "overlaps", A: 20, B: 50}}})
				}
				return out
			},
			Run: func(c Case, r *Rec) error { return runIntervalKinds(c, r, q) },
		})
	}
}
