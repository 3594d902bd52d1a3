package props

import (
	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"runtime"
	. "verif/harness/pbt"
)

// hashEnv describes a key type with an equality and a consistent hash.
type hashEnv[K any] struct {
	mk    func(int64) K     // key for an op argument
	class func(K) int64     // identity of the equivalence class of a key
	canon func(int64) int64 // op argument -> class
	eq    g.EqualsFn[K]
	hash  g.HashFn[K]
}

func hashFor[K any](mode int64, canonOf func(K) int64, good func(K) uint64) g.HashFn[K] {
	switch Mod(mode, 9) {
	case 1:
		return func(k K) uint64 { return 0 }
	case 2:
		return func(k K) uint64 { return ^uint64(0) } // always the last slot: probing wraps
	case 3:
		return func(k K) uint64 { return uint64(canonOf(k)) % 3 }
	case 4:
		return func(k K) uint64 { return uint64(canonOf(k)) } // identity: runs of adjacent slots
	case 5:
		return func(k K) uint64 { return uint64(canonOf(k)) << 32 } // low bits useless
	case 6:
		return func(k K) uint64 { return ^(uint64(canonOf(k)) % 5) } // clusters around the end of the table
	case 7:
		return func(k K) uint64 { return uint64(canonOf(k)) / 4 } // groups of four
	default:
		return good
	}
}

func collides(mode int64) bool { m := Mod(mode, 9); return m >= 1 && m <= 7 && m != 4 }

// stepped wraps equality and hash so that endless probing is noticed.
func stepped[K any](r *Rec, eq g.EqualsFn[K], h g.HashFn[K]) (g.EqualsFn[K], g.HashFn[K]) {
	return func(a, b K) bool { r.Step(); return eq(a, b) }, func(k K) uint64 { r.Step(); return h(k) }
}

func withHashEnv(c Case, r *Rec, f func(kind string) error,
	fi func(e hashEnv[int]) error, fs func(e hashEnv[string]) error, ft func(e hashEnv[skey]) error) error {
	mode := c.Cfg["hash"]
	switch Mod(c.Cfg["key"], 4) {
	case 0:
		canon := func(a int64) int64 { return a }
		e := hashEnv[int]{mk: intKey, canon: canon, class: func(k int) int64 { return int64(k) }, eq: g.Equals[int]}
		e.hash = hashFor(mode, e.class, g.HashInt)
		e.eq, e.hash = stepped(r, e.eq, e.hash)
		return fi(e)
	case 1:
		// coarse equality: 2n and 2n+1 are the same key
		half := func(a int64) int64 { return a >> 1 }
		e := hashEnv[int]{mk: intKey, canon: half, class: func(k int) int64 { return int64(k) >> 1 },
			eq: func(a, b int) bool { return a>>1 == b>>1 }}
		e.hash = hashFor(mode, e.class, func(k int) uint64 { return g.HashInt(k >> 1) })
		e.eq, e.hash = stepped(r, e.eq, e.hash)
		return fi(e)
	case 2:
		back := map[string]int64{}
		mk := func(a int64) string { s := orEmpty(a); back[s] = a; return s }
		e := hashEnv[string]{mk: mk, canon: func(a int64) int64 { return a },
			class: func(s string) int64 {
				v, ok := back[s]
				if !ok {
					return -1 << 62
				}
				return v
			}, eq: g.Equals[string]}
		e.hash = hashFor(mode, e.class, g.HashString)
		e.eq, e.hash = stepped(r, e.eq, e.hash)
		return fs(e)
	default:
		canon := func(a int64) int64 { return int64(int32(a))<<8 + a%100 + 100 }
		e := hashEnv[skey]{mk: structKey, canon: canon, class: func(k skey) int64 {
			n := int64(0)
			neg := false
			for _, ch := range k.b {
				if ch == '-' {
					neg = true
				} else {
					n = n*10 + int64(ch-'0')
				}
			}
			if neg {
				n = -n
			}
			return int64(k.a)<<8 + n + 100
		}, eq: g.Equals[skey]}
		e.hash = hashFor(mode, e.class, func(k skey) uint64 { return g.HashInt32(k.a) ^ g.HashString(k.b)*31 })
		e.eq, e.hash = stepped(r, e.eq, e.hash)
		return ft(e)
	}
}

var capacities = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 100, 1000,
	4097, 70_000, 1<<20 - 1} // the last three in fixed cases only

func genHashCfg(g *G) map[string]int64 {
	h := int64(0)
	if g.Chance(2) {
		h = g.Uniform(9)
	}
	return map[string]int64{"key": g.Uniform(4), "hash": h, "cap": g.Uniform(13)}
}

// family is a set of dictionaries that are copies of each other, each with its
// own model (class of key -> value).
type member[K any] struct {
	m     *hashmap.Map[K, int64]
	model map[int64]int64
}

func diffMap[K any](m *hashmap.Map[K, int64], model map[int64]int64, e hashEnv[K], r *Rec) string {
	r.Budget()
	if m.Size() != len(model) {
		return errStr("Size() = %d, want %d", m.Size(), len(model))
	}
	seen := make(map[int64]bool, len(model))
	bad := ""
	m.Each(func(k K, v int64) {
		r.Step()
		cl := e.class(k)
		want, ok := model[cl]
		switch {
		case bad != "":
		case seen[cl]:
			bad = errStr("Each visits key %v twice", k)
		case !ok:
			bad = errStr("Each visits key %v, which is not in the map", k)
		case want != v:
			bad = errStr("Each gives %d for key %v, want %d", v, k, want)
		}
		seen[cl] = true
	})
	if bad != "" {
		return bad
	}
	if len(seen) != len(model) {
		return errStr("Each visits %d keys, want %d", len(seen), len(model))
	}
	return ""
}

func diffGet[K any](m *hashmap.Map[K, int64], model map[int64]int64, e hashEnv[K], r *Rec, arg int64) string {
	r.Budget()
	v, ok := m.Get(e.mk(arg))
	want, wok := model[e.canon(arg)]
	if ok != wok || ok && v != want {
		return errStr("Get(%v) = %s, want %s", e.mk(arg), fmtVal(v, ok), fmtVal(want, wok))
	}
	return ""
}

func errStr(format string, args ...any) string { return fmtSprintf(format, args...) }

// runHashFamily executes a history over a family of hashmaps. With one member
// and no copies it is the dictionary property; with copies, copy independence.
func runHashFamily[K any](c Case, r *Rec, e hashEnv[K], copies bool) error {
	coll := collides(c.Cfg["hash"])
	maxBulk := 3000
	if coll {
		maxBulk = 40
	}
	cp := capacities[Mod(c.Cfg["cap"], len(capacities))]
	fam := []*member[K]{{hashmap.New[K, int64](cp, e.eq, e.hash), map[int64]int64{}}}
	var hist []int64
	touched := &argset{}
	cad := newCadence(c)
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		f := fam[0]
		if copies {
			f = fam[Mod(o.C>>8, len(fam))]
		}
		arg := o.A
		if (o.N == "removeOld" || o.N == "putOld") && len(hist) > 0 {
			arg = hist[Mod(o.A, len(hist))]
		}
		cl := e.canon(arg)
		switch o.N {
		case "put", "putOld":
			_, had := f.model[cl]
			r.LabelIf(had, "overwrite")
			f.m.Put(e.mk(arg), o.B)
			f.model[cl] = o.B
			hist = append(hist, arg)
			touched.add(arg)
		case "remove", "removeOld":
			_, had := f.model[cl]
			r.LabelIf(had, "remove-hit")
			r.LabelIf(!had, "remove-miss")
			f.m.Remove(e.mk(arg))
			delete(f.model, cl)
			touched.add(arg)
		case "putRange", "removeRange":
			ks := pattern(o.A, bulk(o.B, maxBulk), o.C&0xff)
			if coll && len(f.model) > 400 && o.N == "putRange" {
				break
			}
			for j, k := range ks {
				r.Budget()
				if o.N == "putRange" {
					f.m.Put(e.mk(k), o.B+int64(j))
					f.model[e.canon(k)] = o.B + int64(j)
				} else {
					if _, had := f.model[e.canon(k)]; had {
						r.Label("remove-hit")
					}
					f.m.Remove(e.mk(k))
					delete(f.model, e.canon(k))
				}
				if j < 30 || j == len(ks)-1 {
					hist = append(hist, k)
					touched.add(k)
				}
			}
			r.LabelIf(len(ks) > 100, "bulk")
		case "drain": // remove all but a few, through repeated shrinking
			keep := Mod(o.B, 4)
			for _, k := range sortedKeys(f.model) {
				if len(f.model) <= keep {
					break
				}
				// find an argument of this class: classes are derived from args we used
				r.Budget()
				if a, ok := argOf(e, k); ok {
					f.m.Remove(e.mk(a))
					delete(f.model, k)
					r.Label("remove-hit")
				}
			}
			r.Label("drain")
		case "clear":
			r.LabelIf(len(f.model) > 0, "clear-nonempty")
			f.m.Clear()
			f.model = map[int64]int64{}
		case "copy":
			if !copies {
				break
			}
			n := &member[K]{f.m.Copy(), make(map[int64]int64, len(f.model))}
			for k, v := range f.model {
				n.model[k] = v
			}
			r.Label("copy")
			r.LabelIf(len(f.model) > 0, "copy-nonempty")
			if len(fam) < 5 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
		case "copyMany": // one after another, or all of the same map
			if !copies {
				break
			}
			if msg := copyMany(f, e, r, bulk(o.B, 1000), o.A); msg != "" {
				return errf(i, o, "%s", msg)
			}
		case "copyCost":
			if !copies || len(f.model) < 1000 {
				break
			}
			var keep [8]*hashmap.Map[K, int64]
			got := leastAlloc(func() {
				for j := range keep {
					keep[j] = f.m.Copy()
				}
			})
			r.Label("copy-cost-measured")
			if lim := uint64(len(keep) * len(f.model)); got > lim {
				return errf(i, o, "%d copies of a map of %d keys allocated %d bytes before any write (limit %d)", len(keep), len(f.model), got, lim)
			}
			runtime.KeepAlive(keep)
		}
		if copies && len(fam) > 1 && o.N != "copy" && o.N != "copyCost" {
			r.Label("write-with-copies:" + o.N)
		}
		last := i == len(c.Ops)-1
		total := 0
		for _, x := range fam {
			total += len(x.model)
		}
		r.LabelIf(len(f.model) >= 500, "large")
		full := cad.due(total, last)
		for _, x := range fam {
			if s := diffGet(x.m, x.model, e, r, arg); s != "" {
				return errf(i, o, "%s", s)
			}
			if x.m.Size() != len(x.model) {
				return errf(i, o, "Size() = %d, want %d", x.m.Size(), len(x.model))
			}
			if full {
				if s := diffMap(x.m, x.model, e, r); s != "" {
					return errf(i, o, "%s", s)
				}
				if total <= 80 || last {
					n := 0
					for _, k := range touched.list {
						if s := diffGet(x.m, x.model, e, r, k); s != "" {
							return errf(i, o, "%s", s)
						}
						if n++; n > 400 && coll {
							break
						}
					}
				}
			}
		}
	}
	if copies {
		for _, l := range []string{"put", "putOld", "remove", "removeOld", "clear", "putRange", "removeRange", "drain"} {
			if r.Has("copy-nonempty", "write-with-copies:"+l) {
				r.NonTrivial()
			}
		}
	} else if r.Has("remove-hit") && r.Has("overwrite") || r.Has("drain", "bulk") || r.Has("clear-nonempty") {
		r.NonTrivial()
	}
	return nil
}

// argOf inverts canon for the key kinds in use.
func argOf[K any](e hashEnv[K], cl int64) (int64, bool) {
	for _, a := range []int64{cl, cl << 1, (cl - 100) >> 8} {
		if e.canon(a) == cl {
			return a, true
		}
	}
	return 0, false
}

func argsFam(f func(g *G) Op) func(g *G) Op {
	return func(g *G) Op {
		o := f(g)
		o.C |= g.Uniform(5) << 8
		return o
	}
}

// hashset as a family, same scheme.
type smember[K any] struct {
	s     *hashset.Set[K]
	model map[int64]bool
}

func runHashset[K any](c Case, r *Rec, e hashEnv[K]) error {
	coll := collides(c.Cfg["hash"])
	maxBulk := 1500
	if coll {
		maxBulk = 40
	}
	cp := capacities[Mod(c.Cfg["cap"], len(capacities))]
	first := &smember[K]{model: map[int64]bool{}}
	if n := Mod(c.Cfg["of"], 12); n > 0 {
		var vals []K
		for _, a := range pattern(c.Cfg["of"], n, c.Cfg["of"]/12) {
			vals = append(vals, e.mk(a%7)) // duplicates likely
			first.model[e.canon(a%7)] = true
		}
		first.s = hashset.Of(cp, e.eq, e.hash, vals...)
		r.Label("of")
	} else {
		first.s = hashset.New(cp, e.eq, e.hash)
	}
	fam := []*smember[K]{first}
	touched := &argset{}
	check := func(x *smember[K], i int, o Op, full bool) error {
		r.Budget()
		if x.s.Size() != len(x.model) {
			return errf(i, o, "Size() = %d, want %d", x.s.Size(), len(x.model))
		}
		if !full {
			return nil
		}
		seen := map[int64]bool{}
		var bad error
		x.s.Each(func(k K) {
			r.Step()
			cl := e.class(k)
			if bad == nil && seen[cl] {
				bad = errf(i, o, "Each visits %v twice", k)
			}
			if bad == nil && !x.model[cl] {
				bad = errf(i, o, "Each visits %v, which is not in the set", k)
			}
			seen[cl] = true
		})
		if bad != nil {
			return bad
		}
		if len(seen) != len(x.model) {
			return errf(i, o, "Each visits %d elements, want %d", len(seen), len(x.model))
		}
		n := 0
		for _, a := range touched.list {
			r.Budget()
			if got, want := x.s.Has(e.mk(a)), x.model[e.canon(a)]; got != want {
				return errf(i, o, "Has(%v) = %v, want %v", e.mk(a), got, want)
			}
			if n++; n > 200 {
				break
			}
		}
		return nil
	}
	if err := check(first, -1, Op{N: "init"}, true); err != nil {
		return err
	}
	cad := newCadence(c)
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		f := fam[Mod(o.C>>8, len(fam))]
		cl := e.canon(o.A)
		switch o.N {
		case "put":
			r.LabelIf(f.model[cl], "overwrite")
			f.s.Put(e.mk(o.A))
			f.model[cl] = true
			touched.add(o.A)
		case "remove":
			r.LabelIf(f.model[cl], "remove-hit")
			f.s.Remove(e.mk(o.A))
			delete(f.model, cl)
			touched.add(o.A)
		case "putRange", "removeRange":
			if coll && len(f.model) > 400 && o.N == "putRange" {
				break
			}
			for j, k := range pattern(o.A, bulk(o.B, maxBulk), o.C&0xff) {
				r.Budget()
				if o.N == "putRange" {
					f.s.Put(e.mk(k))
					f.model[e.canon(k)] = true
				} else {
					r.LabelIf(f.model[e.canon(k)], "remove-hit")
					f.s.Remove(e.mk(k))
					delete(f.model, e.canon(k))
				}
				if j < 20 {
					touched.add(k)
				}
			}
		case "clear":
			r.LabelIf(len(f.model) > 0, "clear-nonempty")
			f.s.Clear()
			f.model = map[int64]bool{}
		case "copy":
			n := &smember[K]{f.s.Copy(), map[int64]bool{}}
			for k := range f.model {
				n.model[k] = true
			}
			r.LabelIf(len(f.model) > 0, "copy-nonempty")
			if len(fam) < 4 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
		}
		r.LabelIf(len(fam) > 1 && o.N != "copy", "write-with-copies:"+o.N)
		total := 0
		for _, x := range fam {
			total += len(x.model)
		}
		full := cad.due(total, i == len(c.Ops)-1)
		for _, x := range fam {
			if err := check(x, i, o, full); err != nil {
				return err
			}
			r.Budget()
			if got, want := x.s.Has(e.mk(o.A)), x.model[e.canon(o.A)]; got != want {
				return errf(i, o, "Has(%v) = %v, want %v", e.mk(o.A), got, want)
			}
		}
	}
	if r.Has("remove-hit") || r.Has("clear-nonempty") {
		r.NonTrivial()
	}
	return nil
}

func runMapset[K comparable](c Case, r *Rec, mk func(int64) K) error {
	model := map[K]bool{}
	var s mapset.Set[K]
	if n := Mod(c.Cfg["of"], 12); n > 0 {
		var vals []K
		for _, a := range pattern(c.Cfg["of"], n, c.Cfg["of"]/12) {
			vals = append(vals, mk(a%7))
			model[mk(a%7)] = true
		}
		s = mapset.Of(vals...)
		r.Label("of")
	} else {
		s = mapset.New[K]()
	}
	check := func(i int, o Op) error {
		if s.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", s.Size(), len(model))
		}
		seen := map[K]bool{}
		var bad error
		s.Each(func(k K) {
			r.Step()
			if seen[k] {
				bad = errf(i, o, "Each visits %v twice", k)
			}
			if !model[k] {
				bad = errf(i, o, "Each visits %v, which is not in the set", k)
			}
			seen[k] = true
		})
		if bad != nil {
			return bad
		}
		if len(seen) != len(model) {
			return errf(i, o, "Each visits %d elements, want %d", len(seen), len(model))
		}
		for a := int64(-1); a < 10; a++ {
			if got, want := s.Has(mk(a)), model[mk(a)]; got != want {
				return errf(i, o, "Has(%v) = %v, want %v", mk(a), got, want)
			}
		}
		return nil
	}
	if err := check(-1, Op{N: "init"}); err != nil {
		return err
	}
	cad := newCadence(c)
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		k := mk(o.A)
		switch o.N {
		case "put":
			s.Put(k)
			model[k] = true
		case "remove":
			r.LabelIf(model[k], "remove-hit")
			s.Remove(k)
			delete(model, k)
		case "putRange", "removeRange":
			for _, a := range pattern(o.A, bulk(o.B, 500), o.C&0xff) {
				if o.N == "putRange" {
					s.Put(mk(a))
					model[mk(a)] = true
				} else {
					r.LabelIf(model[mk(a)], "remove-hit")
					s.Remove(mk(a))
					delete(model, mk(a))
				}
			}
		case "clear":
			r.LabelIf(len(model) > 0, "clear-nonempty")
			s.Clear()
			model = map[K]bool{}
		}
		if got, want := s.Has(k), model[k]; got != want {
			return errf(i, o, "Has(%v) = %v, want %v", k, got, want)
		}
		if cad.due(len(model), i == len(c.Ops)-1) {
			if err := check(i, o); err != nil {
				return err
			}
		}
	}
	if r.Has("remove-hit") || r.Has("clear-nonempty") {
		r.NonTrivial()
	}
	return nil
}

// copyMany makes n copies and writes to the original and to half of them.
func copyMany[K any](f *member[K], e hashEnv[K], r *Rec, n int, a int64) string {
	all := make([]*hashmap.Map[K, int64], n)
	for j := range all {
		from := f.m
		if a&1 != 0 && j > 0 {
			from = all[j-1]
		}
		r.Budget()
		all[j] = from.Copy()
	}
	look := func(j int, m *hashmap.Map[K, int64], arg, want int64, there bool) string {
		if v, ok := m.Get(e.mk(arg)); ok != there || ok && v != want {
			return errStr("of %d copies, the one numbered %d: Get(%v) = %s, want %s", n, j, e.mk(arg), fmtVal(v, ok), fmtVal(want, there))
		}
		return ""
	}
	before, had := f.model[e.canon(a)]
	size := len(f.model)
	order := pattern(0, n, 4)
	for x := 0; x < n+1; x++ { // the copies from both ends inwards, the original somewhere between
		r.Budget()
		switch {
		case x == n/3:
			f.m.Put(e.mk(a), -5)
			f.model[e.canon(a)] = -5
		case x%2 == 0 && x < n:
			all[order[x]].Put(e.mk(a), order[x])
		}
	}
	if !had {
		size++
	}
	r.Label("many-copies")
	for x, j := range order {
		r.Budget()
		want, there, sz := before, had, size
		if x%2 == 0 && x != n/3 {
			want, there = j, true
		} else if !had {
			sz--
		}
		if s := look(int(j), all[j], a, want, there); s != "" {
			return s
		}
		if all[j].Size() != sz {
			return errStr("of %d copies, the one numbered %d: Size() = %d, want %d", n, j, all[j].Size(), sz)
		}
	}
	return ""
}

// bigHash returns histories on tables far larger than the random ones: tens
// of thousands of keys, and long clusters of colliding ones.
func bigHash(copies bool) []Case {
	var out []Case
	add := func(key, hash, cp, n, pat int64) {
		c := Case{Cfg: map[string]int64{"key": key, "hash": hash, "cap": cp}}
		c.Ops = []Op{
			{N: "putRange", A: 5, B: exactly(n), C: pat},
			{N: "put", A: 7, B: 1}, {N: "removeOld", A: 3}, {N: "putOld", A: 4, B: 9},
		}
		if copies {
			c.Ops = append(c.Ops, Op{N: "copy"}, Op{N: "put", A: 6, B: 3, C: 1 << 8}, Op{N: "copy", C: 1 << 8}, Op{N: "remove", A: 5})
		}
		// patterns 1 and 2 take the keys away in another order than they came
		other := pat
		if pat == 0 {
			other = 1
		}
		c.Ops = append(c.Ops,
			Op{N: "removeRange", A: 5, B: exactly(n * 9 / 10), C: other},
			Op{N: "put", A: 11, B: 2},
			Op{N: "putRange", A: 3, B: exactly(n / 7), C: pat | 1<<8},
			Op{N: "removeRange", A: 5, B: exactly(n + 10), C: other},
			Op{N: "drain", B: 1}, Op{N: "put", A: 1, B: 1})
		c.Ops = append(c.Ops, Op{N: "putRange", A: 0, B: exactly(n), C: pat}, Op{N: "clear"}, Op{N: "put", A: 2, B: 2})
		out = append(out, c)
	}
	add(0, 0, 0, 70_000, 2) // more than 16 bits can count
	add(2, 0, 12, 20_000, 0)
	add(1, 4, 3, 5_000, 0)
	add(3, 0, 1, 5_000, 3)
	add(0, 1, 0, 300, 0)
	add(2, 6, 9, 700, 0)
	add(0, 3, 2, 700, 0)
	add(0, 0, 13, 3000, 2)
	add(1, 0, 14, 900, 0)
	add(2, 0, 15, 40, 1)
	if !copies {
		add(0, 0, 0, 150_000, 0)
		return out
	}
	for i := int64(0); i < 4; i++ { // more copies than 8 and 16 bits can count
		c := Case{Cfg: map[string]int64{"key": i, "hash": 0, "cap": i}, Ops: []Op{{N: "putRange", A: 1, B: exactly(8)}}}
		for j, n := range []int64{2, 255, 256, 257, 127, 128, 600, 65_537, 256, 131_072} {
			c.Ops = append(c.Ops, Op{N: "copyMany", A: 100 + int64(j) + i, B: exactly(n)}, Op{N: "put", A: 5, B: int64(j)}, Op{N: "remove", A: 6, C: 1 << 8})
		}
		out = append(out, c)
	}
	return out
}

func init() {
	dictOps := []Spec{
		{"put", 8, argsKeyVal},
		{"putOld", 3, argsKeyVal},
		{"remove", 4, argsKey},
		{"removeOld", 5, argsKey},
		{"putRange", 2, argsBulk(400)},
		{"removeRange", 2, argsBulk(400)},
		{"drain", 1, argsKeyVal},
		{"clear", 1, argsNone},
	}
	Register(&Prop{
		ID: "C01", Quick: 84000, Thorough: 1140000,
		Rule: "random histories of Put/Remove/Clear (single and bulk, swarm-weighted) over int, string, struct and coarse-equality keys, nine hash functions from ideal to constant, initial capacities 0..1000, against an ideal dictionary; non-trivial: a present key was overwritten and another removed, or the map was grown past 100 keys and drained, or a non-empty map was cleared",
		Gen: func(g *G) Case {
			c := Case{Cfg: genHashCfg(g)}
			specs := dictOps
			if g.Chance(60) || g.Thorough && g.Chance(20) {
				specs = append([]Spec{}, dictOps...)
				specs[4].Args = argsBulk(3000)
				specs[5].Args = argsBulk(3000)
			}
			c.Ops = g.History(specs, 10)
			return c
		},
		Fixed: func() []Case { return bigHash(false) },
		Run: func(c Case, r *Rec) error {
			return withHashEnv(c, r, nil,
				func(e hashEnv[int]) error { return runHashFamily(c, r, e, false) },
				func(e hashEnv[string]) error { return runHashFamily(c, r, e, false) },
				func(e hashEnv[skey]) error { return runHashFamily(c, r, e, false) })
		},
	})
	copyOps := []Spec{{"copy", 6, argsFam(argsKey)}}
	for _, s := range dictOps {
		s.Args = argsFam(s.Args)
		copyOps = append(copyOps, s)
	}
	copyOps = append(copyOps, Spec{"copyCost", 1, argsFam(argsNone)})
	Register(&Prop{
		ID: "C02", Quick: 90000, Thorough: 2040000,
		Rule: "random histories over a family of up to 5 maps that are copies (of copies) of each other, every member compared with its own model after every step; copies of maps of 1000+ keys have their allocation measured; non-trivial: a copy of a non-empty map was taken and some member was written, removed from, drained or cleared afterwards",
		Gen: func(g *G) Case {
			c := Case{Cfg: genHashCfg(g)}
			specs := copyOps
			if g.Chance(25) {
				specs = append([]Spec{}, copyOps...)
				specs[len(specs)-1].Weight = 6
				specs[5].Args = argsFam(argsBulk(3000))
				c.Cfg["hash"] = 0
				pre := Op{N: "putRange", A: g.Uniform(100), B: 1000 + g.Uniform(2000)}
				c.Ops = append([]Op{pre, {N: "copyCost"}}, g.History(specs, 3)...)
				return c
			}
			c.Ops = g.History(specs, 8)
			return c
		},
		Fixed: func() []Case { return bigHash(true) },
		Run: func(c Case, r *Rec) error {
			return withHashEnv(c, r, nil,
				func(e hashEnv[int]) error { return runHashFamily(c, r, e, true) },
				func(e hashEnv[string]) error { return runHashFamily(c, r, e, true) },
				func(e hashEnv[skey]) error { return runHashFamily(c, r, e, true) })
		},
	})
	setOps := []Spec{
		{"put", 8, argsFam(argsKey)},
		{"remove", 8, argsFam(argsKey)},
		{"putRange", 2, argsFam(argsBulk(200))},
		{"removeRange", 2, argsFam(argsBulk(200))},
		{"clear", 1, argsFam(argsNone)},
		{"copy", 3, argsFam(argsKey)},
	}
	Register(&Prop{
		ID: "C03", Quick: 84000, Thorough: 2290000,
		Rule: "random histories of Put/Remove/Clear/Copy on hashset (good to constant hashes, any capacity, New and Of with duplicates, families of copies) and on mapset, against an ideal set; non-trivial: a present element was removed or a non-empty set cleared",
		Gen: func(g *G) Case {
			c := Case{Cfg: genHashCfg(g)}
			c.Cfg["impl"] = g.Uniform(3)
			c.Cfg["of"] = g.Uniform(60)
			c.Ops = g.History(setOps, 10)
			return c
		},
		Fixed: func() []Case {
			cs := bigHash(true)
			for i := range cs {
				cs[i].Cfg["impl"] = int64(i % 3)
			}
			wide := Case{Cfg: map[string]int64{"impl": 2}, Ops: cs[0].Ops}
			return append(cs, wide)
		},
		Run: func(c Case, r *Rec) error {
			if Mod(c.Cfg["impl"], 3) == 2 {
				r.Label("mapset")
				switch Mod(c.Cfg["key"], 4) {
				case 0:
					return runMapset(c, r, intKey)
				case 3:
					return runMapset(c, r, anyKey)
				case 1:
					return runMapset(c, r, orEmpty)
				default:
					return runMapset(c, r, structKey)
				}
			}
			r.Label("hashset")
			return withHashEnv(c, r, nil,
				func(e hashEnv[int]) error { return runHashset(c, r, e) },
				func(e hashEnv[string]) error { return runHashset(c, r, e) },
				func(e hashEnv[skey]) error { return runHashset(c, r, e) })
		},
	})
}
