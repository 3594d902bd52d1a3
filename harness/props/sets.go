package props

import (
	"fmt"
	"sort"
	"strconv"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"
	. "verif/harness/pbt"
)

// slot is one set of the pool: a set.Set, or a bare mapset or hashset that can
// only be an operand.
type slot[K comparable] struct {
	of    set.SetOf[K]
	full  *set.Set[K]
	model map[K]bool
	what  string
}

const nslots = 6

// listSet is an implementation of set.SetOf that the library does not know.
type listSet[K comparable] struct {
	keys []K
	has  map[K]bool
}

func (l *listSet[K]) Put(k K) {
	if !l.has[k] {
		l.has[k] = true
		l.keys = append(l.keys, k)
	}
}

func (l *listSet[K]) Remove(k K) {
	if l.has[k] {
		delete(l.has, k)
		for i := range l.keys {
			if l.keys[i] == k {
				l.keys = append(append([]K(nil), l.keys[:i]...), l.keys[i+1:]...)
				break
			}
		}
	}
}

func (l *listSet[K]) Has(k K) bool { return l.has[k] }
func (l *listSet[K]) Clear()       { l.keys, l.has = nil, map[K]bool{} }
func (l *listSet[K]) Size() int    { return len(l.keys) }

// Each visits, newest first, what was in the set when it was called.
func (l *listSet[K]) Each(fn func(K)) {
	ks := append([]K(nil), l.keys...)
	for i := len(ks) - 1; i >= 0; i-- {
		fn(ks[i])
	}
}

func newListSet[K comparable]() set.SetOf[K] { return &listSet[K]{has: map[K]bool{}} }

func cloneSet[K comparable](m map[K]bool) map[K]bool {
	n := make(map[K]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

func diffSet[K comparable](s set.SetOf[K], model map[K]bool, univ []K) string {
	if s.Size() != len(model) {
		return errStr("Size() = %d, want %d", s.Size(), len(model))
	}
	seen := map[K]bool{}
	bad := ""
	s.Each(func(k K) {
		if seen[k] {
			bad = errStr("Each visits %v twice", k)
		} else if !model[k] {
			bad = errStr("Each visits %v, which should not be in the set", k)
		}
		seen[k] = true
	})
	if bad != "" {
		return bad
	}
	if len(seen) != len(model) {
		return errStr("Each visits %d elements, want %d", len(seen), len(model))
	}
	for _, k := range univ {
		if s.Has(k) != model[k] {
			return errStr("Has(%v) = %v, want %v", k, s.Has(k), model[k])
		}
	}
	return ""
}

func runSets[K comparable](c Case, r *Rec, mk func(int64) K, hash g.HashFn[K], eqs g.EqualsFn[K]) error {
	nuniv := 24
	if n := int(c.Cfg["universe"]); n > 0 {
		nuniv = n
	}
	univ := make([]K, nuniv)
	for i := range univ {
		univ[i] = mk(int64(i - 2))
	}
	elem := func(a int64) K { return univ[Mod(a, nuniv)] }
	eq, h := stepped(r, eqs, hash)
	hcap := capacities[Mod(c.Cfg["cap"], len(capacities))]
	// the slots of a set.Set whose bit is set have an implementation of our own
	foreign := c.Cfg["foreign"]
	if nuniv > 10_000 {
		foreign = 0 // (it removes in linear time)
	}
	newFull := func(slot int, hs bool, in ...K) *set.Set[K] {
		var s set.Set[K]
		switch {
		case foreign>>slot&1 == 1:
			s = set.NewSet(newListSet[K], in...)
			r.Label("foreign-set")
		case hs:
			s = set.NewHashset(hcap, eq, h, in...)
		default:
			s = set.NewMapset(in...)
		}
		return &s
	}
	pool := make([]*slot[K], nslots)
	kinds := c.Cfg["kinds"]
	for i := range pool {
		var in []K
		m := map[K]bool{}
		bits := Mix(c.Cfg["init"]+int64(i)*31+int64(Mod(c.Cfg["init"], 1000))) % (1 << 24)
		switch Mod(kinds>>(3*i), 4) { // thin some of them out
		case 0:
			bits &= Mix(bits)
		case 1:
			bits &= Mix(bits) & Mix(bits+1)
		case 2:
			bits = 0
		}
		if c.Cfg["init"] == 0 {
			bits = 0
		}
		for j, k := range univ {
			if bits>>(j%24)&1 == 1 {
				in = append(in, k, k)
				m[k] = true
			}
		}
		hs := kinds>>(3*i+2)&1 == 1
		sl := &slot[K]{model: m, what: fmt.Sprintf("#%d", i)}
		switch {
		case i >= nslots-2 && foreign>>i&1 == 1:
			sl.of = newListSet[K]()
			for _, k := range in {
				sl.of.Put(k)
			}
			r.Label("foreign-operand")
		case i >= nslots-2 && hs:
			x := hashset.New(hcap, eq, h)
			for _, k := range in {
				x.Put(k)
			}
			sl.of = x
		case i >= nslots-2:
			sl.of = mapset.Of(in...)
		default:
			sl.full = newFull(i, hs, in...)
			sl.of = *sl.full
		}
		pool[i] = sl
	}
	inSlot := func(a int64) *slot[K] { return pool[Mod(a, nslots)] }
	others := func(b int64) (of []set.SetOf[K], ms []map[K]bool, ix []int) {
		more := int(b >> 16 & 0x3ff)
		for n := Mod(b, 4); n > 0; n-- {
			b >>= 4
			i := Mod(b, nslots)
			of = append(of, pool[i].of)
			ms = append(ms, pool[i].model)
			ix = append(ix, i)
		}
		r.LabelIf(more > 0, "many-operands")
		for n := 0; n < more; n++ {
			i := int(Mix(b+int64(n))) % nslots
			of = append(of, pool[i].of)
			ms = append(ms, pool[i].model)
			ix = append(ix, i)
		}
		return
	}
	checkAll := func(i int, o Op) error {
		for j, sl := range pool {
			r.Budget()
			if d := diffSet(sl.of, sl.model, univ); d != "" {
				return errf(i, o, "set %d: %s", j, d)
			}
		}
		return nil
	}
	if err := checkAll(-1, Op{N: "init"}); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		ri := Mod(o.A, nslots-2)
		rcv := pool[ri]
		of, ms, ix := others(o.B)
		var consts []K
		cm := map[K]bool{}
		for _, b := range []byte(o.S) {
			consts = append(consts, elem(int64(b)))
			cm[elem(int64(b))] = true
		}
		for _, x := range ix {
			r.LabelIf(x == ri, "operand-is-receiver")
		}
		switch o.N {
		case "put":
			s := inSlot(o.A)
			s.of.Put(elem(o.B))
			s.model[elem(o.B)] = true
		case "remove":
			s := inSlot(o.A)
			s.of.Remove(elem(o.B))
			delete(s.model, elem(o.B))
		case "putRange":
			s := inSlot(o.A)
			for j := 0; j < bulk(o.B, 20); j++ {
				s.of.Put(elem(o.C + int64(j)))
				s.model[elem(o.C+int64(j))] = true
			}
		case "clear":
			s := inSlot(o.A)
			s.of.Clear()
			s.model = map[K]bool{}
		case "op": // C: 0-3 new, 4-7 const, 8-10 in place, 11 clone
			want := cloneSet(rcv.model)
			kind := Mod(o.C, 12)
			if kind >= 4 && kind < 8 {
				ms = []map[K]bool{cm}
			}
			names := []string{"Union", "Intersection", "Difference", "SymmetricDifference", "ConstUnion", "ConstIntersection", "ConstDifference", "ConstSymmetricDifference", "InPlaceUnion", "InPlaceIntersection", "InPlaceDifference", "Clone"}
			r.Label(names[kind])
			switch kind {
			case 0, 4, 8:
				for _, m := range ms {
					for k := range m {
						want[k] = true
					}
				}
			case 1, 5, 9:
				for _, m := range ms {
					for k := range want {
						if !m[k] {
							delete(want, k)
						}
					}
				}
			case 2, 6, 10:
				for _, m := range ms {
					for k := range m {
						delete(want, k)
					}
				}
			case 3, 7: // elements of exactly one operand
				count := map[K]int{}
				for k := range rcv.model {
					count[k]++
				}
				for _, m := range ms {
					for k := range m {
						count[k]++
					}
				}
				want = map[K]bool{}
				for k, n := range count {
					if n == 1 {
						want[k] = true
					}
				}
			}
			big := false
			for _, m := range ms {
				big = big || len(m) > 1
			}
			if len(rcv.model) > 1 && big && len(want) > 0 {
				r.NonTrivial()
			}
			s := *rcv.full
			var got set.Set[K]
			switch kind {
			case 0:
				got = s.Union(of...)
			case 1:
				got = s.Intersection(of...)
			case 2:
				got = s.Difference(of...)
			case 3:
				got = s.SymmetricDifference(of...)
			case 4:
				got = s.ConstUnion(consts...)
			case 5:
				got = s.ConstIntersection(consts...)
			case 6:
				got = s.ConstDifference(consts...)
			case 7:
				got = s.ConstSymmetricDifference(consts...)
			case 8:
				got = s.InPlaceUnion(of...)
			case 9:
				got = s.InPlaceIntersection(of...)
			case 10:
				got = s.InPlaceDifference(of...)
			case 11:
				got = s.Clone()
			}
			r.Budget()
			if d := diffSet[K](got, want, univ); d != "" {
				return errf(i, o, "result of %s (receiver %d, operands %v): %s", names[kind], ri, ix, d)
			}
			if kind >= 8 && kind <= 10 {
				rcv.model = want
			} else {
				// the result becomes a member: later steps change it and
				// expect the operands to stay as they are, and vice versa
				if err := checkAll(i, o); err != nil {
					return err
				}
				d := pool[Mod(o.C>>8, nslots-2)]
				d.full, d.of, d.model = &got, got, want
			}
		case "rel":
			other := inSlot(o.B)
			s := *rcv.full
			sub, sup, common := true, true, 0
			for k := range rcv.model {
				if other.model[k] {
					common++
				} else {
					sub = false
				}
			}
			for k := range other.model {
				if !rcv.model[k] {
					sup = false
				}
			}
			eqv := sub && sup
			r.LabelIf(eqv, "equal")
			r.LabelIf(sub && !sup, "proper-subset")
			r.LabelIf(sup && !sub, "proper-superset")
			r.LabelIf(common == 0, "disjoint")
			if len(rcv.model) > 0 && len(other.model) > 0 {
				r.LabelIf(!sub && !sup, "incomparable")
				r.NonTrivial()
			}
			for _, q := range []struct {
				name string
				got  bool
				want bool
			}{
				{"IsDisjoint", s.IsDisjoint(other.of), common == 0},
				{"IsSubset", s.IsSubset(other.of), sub},
				{"IsSuperset", s.IsSuperset(other.of), sup},
				{"Equal", s.Equal(other.of), eqv},
				{"IsProperSubset", s.IsProperSubset(other.of), sub && !sup},
				{"IsProperSuperset", s.IsProperSuperset(other.of), sup && !sub},
			} {
				if q.got != q.want {
					return errf(i, o, "%s of %v and %v = %v, want %v", q.name, sortedElems(rcv.model), sortedElems(other.model), q.got, q.want)
				}
			}
		case "views":
			s := *rcv.full
			if d := viewsDiff(s, rcv.model); d != "" {
				return errf(i, o, "%s", d)
			}
			// what the views return belongs to the caller
			ks := s.Keys()
			for j := range ks {
				ks[j] = elem(int64(j) + o.B)
			}
			m := s.Map()
			m[elem(o.B)] = struct{}{}
			for k := range m {
				delete(m, k)
				break
			}
			r.LabelIf(len(rcv.model) > 3, "views-big")
		case "make": // derive a related set so that relations are often interesting
			d := pool[Mod(o.C, nslots-2)]
			m := cloneSet(rcv.model)
			switch Mod(o.B, 3) {
			case 1:
				m[elem(o.B>>2)] = true
			case 2:
				delete(m, elem(o.B>>2))
			}
			var in []K
			for _, k := range univ {
				if m[k] {
					in = append(in, k)
				}
			}
			d.full = newFull(Mod(o.C, nslots-2), o.C>>4&1 == 1, in...)
			d.of, d.model = *d.full, m
		}
		if err := checkAll(i, o); err != nil {
			return err
		}
	}
	return nil
}

func sortedElems[K comparable](m map[K]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, fmt.Sprintf("%v", k))
	}
	sort.Strings(out)
	return out
}

func viewsDiff[K comparable](s set.Set[K], model map[K]bool) string {
	ks := s.Keys()
	seen := map[K]bool{}
	for _, k := range ks {
		if seen[k] || !model[k] {
			return errStr("Keys() = %v for set %v", ks, sortedElems(model))
		}
		seen[k] = true
	}
	if len(seen) != len(model) {
		return errStr("Keys() = %v for set %v", ks, sortedElems(model))
	}
	m := s.Map()
	if len(m) != len(model) {
		return errStr("Map() = %v for set %v", m, sortedElems(model))
	}
	for k := range m {
		if !model[k] {
			return errStr("Map() = %v for set %v", m, sortedElems(model))
		}
	}
	if got, want := s.String(), fmt.Sprintf("%v", sortedElems(model)); got != want {
		return errStr("String() = %q, want %q", got, want)
	}
	return ""
}

func runSetsKey(c Case, r *Rec) error {
	mode := c.Cfg["hash"]
	switch Mod(c.Cfg["key"], 4) {
	case 3: // different elements that print alike, and nil
		canon := func(k any) int64 {
			switch k := k.(type) {
			case int:
				return int64(k) * 4
			case string:
				return int64(len(k))*4 + 1
			case int64:
				return k*4 + 2
			case float64:
				return int64(k)*4 + 3
			}
			return -1
		}
		return runSets(c, r, anyKey, hashFor(mode, canon, func(k any) uint64 { return g.HashInt64(canon(k)) }), func(a, b any) bool { return a == b })
	case 0:
		return runSets(c, r, intKey, hashFor(mode, func(k int) int64 { return int64(k) }, g.HashInt), g.Equals[int])
	case 1:
		mk := func(a int64) string { return orEmpty(a * 37) }
		return runSets(c, r, mk, hashFor(mode, func(k string) int64 { return int64(len(k)) }, g.HashString), g.Equals[string])
	default:
		return runSets(c, r, structKey, hashFor(mode, func(k skey) int64 { return int64(k.a) }, func(k skey) uint64 { return g.HashInt32(k.a) }), g.Equals[skey])
	}
}

func anyKey(a int64) any {
	n := a >> 2
	switch a & 3 {
	case 0:
		if a == 0 {
			return nil
		}
		return int(n)
	case 1:
		return strconv.FormatInt(n, 10)
	case 2:
		return n
	}
	return float64(n)
}

func genSetCfg(g *G) map[string]int64 {
	cfg := genHashCfg(g)
	cfg["kinds"] = g.Uniform(1 << 18)
	cfg["init"] = g.Uniform(1 << 20)
	if g.Chance(4) {
		cfg["foreign"] = g.Uniform(1 << nslots)
	}
	return cfg
}

func init() {
	large := func(exactOps [][]Op, ops ...Op) func() []Case {
		return func() []Case {
			var out []Case
			for i := int64(0); i < 6; i++ {
				c := Case{Cfg: map[string]int64{"universe": 3000, "key": i % 4, "cap": i, "kinds": 0x2a5c3 * (i + 1), "init": 1 + i}}
				for j := int64(0); j < 3; j++ {
					for _, o := range ops {
						o.A, o.B = o.A+j, o.B+i+j<<4
						c.Ops = append(c.Ops, o)
					}
				}
				out = append(out, c)
			}
			// more elements than 16 bits can count
			c := Case{Cfg: map[string]int64{"universe": 160_000, "kinds": 7 + 3<<3 + 2<<6 + 5<<9 + 4<<15, "init": 1}, Ops: ops}
			out = append(out, c)
			// sets of exactly so many elements, none of them in common, some
			// or all
			for j, n := range []int64{8, 16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4096} {
				i := int64(j)
				c := Case{Cfg: map[string]int64{"universe": 3*n + 20, "key": i % 3, "kinds": 0x31b2e ^ i<<2, "init": 0}}
				for at, ops := range exactOps {
					for w := int64(0); w < 6; w++ {
						from := w * n * int64((at+at/12)%3) / 5
						c.Ops = append(c.Ops, Op{N: "clear", A: w}, Op{N: "putRange", A: w, B: exactly(n), C: from})
					}
					c.Ops = append(c.Ops, ops...)
				}
				out = append(out, c)
			}
			return out
		}
	}
	allOps := []Op{}
	for k := int64(0); k < 12; k++ {
		allOps = append(allOps, Op{N: "op", A: k, B: 2 | 0x3540, C: k + 12*(k<<6), S: Bytes("\x01\x50\xf0\x90")}, Op{N: "put", A: k, B: 2999 - k}, Op{N: "remove", A: k, B: 100 * k})
	}
	exactOps := [][]Op{}
	for _, of := range []int64{1 | 1<<4, 1 | 4<<4, 2 | 29<<4} { // #1, #4, #5 and #1
		for k := int64(0); k < 12; k++ {
			exactOps = append(exactOps, []Op{{N: "op", A: 0, B: of, C: k + 12*(3<<6), S: Bytes("\x01\x05\x07")}})
		}
	}
	exactRel := [][]Op{}
	for k := int64(0); k < 72; k++ { // every pair, and with one element more or less
		exactRel = append(exactRel, []Op{{N: "rel", A: k % 4, B: k / 4}})
	}
	for k := int64(0); k < 12; k++ {
		w, d := k%4, (k+1)%4
		exactRel = append(exactRel, []Op{{N: "views", A: w}, {N: "make", A: w, B: k, C: d + k%2<<4}, {N: "rel", A: w, B: d}, {N: "rel", A: d, B: w}})
	}
	argsOp := func(g *G) Op {
		o := Op{A: g.Uniform(4), B: g.Uniform(1 << 16), C: g.Uniform(12) | g.Uniform(4)<<8, S: g.Bytes(6, "")}
		switch g.Uniform(60) {
		case 0:
			o.B |= g.Pick(250, 253, 256, 300, 600) << 16
			o.S = g.Bytes(300, "")
		case 1, 2, 3, 4, 5, 6:
			o.B |= (1 + g.Uniform(30)) << 16
			o.S = g.Bytes(30, "")
		}
		return o
	}
	// o.C is both the operation (low bits) and the destination (high bits)
	argsPut := func(g *G) Op { return Op{A: g.Uniform(6), B: g.Uniform(24)} }
	base := []Spec{
		{"op", 12, func(g *G) Op { o := argsOp(g); k := g.Uniform(12); o.C = k + 12*(g.Uniform(4*64)<<6); return o }},
		{"put", 4, argsPut}, {"remove", 3, argsPut}, {"clear", 1, argsPut},
		{"make", 1, argsOp},
	}
	Register(&Prop{
		ID: "C04", Quick: 63000, Thorough: 3000000, Fixed: large(exactOps, allOps...),
		Rule: "random histories over a pool of six sets (set.Set over mapset or hashset with good to constant hashes, bare mapset and hashset operands, an implementation of SetOf outside the library): Union, Intersection, Difference, SymmetricDifference, their Const and InPlace forms with 0-3, sometimes up to 600 operands (the receiver itself included) and Clone, interleaved with Put/Remove/Clear; every member compared with its own model after every step; non-trivial: a set operation with receiver and an operand of 2+ elements gave a non-empty result",
		Gen:  func(g *G) Case { return Case{Cfg: genSetCfg(g), Ops: g.History(base, 3)} },
		Run:  runSetsKey,
	})
	rel := []Spec{
		{"rel", 10, func(g *G) Op { return Op{A: g.Uniform(4), B: g.Uniform(6)} }},
		{"views", 4, func(g *G) Op { return Op{A: g.Uniform(4), B: g.Uniform(24)} }},
		{"make", 6, func(g *G) Op { return Op{A: g.Uniform(4), B: g.Uniform(100), C: g.Uniform(64)} }},
		{"put", 4, argsPut}, {"remove", 4, argsPut}, {"clear", 1, argsPut},
	}
	Register(&Prop{
		ID: "C05", Quick: 94500, Thorough: 3000000,
		Fixed: large(exactRel, Op{N: "rel", A: 0, B: 1}, Op{N: "rel", A: 1, B: 0}, Op{N: "make", A: 1, B: 0, C: 0}, Op{N: "rel", A: 0, B: 1}, Op{N: "make", A: 1, B: 2 + 4*2999, C: 18}, Op{N: "rel", A: 1, B: 2}, Op{N: "rel", A: 2, B: 1}, Op{N: "rel", A: 2, B: 5}, Op{N: "views", A: 1, B: 7}),
		Rule:  "random histories over the same pool; every pair relation (IsDisjoint, IsSubset, IsSuperset, proper forms, Equal) and the views Keys, Map, String compared with the definition on models, between sets of equal and different implementations, related sets derived by one-element changes; non-trivial: a relation was evaluated between two non-empty sets",
		Gen:   func(g *G) Case { return Case{Cfg: genSetCfg(g), Ops: g.History(rel, 3)} },
		Run:   runSetsKey,
	})
}
