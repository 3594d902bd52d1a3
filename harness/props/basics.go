package props

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
	"golang.org/x/exp/constraints"
	. "verif/harness/pbt"
)

// pt is ordered by a only; b tells elements of equal order apart.
type pt struct{ a, b int64 }

func ltPt(x, y pt) bool { return x.a < y.a }

// runOrderedT checks the functions for ordered types on one type. ref compares
// through an independent route (the op arguments), so that a wrong comparison
// of the type itself shows too.
func orderedT[T constraints.Ordered](what string, a, b, c T) error {
	lt := func(x, y T) bool { return x < y }
	cmp := 0
	if a < b {
		cmp = -1
	} else if b < a {
		cmp = 1
	}
	if got := g.Compare(a, b, g.Less[T]); got != cmp {
		return fmt.Errorf("%s: Compare(%v,%v) = %d, want %d", what, a, b, got, cmp)
	}
	if g.Less(a, b) != lt(a, b) {
		return fmt.Errorf("%s: Less(%v,%v) = %v", what, a, b, g.Less(a, b))
	}
	if g.Equals(a, b) != (a == b) {
		return fmt.Errorf("%s: Equals(%v,%v) = %v", what, a, b, g.Equals(a, b))
	}
	hi, lo := a, b
	if a < b {
		hi, lo = b, a
	}
	if got := g.Max(a, b); got != hi {
		return fmt.Errorf("%s: Max(%v,%v) = %v", what, a, b, got)
	}
	if got := g.Min(a, b); got != lo {
		return fmt.Errorf("%s: Min(%v,%v) = %v", what, a, b, got)
	}
	if got := g.MaxFunc(a, b, lt); got != hi {
		return fmt.Errorf("%s: MaxFunc(%v,%v) = %v", what, a, b, got)
	}
	if got := g.MinFunc(a, b, lt); got != lo {
		return fmt.Errorf("%s: MinFunc(%v,%v) = %v", what, a, b, got)
	}
	// lo <= hi are a and b; clamp c
	want := c
	if c < lo {
		want = lo
	} else if hi < c {
		want = hi
	}
	if got := g.Clamp(c, lo, hi); got != want {
		return fmt.Errorf("%s: Clamp(%v,%v,%v) = %v, want %v", what, c, lo, hi, got, want)
	}
	if got := g.ClampFunc(c, lo, hi, lt); got != want {
		return fmt.Errorf("%s: ClampFunc(%v,%v,%v) = %v, want %v", what, c, lo, hi, got, want)
	}
	return nil
}

func runOrdered(c Case, r *Rec) error {
	for i, o := range c.Ops {
		a, b, x := o.A, o.B, o.C
		r.LabelIf(a == b, "equal")
		lo, hi := min(a, b), max(a, b)
		r.LabelIf(x < lo, "below")
		r.LabelIf(x > hi, "above")
		r.LabelIf(x >= lo && x <= hi, "inside")
		r.LabelIf(a > b && a-b < 0, "difference-overflows")
		if a != b {
			r.NonTrivial()
		}
		f := func(v int64) float64 {
			switch Mod(v, 16) {
			case 0:
				return math.Inf(1)
			case 1:
				return math.Inf(-1)
			case 2:
				return 0
			case 3:
				return math.SmallestNonzeroFloat64 * float64(Mod(v>>4, 5))
			}
			return float64(v) / 3
		}
		s := func(v int64) string { return string(o.S[:Mod(v, len(o.S)+1)]) + strKey(int64(Mod(v, 5))) }
		for _, err := range []error{
			orderedT("int", int(a), int(b), int(x)),
			orderedT("int64", a, b, x),
			orderedT("uint64", uint64(a), uint64(b), uint64(x)),
			orderedT("int8", int8(a), int8(b), int8(x)),
			orderedT("uint16", uint16(a), uint16(b), uint16(x)),
			orderedT("float64", f(a), f(b), f(x)),
			orderedT("float32", float32(f(a)), float32(f(b)), float32(f(x))),
			orderedT("string", s(a), s(b), s(x)),
		} {
			if err != nil {
				return errf(i, o, "%v", err)
			}
		}
		// a weak order with distinguishable ties
		pa, pb, px := pt{int64(Mod(a, 7)), a}, pt{int64(Mod(b, 7)), b}, pt{int64(Mod(x, 7)), x}
		want := 0
		if pa.a < pb.a {
			want = -1
		} else if pb.a < pa.a {
			want = 1
		}
		if got := g.Compare(pa, pb, ltPt); got != want {
			return errf(i, o, "Compare(%v,%v) by first field = %d, want %d", pa, pb, got, want)
		}
		m := g.MaxFunc(pa, pb, ltPt)
		if m != pa && m != pb || ltPt(m, pa) || ltPt(m, pb) {
			return errf(i, o, "MaxFunc(%v,%v) = %v", pa, pb, m)
		}
		m = g.MinFunc(pa, pb, ltPt)
		if m != pa && m != pb || ltPt(pa, m) || ltPt(pb, m) {
			return errf(i, o, "MinFunc(%v,%v) = %v", pa, pb, m)
		}
		l, h := pa, pb
		if ltPt(h, l) {
			l, h = h, l
		}
		w := px
		if ltPt(px, l) {
			w = l
		} else if ltPt(h, px) {
			w = h
		}
		r.LabelIf(px.a == l.a && px != l, "clamp-tie")
		if got := g.ClampFunc(px, l, h, ltPt); got != w {
			return errf(i, o, "ClampFunc(%v,%v,%v) = %v, want %v", px, l, h, got, w)
		}
	}
	return nil
}

// runHashes checks determinism, agreement with equality and, for integers,
// injectivity.
func runHashes(c Case, r *Rec) error {
	if n := c.Cfg["enum"]; n != 0 { // enumerate the small domains completely
		return enumHashes(n)
	}
	ints := map[uint64]int64{}
	u32 := map[uint64]uint32{}
	strs := map[uint64]string{}
	for i, o := range c.Ops {
		if o.N == "long" {
			if err := longHash(o, r); err != nil {
				return errf(i, o, "%v", err)
			}
			continue
		}
		if o.N == "spread" {
			if err := spread(o, r); err != nil {
				return errf(i, o, "%v", err)
			}
			continue
		}
		vals := []int64{o.A}
		if o.N == "run" {
			vals = pattern(o.A, bulk(o.B, 600), o.C)
		}
		for _, a := range vals {
			h := g.HashInt64(a)
			for _, q := range []struct {
				name string
				x, y uint64
			}{
				{"HashInt64", h, g.HashInt64(a)},
				{"HashUint64", g.HashUint64(uint64(a)), g.HashUint64(uint64(a))},
				{"HashInt", g.HashInt(int(a)), g.HashInt(int(a))},
				{"HashUint", g.HashUint(uint(a)), g.HashUint(uint(a))},
				{"HashInt32", g.HashInt32(int32(a)), g.HashInt32(int32(a))},
				{"HashUint32", g.HashUint32(uint32(a)), g.HashUint32(uint32(a))},
			} {
				if q.x != q.y {
					return errf(i, o, "%s(%d) is not deterministic", q.name, a)
				}
			}
			if b, ok := ints[h]; ok && b != a {
				return errf(i, o, "HashInt64(%d) == HashInt64(%d)", a, b)
			}
			ints[h] = a
			h32 := g.HashUint32(uint32(a))
			if b, ok := u32[h32]; ok && b != uint32(a) {
				return errf(i, o, "HashUint32(%d) == HashUint32(%d)", uint32(a), b)
			}
			u32[h32] = uint32(a)
			// relatives differ, for every width
			near := []int64{-a, ^a, a ^ 0xff, int64(int32(a)), int64(uint32(a)), int64(bits.ReverseBytes64(uint64(a))), a<<32 | int64(uint64(a)>>32)}
			for s := uint(0); s < 64; s++ {
				near = append(near, a^1<<s)
			}
			for _, b := range near {
				if a == b {
					continue
				}
				if g.HashUint64(uint64(a)) == g.HashUint64(uint64(b)) || g.HashInt(int(a)) == g.HashInt(int(b)) || g.HashUint(uint(a)) == g.HashUint(uint(b)) || h == g.HashInt64(b) {
					return errf(i, o, "a 64-bit hash of %d and %d is the same", a, b)
				}
				if int32(a) != int32(b) && (g.HashInt32(int32(a)) == g.HashInt32(int32(b)) || g.HashUint32(uint32(a)) == g.HashUint32(uint32(b))) {
					return errf(i, o, "a 32-bit hash of %d and %d is the same", int32(a), int32(b))
				}
			}
		}
		s := string(o.S)
		buf := append(make([]byte, 0, len(s)+8), s...)
		keep := string(buf)
		hs := g.HashString(s)
		if hs != g.HashString(string(buf)) {
			return errf(i, o, "HashString(%q) depends on more than the contents", s)
		}
		hb := g.HashBytes(buf)
		if s == "" && hb != g.HashBytes(nil) {
			return errf(i, o, "the hashes of nil and of an empty slice differ")
		}
		other := append([]byte{}, s...)
		for j := 0; j < 9; j++ { // somewhere else, between other bytes
			in := append(append(bytes.Repeat([]byte{byte(0xa5 + o.A)}, j), s...), byte(o.B), 0xff, byte(j))
			if hb != g.HashBytes(in[j:j+len(s)]) || hs != g.HashString(string(in)[j:j+len(s)]) {
				return errf(i, o, "the hash of %q depends on what is next to it in memory", s)
			}
		}
		if hb != g.HashBytes(other) || hb != g.HashBytes(buf) {
			return errf(i, o, "HashBytes(%q) depends on more than the contents", s)
		}
		if string(buf) != keep {
			return errf(i, o, "HashBytes changed its argument")
		}
		if b, ok := strs[hs]; ok && b != s {
			return errf(i, o, "HashString(%q) == HashString(%q)", s, b)
		}
		strs[hs] = s
		// every byte and the length matter
		variants := map[uint64]string{}
		for _, v := range mutations(s) {
			h, h2 := g.HashString(v), g.HashBytes([]byte(v))
			if h == hs || h2 == hb {
				return errf(i, o, "%q and %q hash to the same value", s, v)
			}
			if w, ok := variants[h]; ok && w != v {
				return errf(i, o, "HashString(%q) == HashString(%q)", v, w)
			}
			variants[h] = v
		}
		r.LabelIf(len(s) > 8, "long-string")
		r.LabelIf(len(s) == 0, "empty-string")
		if len(s) > 1 {
			r.NonTrivial()
		}
	}
	return nil
}

// spread hashes 1024 evenly spaced integers and looks at how the low bits of
// the hashes are distributed: the hash tables take their index from them. 1024
// random balls fall into about 647 of 1024 bins (deviation 10) with at most 6
// or 7 in one.
func spread(o Op, r *Rec) error {
	const n = 1024
	step := uint64(o.B)
	if s := Mod(o.C, 64); o.C%2 == 0 {
		step = 1 << s
	}
	if step == 0 {
		step = 1
	}
	for _, h := range []struct {
		name string
		bits int
		f    func(u uint64) uint64
	}{
		{"HashUint64", 64, g.HashUint64},
		{"HashInt64", 64, func(u uint64) uint64 { return g.HashInt64(int64(u)) }},
		{"HashInt", 64, func(u uint64) uint64 { return g.HashInt(int(u)) }},
		{"HashUint", 64, func(u uint64) uint64 { return g.HashUint(uint(u)) }},
		{"HashUint32", 32, func(u uint64) uint64 { return g.HashUint32(uint32(u)) }},
		{"HashInt32", 32, func(u uint64) uint64 { return g.HashInt32(int32(u)) }},
		{"HashUint16", 16, func(u uint64) uint64 { return g.HashUint16(uint16(u)) }},
		{"HashInt16", 16, func(u uint64) uint64 { return g.HashInt16(int16(u)) }},
	} {
		seen := map[uint64]bool{}
		bins := map[uint64]int{}
		worst := 0
		for j := uint64(0); j < n; j++ {
			u := uint64(o.A) + j*step
			if h.bits < 64 {
				u &= 1<<h.bits - 1
			}
			if seen[u] {
				break // the progression wrapped around
			}
			seen[u] = true
			b := h.f(u) % n
			bins[b]++
			worst = max(worst, bins[b])
		}
		if len(seen) < n {
			continue
		}
		r.Label("spread-judged")
		if worst > 20 || len(bins) < 500 {
			return fmt.Errorf("%s of %d integers from %d in steps of %d: the low 10 bits take %d values, one of them %d times", h.name, n, o.A, step, len(bins), worst)
		}
	}
	r.NonTrivial()
	return nil
}

// longHash edits a long text in a few places.
func longHash(o Op, r *Rec) error {
	n := Mod(o.B, 1<<18) + 1
	base := make([]byte, n)
	if o.A != 0 { // else all bytes are the same
		for j := range base {
			base[j] = byte(uint64(Mix(o.A+int64(j))) >> 20)
		}
	}
	hashes := map[uint64]string{}
	judge := func(what string, b []byte) error {
		hs, hb := g.HashString(string(b)), g.HashBytes(b)
		if x, ok := hashes[hs]; ok {
			return fmt.Errorf("HashString is the same for a text of %d bytes %s and %s", n, x, what)
		}
		hashes[hs] = what
		if x, ok := hashes[^hb]; ok && hs != hb && ^hb != hs {
			return fmt.Errorf("HashBytes is the same for a text of %d bytes %s and %s", n, x, what)
		}
		if hs != hb { // two functions: two sets of hashes
			hashes[^hb] = what
		}
		return nil
	}
	if err := judge("itself", base); err != nil {
		return err
	}
	pos := []int{0, 1, n - 1, n - 2, n / 2, n / 3, n / 4, n - n/4}
	for p := 1; p < n; p *= 2 {
		pos = append(pos, p-1, p, p+1, n-p)
	}
	for j := int64(0); j < 8; j++ {
		pos = append(pos, Mod(Mix(o.C+j), n))
	}
	seen := map[int]bool{}
	for _, p := range pos {
		if p < 0 || p >= n || seen[p] {
			continue
		}
		seen[p] = true
		base[p] ^= 1
		if err := judge(fmt.Sprintf("with byte %d changed", p), base); err != nil {
			return err
		}
		base[p] ^= 1
	}
	if err := judge("with a byte more", append(base[:n:n], 0)); err != nil {
		return err
	}
	if err := judge("with a byte more in front", append([]byte{1}, base...)); err != nil {
		return err
	}
	if err := judge("with a byte less", base[:n-1]); err != nil {
		return err
	}
	if o.A != 0 { // without a byte in the middle
		if err := judge("with a byte less in the middle", append(append([]byte{}, base[:n/2]...), base[n/2+1:]...)); n > 2 && base[n/2] != base[n-1] && err != nil {
			return err
		}
	}
	r.Label("very-long-string")
	r.NonTrivial()
	return nil
}

func mutations(s string) []string {
	out := []string{s + "\x00", s + "a", "\x00" + s, s + s + "x"}
	for j := 0; j < len(s); j++ {
		b := []byte(s)
		b[j] ^= 1
		out = append(out, string(b))
		b[j] ^= 0x81
		out = append(out, string(b))
		if len(s) > 1 {
			out = append(out, s[:j]+s[j+1:]+"\x01\x02", s[:j]+s[j+1:], s[:j]+"\x00"+s[j:])
			b = []byte(s)
			k := (j + 1 + len(s)/2) % len(s)
			b[j], b[k] = b[k], b[j]
			out = append(out, string(b))
			b = []byte(s)
			k = (j + 1) % len(s)
			b[j], b[k] = b[k], b[j]
			out = append(out, string(b))
		}
	}
	uniq := out[:0]
	for _, v := range out {
		if v != s {
			uniq = append(uniq, v)
		}
	}
	return uniq
}

func enumHashes(n int64) error {
	type entry struct {
		name string
		size int
		f    func(i int) (uint64, uint64) // twice, for determinism
	}
	e := []entry{
		{"HashUint8", 1 << 8, func(i int) (uint64, uint64) { return g.HashUint8(uint8(i)), g.HashUint8(uint8(i)) }},
		{"HashInt8", 1 << 8, func(i int) (uint64, uint64) { return g.HashInt8(int8(i)), g.HashInt8(int8(i)) }},
		{"HashUint16", 1 << 16, func(i int) (uint64, uint64) { return g.HashUint16(uint16(i)), g.HashUint16(uint16(i)) }},
		{"HashInt16", 1 << 16, func(i int) (uint64, uint64) { return g.HashInt16(int16(i)), g.HashInt16(int16(i)) }},
	}[Mod(n-1, 4)]
	seen := make(map[uint64]int, e.size)
	for i := 0; i < e.size; i++ {
		h, h2 := e.f(i)
		if h != h2 {
			return fmt.Errorf("%s(%d) is not deterministic", e.name, i)
		}
		if j, ok := seen[h]; ok {
			return fmt.Errorf("%s maps the values numbered %d and %d to the same hash", e.name, i, j)
		}
		seen[h] = i
	}
	return nil
}

// runProbe bounds the equality calls of a hash map with a well-mixing hash.
func runProbe(c Case, r *Rec) error {
	eqs := int64(0)
	eq := func(a, b int64) bool { r.Step(); eqs++; return a == b }
	hash := func(a int64) uint64 { r.Step(); return uint64(Mix(a)) * 0x9E3779B97F4A7C15 >> 3 }
	if c.Cfg["hash"] == 1 {
		hash = func(a int64) uint64 { r.Step(); return g.HashInt64(a) }
	}
	m := hashmap.New[int64, int64](capacities[Mod(c.Cfg["cap"], len(capacities))], eq, hash)
	present := map[int64]bool{}
	ops, peak := int64(0), 0
	for i, o := range c.Ops {
		for j, k := range pattern(o.A, bulk(o.B, 5000), o.C) {
			r.Budget()
			if len(present) > 40000 && o.B < bulkExact {
				break
			}
			switch o.N {
			case "putRange":
				m.Put(k, int64(j))
				present[k] = true
			case "removeRange":
				m.Remove(k)
				delete(present, k)
			case "getRange":
				m.Get(k)
			}
			ops++
			if n := r.Steps(); n > int64(200_000) && n > int64(20*len(present)) {
				return errf(i, o, "one operation on a map of %d keys made %d callbacks", len(present), n)
			}
		}
		peak = max(peak, len(present))
		if lim := 12*ops + 2000; eqs > lim {
			return errf(i, o, "%d operations on a map of up to %d keys made %d equality calls, limit %d", ops, peak, eqs, lim)
		}
	}
	r.LabelIf(peak > 5000, "size>5000")
	if peak > 200 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Register(&Prop{
		ID: "C31", Quick: 216000, Thorough: 3000000,
		Rule: "random triples of int, int64, uint64, int8, uint16, float32, float64 (infinities and subnormals included, no NaN) and strings, boundary values over-represented, and structs ordered by one field so that ties are visible; Compare, Less, Equals, Max, Min, Clamp and the Func forms against their definitions; non-trivial: the two bounds differ",
		Gen: func(g *G) Case {
			n := 1 + g.Uniform(12)
			var c Case
			for ; n > 0; n-- {
				v := func() int64 {
					switch g.Uniform(4) {
					case 0:
						return g.Any()
					case 1:
						return g.Pick(math.MaxInt64, math.MinInt64, 0, -1, 1, math.MaxInt64-1, 1<<62, -1<<62, 127, -128, 128, 65535)
					}
					return g.Uniform(40) - 20
				}
				c.Ops = append(c.Ops, Op{N: "triple", A: v(), B: v(), C: v(), S: g.Bytes(5, "ab\x00\xff")})
			}
			return c
		},
		Run: runOrdered,
	})
	Register(&Prop{
		ID: "C32", Quick: 18000, Thorough: 1130000,
		Rule: "complete enumeration of the 8- and 16-bit hash functions (four enumerated cases), and random integers, integer runs and byte strings (of up to 200000 bytes) for the others: same value same hash, distinct integers never collide, neighbours in each bit, negatives and integers with swapped halves or bytes hash differently, and so do edited strings, arguments unchanged, the low 10 bits of 1024 evenly spaced integers spread (any start, any step or power of two) with at least 500 distinct values and none more than 20 times; non-trivial: a progression was judged or a string of two or more bytes was hashed with its mutations",
		Fixed: func() []Case {
			return []Case{{Ops: []Op{{N: "long", A: 1, B: 10_000}, {N: "long", A: 0, B: 100_000}, {N: "long", A: 2, B: 200_000}, {N: "long", A: 3, B: 65_535}, {N: "long", A: 0, B: 4_095}}}, {Cfg: map[string]int64{"enum": 1}}, {Cfg: map[string]int64{"enum": 2}}, {Cfg: map[string]int64{"enum": 3}}, {Cfg: map[string]int64{"enum": 4}}}
		},
		Gen: func(g *G) Case {
			return Case{Ops: g.HistoryN([]Spec{
				{"value", 6, func(g *G) Op { return Op{A: g.Any(), S: g.Bytes(24, "")} }},
				{"value", 3, func(g *G) Op { return Op{A: g.Uniform(1000) - 500, S: g.Bytes(12, "ab")} }},
				{"run", 1, func(g *G) Op { return Op{A: g.Any(), B: g.Uniform(600), C: g.Uniform(5), S: g.Bytes(80, "")} }},
				{"long", 1, func(g *G) Op {
					n := g.Pick(g.Uniform(300), g.Uniform(2000), 1<<(6+g.Uniform(8))-1)
					if g.Chance(50) {
						n = g.Uniform(1 << 18)
					}
					return Op{A: g.Pick(0, g.Any()), B: n, C: g.Any()}
				}},
				{"spread", 1, func(g *G) Op {
					return Op{A: g.Pick(0, g.Uniform(1000), g.Any()), B: g.Pick(g.Uniform(1000), g.Any()), C: g.Uniform(128)}
				}},
			}, 1+g.Uniform(12))}
		},
		Run:        runHashes,
		Assumption: []string{"for strings and byte slices a 64-bit hash collides by construction somewhere; distinct hashes are required only on the strings generated, where a chance collision has probability below 2^-40 for the whole run"},
	})
	Register(&Prop{
		ID: "C34", Quick: 10800, Thorough: 740000,
		Rule: "bulk Put/Get/Remove histories (five key orders, up to 40000 keys, initial capacities 0-1000) on hashmap with a well-mixing hash (the package's own or another), counting equality calls: at most 12 per operation on average; non-trivial: the map held more than 200 keys",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"cap": g.Uniform(13), "hash": g.Uniform(2)}, Ops: g.HistoryN([]Spec{{"putRange", 4, argsBulk(5000)}, {"removeRange", 3, argsBulk(5000)}, {"getRange", 3, argsBulk(5000)}}, 1+g.Uniform(12))}
		},
		Fixed: func() []Case {
			var out []Case
			for i := int64(0); i < 5; i++ {
				out = append(out, Case{Cfg: map[string]int64{"cap": i * 3, "hash": i % 2}, Ops: []Op{
					{N: "putRange", A: 1, B: exactly(120_000), C: i}, {N: "getRange", A: 50, B: exactly(120_000), C: i},
					{N: "removeRange", A: 1, B: exactly(110_000), C: i}, {N: "getRange", A: 1, B: exactly(120_000), C: i}}})
			}
			return out
		},
		Run: runProbe,
	})
}
