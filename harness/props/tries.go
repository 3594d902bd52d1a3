package props

import (
	stdheap "container/heap"
	"math/bits"
	"sort"
	"strings"

	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/trie"
	. "verif/harness/pbt"
)

func argsStr(g *G) Op {
	ab := "ab"
	switch g.Uniform(6) {
	case 0:
		ab = ""
	case 1:
		ab = "\x00\xff\x7f\x80"
	case 2:
		ab = "abcdefgh"
	case 3:
		ab = "azmb\x00"
	}
	max := 6
	if g.Chance(8) {
		max = 40
	} else if g.Chance(40) {
		max = 300
	}
	return Op{A: g.Uniform(1 << 20), B: g.Uniform(1<<16) * min(g.Uniform(6), 1), S: g.Bytes(max, ab)}
}

func sortedStrings(m map[string]int64, keep func(string) bool) []string {
	out := []string{}
	for k := range m {
		if keep == nil || keep(k) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runTrie checks the dictionary (C11) or the prefix queries (C12).
func runTrie(c Case, r *Rec, prefixes bool) error {
	t := trie.New[int64]()
	model := map[string]int64{}
	var used []string
	seen := map[string]bool{}
	cad := newCadence(c)
	var earlier results[string]
	// key of an operation: its own string, or a relative of an earlier key
	keyOf := func(o Op) string {
		k := string(o.S)
		if len(used) == 0 {
			return k
		}
		old := used[Mod(o.A>>3, len(used))]
		switch Mod(o.A, 8) {
		case 0, 1, 2:
			return old
		case 3: // a prefix of an earlier key
			return old[:Mod(o.B, len(old)+1)]
		case 4: // an extension
			if len(old) < 60 {
				return old + k
			}
		case 5: // a neighbour of an earlier key
			if len(old) > 0 {
				b := []byte(old)
				b[Mod(o.B, len(b))] += byte(Mod(o.B>>8, 3)) - 1
				return string(b)
			}
		}
		return k
	}
	get := func(i int, o Op, k string) error {
		want, wok := model[k]
		v, ok := t.Get(k)
		if ok != wok || ok && v != want {
			return errf(i, o, "Get(%q) = %s, want %s", k, fmtVal(v, ok), fmtVal(want, wok))
		}
		if got := t.Contains(k); got != wok {
			return errf(i, o, "Contains(%q) = %v, want %v", k, got, wok)
		}
		return nil
	}
	query := func(i int, o Op, p string) error {
		want := sortedStrings(model, func(k string) bool { return strings.HasPrefix(k, p) })
		got := t.KeysWithPrefix(p)
		if !sameStrings(got, want) {
			return errf(i, o, "KeysWithPrefix(%q) = %q, want %q", p, got, want)
		}
		if s := earlier.changed(); s != "" {
			return errf(i, o, "KeysWithPrefix(%q): %s", p, s)
		}
		earlier.add(got)
		best := ""
		for l := len(p); l > 0; l-- {
			if _, ok := model[p[:l]]; ok {
				best = p[:l]
				break
			}
		}
		if got := t.LongestPrefix(p); got != best {
			return errf(i, o, "LongestPrefix(%q) = %q, want %q", p, got, best)
		}
		r.LabelIf(len(want) > 0 && len(want) < len(model), "some-with-prefix")
		r.LabelIf(best != "" && best != p, "proper-longest-prefix")
		return nil
	}
	note := func(k string) {
		if !seen[k] {
			seen[k] = true
			used = append(used, k)
		}
	}
	for i, o := range c.Ops {
		r.Turn()
		k := keyOf(o)
		switch o.N {
		case "put":
			_, had := model[k]
			r.LabelIf(had, "overwrite")
			r.LabelIf(k == "", "empty-key")
			t.Put(k, o.B)
			if k != "" { // the empty key is never stored
				model[k] = o.B
			}
			note(k)
		case "remove":
			_, had := model[k]
			r.LabelIf(had, "remove-hit")
			r.LabelIf(!had, "remove-miss")
			if had {
				for x := range model {
					if x != k && strings.HasPrefix(x, k) {
						r.Label("remove-inner")
						break
					}
				}
			}
			t.Remove(k)
			delete(model, k)
			note(k)
		case "putRange", "removeRange": // many keys of one to four letters
			for j, a := range pattern(o.A, bulk(o.B, 100), o.C) {
				k := strKey(a)
				if o.N == "putRange" {
					t.Put(k, int64(j))
					model[k] = int64(j)
				} else {
					_, had := model[k]
					r.LabelIf(had, "remove-hit")
					t.Remove(k)
					delete(model, k)
				}
				if j%(1+bulk(o.B, 100)/50) == 0 {
					note(k)
				}
			}
		case "settle": // at exactly so many keys
			n := bulk(o.B, 100)
			for a := o.A; len(model) < n; a++ {
				k := strKey(a)
				t.Put(k, a)
				model[k] = a
				if a%16 == 0 {
					note(k)
				}
			}
			for _, k := range sortedStrings(model, nil)[n:] {
				t.Remove(k)
				delete(model, k)
			}
		case "drain": // remove every key below a prefix
			for _, x := range sortedStrings(model, func(x string) bool { return strings.HasPrefix(x, k) }) {
				t.Remove(x)
				delete(model, x)
				r.Label("remove-hit")
			}
		}
		if s := earlier.changed(); s != "" {
			return errf(i, o, "Keys: %s", s)
		}
		if err := get(i, o, k); err != nil {
			return err
		}
		if t.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", t.Size(), len(model))
		}
		last := i == len(c.Ops)-1
		if prefixes {
			if err := query(i, o, k); err != nil {
				return err
			}
			if err := query(i, o, string(o.S)); err != nil {
				return err
			}
		}
		if cad.due(len(model)*4, last) {
			want, got := sortedStrings(model, nil), t.Keys()
			if !sameStrings(got, want) {
				return errf(i, o, "Keys() = %q, want %q", got, want)
			}
			earlier.add(got)
			for n, x := range used {
				if n > 100 && !last {
					break
				}
				if err := get(i, o, x); err != nil {
					return err
				}
				if prefixes && (last || n < 10) {
					for l := 0; l <= len(x) && l < 8; l++ {
						if err := query(i, o, x[:l]); err != nil {
							return err
						}
					}
					if err := query(i, o, x+"a"); err != nil {
						return err
					}
				}
			}
		}
	}
	if prefixes {
		if r.Has("some-with-prefix", "proper-longest-prefix") {
			r.NonTrivial()
		}
	} else if r.Has("remove-hit") && (r.Has("remove-inner") || r.Has("overwrite")) {
		r.NonTrivial()
	}
	return nil
}

type minInts []int64

func (s minInts) Len() int           { return len(s) }
func (s minInts) Less(i, j int) bool { return s[i] < s[j] }
func (s minInts) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
func (s *minInts) Push(x any)        { *s = append(*s, x.(int64)) }
func (s *minInts) Pop() any {
	old := *s
	x := old[len(old)-1]
	*s = old[:len(old)-1]
	return x
}

type item struct {
	key int64
	id  int64
}

// runHeap keeps a multiset of elements; each has an identity so that lost or
// duplicated elements of equal priority are noticed.
func runHeap(c Case, r *Rec) error {
	key := func(a int64) int64 { return a }
	switch Mod(c.Cfg["ord"], 3) {
	case 1:
		key = func(a int64) int64 { return -(a >> 1) }
	case 2:
		key = func(a int64) int64 { return int64(Mod(a, 5)) } // many ties
	}
	ord := Mod(c.Cfg["ord"], 3)
	less := func(a, b item) bool { r.Step(); return key(a.key) < key(b.key) }
	model := map[item]bool{}
	keys := &minInts{} // the keys in the model, least first
	in := func(x item) { model[x] = true; stdheap.Push(keys, key(x.key)) }
	next := int64(-1) // so that the zero value may be an element
	mk := func(a int64) item { next++; return item{a, next} }
	var h *heap.Heap[item]
	var init []item
	n0 := 0
	if v := c.Cfg["init"]; v >= bulkExact {
		n0 = bulk(v, 1)
	} else if v > 0 {
		n0 = Mod(v, 70)
	}
	for _, a := range pattern(c.Cfg["seed"], n0, c.Cfg["pat"]) {
		if ord == 0 && Mod(c.Cfg["seed"], 2) == 0 {
			a = int64(Mod(a, 9))
		}
		init = append(init, mk(a))
	}
	for _, x := range init {
		in(x)
	}
	sane := func(i int, o Op, what string, x item) error {
		if !model[x] {
			return errf(i, o, "%s returned %v, which is not in the heap", what, x)
		}
		if least := (*keys)[0]; key(x.key) != least {
			return errf(i, o, "%s returned %v, which sorts as %d, although the least sorts as %d", what, x, key(x.key), least)
		}
		return nil
	}
	switch Mod(c.Cfg["ctor"], 3) {
	case 0:
		h = heap.New(less)
		for _, x := range init {
			h.Push(x)
		}
	case 1:
		h = heap.From(less, append([]item(nil), init...)...)
	case 2:
		data := append(make([]item, 0, len(init)+Mod(c.Cfg["pat"], 4)), init...)
		h = heap.FromSlice(less, data)
		for _, x := range data { // used as the inside array: same elements
			if !model[x] {
				return errf(-1, Op{N: "FromSlice"}, "data holds %v after FromSlice, which was not in it", x)
			}
		}
	}
	r.LabelIf(n0 > 20 && Mod(c.Cfg["ctor"], 3) > 0, "heapified")
	pop := func(i int, o Op) error {
		x, ok := h.Pop()
		if ok != (len(model) > 0) {
			return errf(i, o, "Pop() ok = %v with %d elements", ok, len(model))
		}
		if !ok {
			r.Label("pop-empty")
			if x != (item{}) {
				return errf(i, o, "Pop() of an empty heap returned %v", x)
			}
			return nil
		}
		if err := sane(i, o, "Pop()", x); err != nil {
			return err
		}
		delete(model, x)
		stdheap.Pop(keys)
		r.Label("pop")
		r.LabelIf(len(model) > 10, "pop-big")
		return nil
	}
	obs := func(i int, o Op) error {
		if h.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", h.Size(), len(model))
		}
		x, ok := h.Peek()
		if ok != (len(model) > 0) {
			return errf(i, o, "Peek() ok = %v with %d elements", ok, len(model))
		}
		if !ok {
			if x != (item{}) {
				return errf(i, o, "Peek() of an empty heap returned %v", x)
			}
			return nil
		}
		return sane(i, o, "Peek()", x)
	}
	if err := obs(-1, Op{N: "init"}); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		switch o.N {
		case "push":
			x := mk(o.A)
			h.Push(x)
			in(x)
		case "pushRange":
			if len(model) > 300 && o.B < bulkExact {
				break
			}
			for _, a := range pattern(o.A, bulk(o.B, 60), o.C) {
				x := mk(a)
				h.Push(x)
				in(x)
			}
		case "pop":
			if err := pop(i, o); err != nil {
				return err
			}
		case "popRange":
			for n := bulk(o.B, 60); n > 0; n-- {
				if err := pop(i, o); err != nil {
					return err
				}
			}
		}
		if err := obs(i, o); err != nil {
			return err
		}
	}
	for len(model) > 0 { // drain: everything comes out, in order
		if err := pop(len(c.Ops), Op{N: "drain"}); err != nil {
			return err
		}
	}
	if err := obs(len(c.Ops), Op{N: "drained"}); err != nil {
		return err
	}
	if r.Has("pop-big") {
		r.NonTrivial()
	}
	return nil
}

// runHeapCost bounds the comparisons of each operation.
func runHeapCost(c Case, r *Rec) error {
	less := func(a, b int64) bool { r.Step(); return a < b }
	r.Budget()
	n0 := 0
	if v := c.Cfg["init"]; v >= bulkExact {
		n0 = bulk(v, 1)
	} else if v != 0 {
		n0 = Mod(v, 20000)
	}
	h := heap.FromSlice(less, pattern(c.Cfg["seed"], n0, c.Cfg["pat"]))
	if got, lim := r.Steps(), int64(8*n0+16); got > lim {
		return errf(-1, Op{N: "FromSlice"}, "building a heap of %d elements compared %d times, linear limit %d", n0, got, lim)
	}
	peak := n0
	size := n0
	for i, o := range c.Ops {
		r.Turn()
		n := bulk(o.B, 4000)
		ks := pattern(o.A, n, o.C)
		for _, k := range ks {
			lim := int64(6*bits.Len(uint(size+1)) + 16)
			r.Budget()
			if o.N == "push" && (size < 40000 || o.B >= bulkExact) {
				h.Push(k)
				size++
			} else if o.N == "pop" && size > 0 {
				h.Pop()
				size--
			}
			if got := r.Steps(); got > lim {
				return errf(i, o, "%s on a heap of %d elements compared %d times, logarithmic limit %d", o.N, size, got, lim)
			}
		}
		peak = max(peak, size)
	}
	if peak > 200 {
		r.NonTrivial()
	}
	r.LabelIf(peak > 5000, "size>5000")
	return nil
}

func init() {
	trieSpecs := []Spec{{"put", 16, argsStr}, {"remove", 12, argsStr}, {"drain", 2, argsStr}, {"look", 4, argsStr}, {"putRange", 1, argsBulk(100)}, {"removeRange", 1, argsBulk(100)}}
	bigTrie := func(n, first int64) []Case {
		long := Bytes(strings.Repeat("ab\xff", 3000))
		var out []Case
		for pat := int64(0); pat < 5; pat++ {
			n := n
			if pat == 0 {
				n = first
			}
			out = append(out, Case{Ops: []Op{
				{N: "putRange", A: 40, B: exactly(n), C: pat}, {N: "put", A: 7, B: 1, S: "ab"}, {N: "remove", A: 8, B: 3},
				{N: "removeRange", A: 90, B: exactly(n * 9 / 10), C: (pat + 1) % 3}, {N: "put", A: 7, B: 2, S: "1"}, {N: "drain", A: 7, S: "2"}, {N: "put", A: 7, S: "33"}}})
		}
		for _, n := range []int64{16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4096} {
			c := Case{Ops: []Op{{N: "settle", B: exactly(n)}}}
			for _, k := range []Bytes{"1", "12", "123", "1234", "", "zz"} {
				c.Ops = append(c.Ops, Op{N: "look", A: 7, S: k})
			}
			c.Ops = append(c.Ops, Op{N: "remove", A: 7, S: "12"}, Op{N: "settle", A: n, B: exactly(n)}, Op{N: "look", A: 7, S: "12"}, Op{N: "settle", B: exactly(n / 2)}, Op{N: "settle", B: exactly(n)}, Op{N: "look", A: 7, S: "1"})
			out = append(out, c)
		}
		return append(out, Case{Ops: []Op{{N: "put", A: 7, B: 1, S: long}, {N: "put", A: 7, B: 2, S: long[:4000]}, {N: "put", A: 5, B: 1<<8 | 17},
			{N: "remove", A: 7, S: long[:5000]}, {N: "remove", A: 7, S: long}, {N: "look", A: 7, S: long[:4003]}, {N: "remove", A: 7, S: long[:4000]}, {N: "put", A: 7, S: "a"}}})
	}
	Register(&Prop{
		ID: "C11", Quick: 162000, Thorough: 3000000,
		Rule:  "random histories of Put/Remove over byte-string keys that are equal to, prefixes of, extensions of or one byte away from earlier keys (any byte, empty key included) against an ideal dictionary; Get, Contains, Size, Keys compared after every step; non-trivial: a present key was removed, and either it was a prefix of another or some key was overwritten",
		Gen:   func(g *G) Case { return Case{Ops: g.History(trieSpecs, 6)} },
		Fixed: func() []Case { return bigTrie(30_000, 70_000) },
		Run:   func(c Case, r *Rec) error { return runTrie(c, r, false) },
	})
	Register(&Prop{
		ID: "C12", Quick: 54000, Thorough: 1300000,
		Rule:  "the same histories, with KeysWithPrefix and LongestPrefix queried after every step (keys, their prefixes, extensions, unrelated strings, the empty string) against a scan of the model; non-trivial: a query selected some but not all keys and a longest prefix was a proper one",
		Gen:   func(g *G) Case { return Case{Ops: g.History(trieSpecs, 4)} },
		Fixed: func() []Case { return bigTrie(1500, 70_000) },
		Run:   func(c Case, r *Rec) error { return runTrie(c, r, true) },
	})
	Register(&Prop{
		ID: "C13", Quick: 216000, Thorough: 3000000,
		Rule: "heaps made by New, From and FromSlice (0-70 elements in five orders), random Push/Pop histories under natural, coarse reversed and 5-way-tied orders; every element has an identity, Pop and Peek are compared with the model multiset and the heap is drained at the end; non-trivial: a Pop with more than 10 elements left",
		Gen: func(g *G) Case {
			c := Case{Cfg: map[string]int64{"ord": g.Uniform(3), "ctor": g.Uniform(3), "init": g.Uniform(70), "seed": g.Uniform(1000), "pat": g.Uniform(5)}}
			if g.Chance(6) {
				c.Cfg["init"] = 0
			}
			c.Ops = g.History([]Spec{{"push", 8, argsKey}, {"pop", 7, argsNone}, {"pushRange", 1, argsBulk(60)}, {"popRange", 1, argsBulk(60)}}, 6)
			return c
		},
		Fixed: func() []Case {
			var out []Case
			for i := int64(0); i < 6; i++ {
				out = append(out, Case{Cfg: map[string]int64{"ord": i % 3, "ctor": i % 3, "init": exactly(20_000 + i + 50_000*(i%2)), "seed": 3, "pat": i % 5}, Ops: []Op{
					{N: "popRange", B: exactly(12_000)}, {N: "pushRange", A: -5, B: exactly(7_000), C: (i + 1) % 5}, {N: "pop"}, {N: "push", A: 4}, {N: "popRange", B: exactly(13_000)}}})
			}
			return out
		},
		Run: runHeap,
	})
	Register(&Prop{
		ID: "C33", Quick: 9450, Thorough: 720000,
		Rule: "heaps of up to 40000 elements built from slices in five orders and driven by bulk Push and Pop; comparisons of every operation are counted against 6*log2(n)+16, those of FromSlice against 8n+16; non-trivial: the heap held more than 200 elements",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"init": g.Pick(0, 1, g.Uniform(300), g.Uniform(20000)), "seed": g.Uniform(1000), "pat": g.Uniform(5)},
				Ops: g.HistoryN([]Spec{{"push", 1, argsBulk(3000)}, {"pop", 1, argsBulk(3000)}}, 1+g.Uniform(8))}
		},
		Fixed: func() []Case {
			var out []Case
			for i := int64(0); i < 5; i++ {
				out = append(out, Case{Cfg: map[string]int64{"init": exactly(200_000), "seed": 1, "pat": i}, Ops: []Op{
					{N: "push", A: -100, B: exactly(50_000), C: i}, {N: "pop", B: exactly(100_000)}}})
			}
			return out
		},
		Run: runHeapCost,
	})
}
