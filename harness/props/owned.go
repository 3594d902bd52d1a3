package props

import (
	"fmt"
	"slices"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/trie"
	. "verif/harness/pbt"
)

// C39: two structures go through the same history. The caller of one keeps
// every slice and map it passed or got, and they must stay as they are; the
// caller of the other overwrites them at once, and must see no difference.

// owned is a slice or map that belongs to the caller.
type owned struct {
	what   string
	text   func() string // in its order
	sorted func() string // whatever the order
	spoil  func()        // overwrites it; nil where the structure may share it
	was    string
	step   int
}

func ownSlice[T any](what string, s []T, junk T) *owned {
	elems := func() []string {
		out := make([]string, len(s))
		for i, v := range s {
			out[i] = strings.Clone(fmt.Sprintf("%v", v))
		}
		return out
	}
	return &owned{what: what,
		text: func() string { return strings.Join(elems(), " ") },
		sorted: func() string {
			e := elems()
			slices.Sort(e)
			return strings.Join(e, " ")
		},
		spoil: func() {
			all := s[:cap(s)] // the caller may append
			for i := range all {
				all[i] = junk
			}
		},
	}
}

// ownRefs is a slice whose elements have no text.
func ownRefs[T any](what string, s []T, name func(T) string, junk T) *owned {
	o := ownSlice(what, s, junk)
	o.text = func() string {
		out := ""
		for _, v := range s {
			out += name(v) + " "
		}
		return out
	}
	o.sorted = func() string { return fmt.Sprint(len(s)) }
	return o
}

func ownMap[K comparable, V any](what string, m map[K]V, key K, junk V) *owned {
	text := func() string { return fmt.Sprint(m) } // in the order of the keys
	return &owned{what: what, text: text, sorted: text, spoil: func() {
		clear(m)
		m[key] = junk
	}}
}

// ownRun is one of the two runs.
type ownRun struct {
	spoil bool
	kept  []*owned
	fresh []*owned // of the current step
	step  int
}

// arg announces a slice that is passed; the result is called after the call.
func (e *ownRun) arg(o *owned) func() {
	before := o.text()
	return func() {
		if now := o.text(); now != before {
			panic(ownViolation(fmt.Sprintf("%s was changed by the call from [%s] to [%s]", o.what, before, now)))
		}
		e.res(o)
	}
}

type ownViolation string

// res announces a slice that was returned.
func (e *ownRun) res(o *owned) {
	o.step, o.was = e.step, o.text()
	e.fresh = append(e.fresh, o)
}

// settle ends a step.
func (e *ownRun) settle() {
	for _, o := range e.fresh {
		if e.spoil && o.spoil != nil {
			o.spoil()
		} else {
			e.kept = append(e.kept, o)
		}
	}
	e.fresh = nil
}

func (e *ownRun) check() error {
	for _, o := range e.kept {
		if now := o.text(); now != o.was {
			return fmt.Errorf("%s of step %d changed later from [%s] to [%s]", o.what, o.step, trunc(o.was), trunc(now))
		}
	}
	return nil
}

// nums are a few numbers that depend on o; some of them occur twice.
func nums(o Op, n, width int) []int64 {
	out := make([]int64, Mod(o.B>>3, n), n+4)
	for i := range out {
		out[i] = Mod64(Mix(o.B+int64(i)), width)
	}
	return out
}

var ownKinds = []string{"set-map", "set-hash", "hashset", "mapset", "trie", "interval", "queue", "MapSet", "AvlSet", "prope", "rope", "bimap", "array2d"}

const ownJunk = -987654321

// ownThing returns what does a step and what shows the contents.
func ownThing(kind string, c Case, e *ownRun) (do func(o Op), show func() string) {
	list := func(what string, s []int64) *owned { return ownSlice(what, s, int64(ownJunk)) }
	sortedNums := func(each func(func(int64))) string {
		var out []int64
		each(func(v int64) { out = append(out, v) })
		slices.Sort(out)
		return fmt.Sprint(out)
	}
	switch kind {
	case "set-map", "set-hash":
		make1 := func(in []int64) set.Set[int64] {
			defer e.arg(list("the slice of elements", in))()
			if kind == "set-map" {
				return set.NewMapset(in...)
			}
			return set.NewHashset(uint64(Mod(c.Cfg["a"], 40)), g.Equals[int64], g.HashInt64, in...)
		}
		pool := []set.Set[int64]{make1(nil), make1(nums(Op{B: c.Cfg["a"]}, 30, 40)), make1(nums(Op{B: c.Cfg["b"]}, 30, 40))}
		do = func(o Op) {
			p := Mod(o.A, len(pool))
			s := pool[p]
			others := make([]set.SetOf[int64], 0, 6)
			for i := 0; i < Mod(o.B, 4); i++ {
				others = append(others, pool[Mod(o.B>>(2*i), len(pool))].SetOf)
			}
			with := func(fn func(...set.SetOf[int64]) set.Set[int64]) {
				name := func(x set.SetOf[int64]) string { return sortedNums(x.Each) }
				var junk set.SetOf[int64] = mapset.Of[int64](ownJunk)
				o := ownRefs("the slice of operands", others, name, junk)
				before := o.text()
				r := fn(others...)
				if o.text() != before {
					panic(ownViolation("the slice of operands was changed by the call"))
				}
				if e.spoil {
					o.spoil()
				}
				if r.Size() < 60 {
					pool[p] = r
				}
			}
			const1 := func(fn func(...int64) set.Set[int64]) {
				in := nums(o, 12, 40)
				done := e.arg(list("the slice of elements", in))
				r := fn(in...)
				done()
				pool[p] = r
			}
			switch Mod(o.C, 12) {
			case 0:
				s.Put(Mod64(o.B, 40))
			case 1:
				s.Remove(Mod64(o.B, 40))
			case 2, 3:
				e.res(list("the result of Keys", s.Keys()))
			case 4:
				e.res(ownMap("the result of Map", s.Map(), int64(ownJunk), struct{}{}))
			case 5:
				with(s.Union)
			case 6:
				with(s.Intersection)
			case 7:
				with(s.Difference)
			case 8:
				with(s.SymmetricDifference)
			case 9:
				const1([]func(...int64) set.Set[int64]{s.ConstUnion, s.ConstDifference, s.ConstIntersection, s.ConstSymmetricDifference}[Mod(o.B, 4)])
			case 10:
				pool[p] = make1(nums(o, 30, 40))
			case 11:
				e.res(list("the result of Keys", s.Clone().Keys()))
			}
		}
		show = func() string {
			out := ""
			for _, s := range pool {
				out += sortedNums(s.Each) + s.String()
			}
			return out
		}
	case "hashset":
		var s *hashset.Set[int64]
		do = func(o Op) {
			switch {
			case s == nil || Mod(o.C, 3) == 0:
				in := nums(o, 30, 40)
				done := e.arg(list("the slice of elements", in))
				s = hashset.Of(uint64(Mod(o.A, 20)), g.Equals[int64], g.HashInt64, in...)
				done()
			case Mod(o.C, 3) == 1:
				s.Put(Mod64(o.B, 40))
			default:
				s.Remove(Mod64(o.B, 40))
			}
		}
		show = func() string { return fmt.Sprint(s.Size(), sortedNums(s.Each)) }
	case "mapset":
		s := mapset.New[int64]()
		do = func(o Op) {
			switch Mod(o.C, 3) {
			case 0:
				in := nums(o, 30, 40)
				done := e.arg(list("the slice of elements", in))
				s = mapset.Of(in...)
				done()
			case 1:
				s.Put(Mod64(o.B, 40))
			default:
				s.Remove(Mod64(o.B, 40))
			}
		}
		show = func() string { return fmt.Sprint(s.Size(), sortedNums(s.Each)) }
	case "trie":
		t := trie.New[int64]()
		key := func(i int64) string { return trieKeys.enc(Mod64(i, 60)) }
		words := func(what string, s []string) *owned { return ownSlice(what, s, "junk") }
		do = func(o Op) {
			switch Mod(o.C, 7) {
			case 0, 1:
				t.Put(key(o.A), o.B)
			case 2:
				t.Remove(key(o.A))
			case 3:
				e.res(words("the result of Keys", t.Keys()))
			case 4, 5:
				k := key(o.A)
				e.res(words("the result of KeysWithPrefix", t.KeysWithPrefix(k[:Mod(o.B, len(k)+1)])))
			case 6:
				p := t.LongestPrefix(key(o.A) + "ab")
				x := ownSlice("the result of LongestPrefix", []string{p}, "")
				x.spoil = nil
				e.res(x)
			}
		}
		show = func() string { return fmt.Sprintf("%d %q %q", t.Size(), t.Keys(), t.KeysWithPrefix("a")) }
	case "interval":
		t := interval.New[int64, int64]()
		do = func(o Op) {
			lo := Mod64(o.A, 60)
			hi := lo + Mod64(o.B, 12)
			switch Mod(o.C, 6) {
			case 0, 1:
				t.Put(lo, hi, o.B)
			case 2:
				t.Remove(lo)
			default:
				hi += Mod64(o.B>>5, 60)
				e.res(ownSlice("the result of Overlaps", t.Overlaps(lo, hi), interval.KV[int64, int64]{Low: ownJunk, High: ownJunk, Val: ownJunk}))
			}
		}
		show = func() string { return fmt.Sprint(t.Size(), t.Overlaps(-1, 1000)) }
	case "queue":
		q := queue.New[int64]()
		do = func(o Op) {
			switch Mod(o.C, 8) {
			case 0, 1:
				q.Enqueue(o.B)
			case 2:
				q.TryDequeue()
			case 3, 4:
				e.res(list("the result of PeekAll", q.PeekAll()))
			case 5:
				e.res(list("the result of DequeueAll", q.DequeueAll()))
			case 6:
				in := nums(o, 20, 1000)
				done := e.arg(list("the slice passed to Of", in))
				q = queue.Of(in)
				done()
			case 7:
				for _, v := range nums(o, 20, 1000) {
					q.Enqueue(v)
				}
			}
		}
		show = func() string { return fmt.Sprint(q.Len(), q.PeekAll()) }
	case "MapSet", "AvlSet":
		m := multimap.NewMapSet[int64](g.Less[int64])
		if kind == "AvlSet" {
			m = multimap.NewAvlSet(g.Less[int64], g.Less[int64])
		}
		do = func(o Op) {
			k, v := Mod64(o.A, 6), Mod64(o.B, 30)
			switch Mod(o.C, 8) {
			case 0, 1, 2:
				m.Put(k, v)
			case 3:
				m.Remove(k, v)
			case 4:
				if Mod(o.B, 4) == 0 {
					m.RemoveAll(k)
				}
				for _, v := range nums(o, 20, 30) {
					m.Put(k, v)
				}
			default:
				e.res(list("the result of Get", m.Get(k)))
			}
		}
		show = func() string {
			out := fmt.Sprint(m.Size())
			for k := int64(0); k < 6; k++ {
				out += fmt.Sprint(m.Get(k))
			}
			return out
		}
	case "prope":
		first := nums(Op{B: c.Cfg["a"]}, 60, 1000)
		x := list("the slice passed to New", first)
		x.spoil = nil
		done := e.arg(x)
		pool := []*prope.Node[int64]{prope.New(first), prope.New([]int64{}), prope.New([]int64{5})}
		done()
		do = func(o Op) {
			p := Mod(o.A, len(pool))
			n := pool[p]
			pos := Mod(o.A>>4, n.Len()+1)
			end := pos + Mod(o.B, n.Len()-pos+1)
			switch Mod(o.C, 9) {
			case 0, 1:
				in := nums(o, 12, 1000)
				done := e.arg(list("the slice passed to Insert", in))
				n = n.Insert(pos, in)
				done()
			case 2:
				n = n.Remove(pos, end)
			case 3, 4:
				e.res(list("the result of Value", n.Value()))
			case 5, 6:
				e.res(list("the result of Slice", n.Slice(pos, end)))
			case 7:
				pool[Mod(o.B, len(pool))], n = n.SplitAt(pos)
			case 8:
				parts := make([]*prope.Node[int64], 0, 5)
				for i := 0; i < Mod(o.B, 4); i++ {
					parts = append(parts, pool[Mod(o.B>>(2*i), len(pool))])
				}
				x := ownRefs("the slice of ropes", parts, func(n *prope.Node[int64]) string { return fmt.Sprintf("%p", n) }, nil)
				done := e.arg(x)
				n = prope.Join(parts...)
				done()
			}
			if n.Len() < 200 {
				pool[p] = n
			}
		}
		show = func() string {
			out := ""
			for _, n := range pool {
				out += fmt.Sprint(n.Value())
			}
			return out
		}
	case "rope":
		pool := []*rope.Node[int64]{rope.New(nums(Op{B: c.Cfg["a"]}, 60, 1000)), rope.New(nums(Op{B: c.Cfg["b"]}, 60, 1000))}
		do = func(o Op) {
			p := Mod(o.A, len(pool))
			n := pool[p]
			pos := Mod(o.A>>4, n.Len()+1)
			switch Mod(o.C, 4) {
			case 0, 1:
				if n.Len() > 200 {
					return
				}
				in := nums(o, 12, 1000)
				done := e.arg(list("the slice passed to Insert", in))
				n.Insert(pos, in)
				done()
			case 2:
				n.Remove(pos, pos+Mod(o.B, n.Len()-pos+1))
			case 3:
				if pool[0].Len()+pool[1].Len() > 200 {
					return
				}
				parts := make([]*rope.Node[int64], Mod(o.B, 3), 4)
				for i := range parts {
					parts[i] = rope.New(nums(Op{B: o.B + int64(i)}, 12, 1000))
				}
				x := ownRefs("the slice of ropes", parts, func(n *rope.Node[int64]) string { return fmt.Sprintf("%p", n) }, nil)
				done := e.arg(x)
				pool[0] = rope.Join(pool[0], pool[1], parts...)
				pool[1] = rope.New([]int64{o.B})
				done()
			}
		}
		show = func() string { return fmt.Sprint(pool[0].Value(), pool[1].Value()) }
	case "bimap":
		m := &bimap.Bimap[int64, int64]{}
		do = func(o Op) {
			switch Mod(o.C, 4) {
			case 0:
				in := map[int64]int64{}
				for i, v := range nums(o, 20, 1000) {
					in[v] = int64(i) // values once each: the order of the map is arbitrary
				}
				done := e.arg(ownMap("the map passed to Of", in, int64(ownJunk), int64(ownJunk)))
				x := bimap.Of(in)
				m = &x
				done()
			case 1, 2:
				m.Add(Mod64(o.A, 20), Mod64(o.B, 20))
			case 3:
				m.RemoveForward(Mod64(o.A, 20))
			}
		}
		show = func() string {
			f := map[int64]int64{}
			m.Each(func(k, v int64) {
				r, _ := m.GetReverse(v)
				f[k] = v*1000 + r
			})
			return fmt.Sprint(m.Len(), f)
		}
	case "array2d":
		a := array2d.New[int64](3, 2)
		do = func(o Op) {
			switch Mod(o.C, 3) {
			case 0:
				w, h := Mod(o.A, 6), Mod(o.A>>4, 5)
				jagged := make([][]int64, Mod(o.B, 6), 8)
				var done []func()
				for i := range jagged {
					jagged[i] = nums(Op{B: o.B + int64(i)}, 7, 1000)
					done = append(done, e.arg(list("a row passed to OfJagged", jagged[i])))
				}
				outer := ownRefs("the rows passed to OfJagged", jagged, func(r []int64) string { return fmt.Sprintf("%p/%d", r, len(r)) }, []int64{ownJunk, ownJunk, ownJunk})
				done = append(done, e.arg(outer))
				a = array2d.OfJagged(w, h, jagged)
				for _, d := range done {
					d()
				}
			case 1:
				if a.Width() > 0 && a.Height() > 0 {
					a.Set(Mod(o.A, a.Width()), Mod(o.B, a.Height()), o.B)
				}
			case 2:
				if a.Width() > 0 && a.Height() > 0 {
					a.Fill(0, 0, Mod(o.A, a.Width()), Mod(o.B, a.Height()), o.B)
				}
			}
		}
		show = func() string { return a.String() }
	}
	return do, show
}

func runOwned(c Case, r *Rec) (err error) {
	kind := ownKinds[Mod(c.Cfg["kind"], len(ownKinds))]
	_, restore := thresholds(Case{Cfg: map[string]int64{"split": c.Cfg["split"], "join": c.Cfg["join"], "ratio": 1}})
	defer restore()
	at := 0
	defer func() {
		if x := recover(); x != nil {
			v, ok := x.(ownViolation)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("step %d: %s: %s", at, kind, string(v))
		}
	}()
	calm, wild := &ownRun{}, &ownRun{spoil: true}
	do1, show1 := ownThing(kind, c, calm)
	do2, show2 := ownThing(kind, c, wild)
	calm.settle()
	wild.settle()
	owns := 0
	for i, o := range c.Ops {
		at = i
		calm.step, wild.step = i, i
		do1(o)
		do2(o)
		for j, x := range calm.fresh {
			if y := wild.fresh[j]; x.sorted() != y.sorted() {
				return errf(i, o, "%s: %s is [%s], but [%s] where the caller overwrote earlier ones", kind, x.what, trunc(x.text()), trunc(y.text()))
			}
			owns++
		}
		calm.settle()
		wild.settle()
		if a, b := show1(), show2(); a != b {
			return errf(i, o, "%s holds %s, but %s where the caller overwrote the slices it passed or got", kind, trunc(a), trunc(b))
		}
		if i%8 == 7 || i == len(c.Ops)-1 {
			for _, e := range []*ownRun{calm, wild} {
				if err := e.check(); err != nil {
					return errf(i, o, "%s: %v", kind, err)
				}
			}
		}
	}
	r.Label(kind)
	if owns > 2 && len(c.Ops) > 4 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	args := func(g *G) Op { return Op{N: "op", A: g.Uniform(1 << 12), B: g.Uniform(1 << 30), C: g.Uniform(5040)} }
	Register(&Prop{
		ID: "C39", Quick: 120000, Thorough: 2000000,
		Rule: "the same random history on two equal structures; every slice or map passed or returned is kept by one caller and must stay as it was, the other caller overwrites it (up to its capacity) at once and must see the same contents and results from then on; non-trivial: more than four operations with more than two such slices or maps",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"kind": g.Uniform(int64(len(ownKinds))), "a": g.Uniform(1 << 20), "b": g.Uniform(1 << 20), "split": g.Uniform(9), "join": g.Uniform(5)},
				Ops: g.HistoryN([]Spec{{"op", 1, args}}, 1+g.Uniform(40))}
		},
		Run: runOwned,
	})
}
