package props

import (
	"fmt"
	"math/bits"

	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	. "verif/harness/pbt"
)

var splitLens = []int{2, 3, 4, 5, 8, 16, 33, 64, 128}

// shipped are the thresholds as the library sets them; users counts the cases
// (or instances of one) that have changed them.
var (
	users   int
	shipped [2]struct {
		split, join int
		ratio       float64
	}
)

// thresholds sets the package variables of both ropes from the case and
// returns a function that restores them.
func thresholds(c Case) (split int, restore func()) {
	r, p := &shipped[0], &shipped[1]
	if users == 0 {
		r.split, r.join, r.ratio = rope.SplitLength, rope.JoinLength, rope.RebalanceRatio
		p.split, p.join, p.ratio = prope.SplitLength, prope.JoinLength, prope.RebalanceRatio
	}
	users++
	restore = func() {
		if users--; users > 0 {
			return
		}
		rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = r.split, r.join, r.ratio
		prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = p.split, p.join, p.ratio
	}
	if Mod(c.Cfg["default"], 30) == 29 {
		return 0, restore // the shipped thresholds
	}
	split = splitLens[Mod(c.Cfg["split"], len(splitLens))]
	join := []int{0, 1, split / 4, split / 2, split - 1}[Mod(c.Cfg["join"], 5)]
	ratio := []float64{1.0, 1.2, 1.5, 3}[Mod(c.Cfg["ratio"], 4)]
	rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = split, join, ratio
	prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = split, join, ratio
	return split, restore
}

func genRopeCfg(g *G) map[string]int64 {
	c := map[string]int64{"split": g.Uniform(9), "join": g.Uniform(5), "ratio": g.Uniform(4), "init": g.Uniform(200), "default": 0, "vals": g.Uniform(8)}
	if g.Chance(60) {
		c["default"] = 29
		c["init"] = g.Pick(100, 16384, 16385, 40000, 70000)
	}
	return c
}

type elems struct {
	next int32
	mode int64
}

func (e *elems) take(n int) []int32 {
	out := make([]int32, n)
	for i := range out {
		e.next++
		out[i] = int32(shade(e.mode, int64(e.next)))
	}
	return out
}

func same32(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func brief32(a []int32) string {
	if len(a) > 30 {
		return fmt.Sprintf("%v... (%d elements)", a[:30], len(a))
	}
	return fmt.Sprint(a)
}

func firstDiff(got, want []int32) string {
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d elements, want %d; first difference at %d; got %s, want %s", len(got), len(want), i, brief32(got), brief32(want))
}

func splice(m []int32, at int, v []int32) []int32 {
	out := make([]int32, 0, len(m)+len(v))
	out = append(out, m[:at]...)
	out = append(out, v...)
	return append(out, m[at:]...)
}

func cut(m []int32, a, b int) []int32 {
	out := make([]int32, 0, len(m))
	out = append(out, m[:a]...)
	return append(out, m[b:]...)
}

// position picks an index in [0,n] with the borders over-represented.
func position(a int64, n int) int {
	switch Mod(a, 8) {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		return n / 2
	}
	return Mod(a>>3, n+1)
}

func span(a, b int64, n int) (int, int) {
	s := position(a, n)
	l := n - s
	switch Mod(b, 6) {
	case 0, 1, 2:
		l = min(l, Mod(b>>3, 8))
	case 3:
	default:
		l = Mod(b>>3, l+1)
	}
	return s, s + l
}

type rmember struct {
	n     *rope.Node[int32]
	model []int32
}

// runRope checks edits on one rope (C22) or also splits, joins and rebuilds
// over several ropes (C23).
func runRope(c Case, r *Rec, several bool) error {
	split, restore := thresholds(c)
	defer restore()
	e := elems{mode: c.Cfg["vals"]}
	mk := func(n int) *rmember {
		v := e.take(n)
		m := append([]int32(nil), v...)
		if Mod(c.Cfg["init"], 2) == 0 { // spare capacity behind the slice
			v = append(make([]int32, 0, n+20), v...)
			for i := range v[n : n+20] {
				v[n : n+20][i] = -7
			}
		}
		return &rmember{rope.New(v), m}
	}
	maxLen := 600
	if split == 0 {
		maxLen = 150000
		r.Label("default-thresholds")
	} else {
		maxLen = max(maxLen, split*12)
	}
	n0 := Mod(c.Cfg["init"], maxLen)
	pool := []*rmember{mk(n0)}
	obs := func(i int, o Op, x *rmember, tag string) error {
		if x.n.Len() != len(x.model) {
			return errf(i, o, "%sLen() = %d, want %d", tag, x.n.Len(), len(x.model))
		}
		if v := x.n.Value(); !same32(v, x.model) {
			return errf(i, o, "%sValue(): %s", tag, firstDiff(v, x.model))
		}
		var cat []int32
		leaves := 0
		bad := ""
		x.n.Each(func(l *rope.Node[int32]) {
			v := l.Value()
			if len(v) != l.Len() {
				bad = fmt.Sprintf("a leaf of Len() %d has %d elements", l.Len(), len(v))
			}
			if len(v) > rope.SplitLength {
				bad = fmt.Sprintf("a leaf has %d elements, SplitLength is %d", len(v), rope.SplitLength)
			}
			cat = append(cat, v...)
			leaves++
		})
		if bad != "" {
			return errf(i, o, "%s%s", tag, bad)
		}
		if !same32(cat, x.model) {
			return errf(i, o, "%sEach: %s", tag, firstDiff(cat, x.model))
		}
		r.LabelIf(leaves > 1, "multi-leaf")
		r.LabelIf(leaves > 8, "many-leaves")
		n := len(x.model)
		a, b := span(o.A*5+o.C, o.B*3+o.A, n)
		if v := x.n.Slice(a, b); !same32(v, x.model[a:b]) {
			return errf(i, o, "%sSlice(%d,%d): %s", tag, a, b, firstDiff(v, x.model[a:b]))
		}
		if n > 0 {
			for _, p := range []int{Mod(o.B, n), 0, n - 1} {
				if v := x.n.At(p); v != x.model[p] {
					return errf(i, o, "%sAt(%d) = %d, want %d", tag, p, v, x.model[p])
				}
			}
		}
		return nil
	}
	if err := obs(-1, Op{N: "New", A: 3, B: 5}, pool[0], ""); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		x := pool[Mod(o.C>>8, len(pool))]
		n := len(x.model)
		switch o.N {
		case "insert", "insertBig":
			l := Mod(o.B, 9)
			if o.N == "insertBig" {
				l = Mod(o.B, 3*max(split, 20)+1)
				if split == 0 {
					l = Mod(o.B*37, 40000)
				}
			}
			if n+l > maxLen {
				break
			}
			v := e.take(l)
			p := position(o.A, n)
			x.n.Insert(p, v)
			x.model = splice(x.model, p, v)
			for j := range v { // the argument is not retained
				v[j] = -9
			}
			r.LabelIf(l > 0, "insert")
		case "dup": // insert a part of the rope into itself
			a, b := span(o.A>>4, o.B, n)
			if n+b-a > maxLen {
				break
			}
			p := position(o.A, n)
			want := splice(x.model, p, x.model[a:b])
			x.n.Insert(p, x.n.Slice(a, b))
			x.model = want
			r.LabelIf(b > a, "insert-own-slice")
		case "remove":
			a, b := span(o.A, o.B, n)
			x.n.Remove(a, b)
			x.model = cut(x.model, a, b)
			r.LabelIf(b > a, "remove")
			r.LabelIf(n > 0 && b-a == n, "remove-all")
		case "split":
			if !several {
				break
			}
			p := position(o.A, n)
			l, rt := x.n.SplitAt(p)
			a := &rmember{l, append([]int32(nil), x.model[:p]...)}
			b := &rmember{rt, append([]int32(nil), x.model[p:]...)}
			*x = *a
			pool = append(pool, b)
			r.Label("split")
			r.LabelIf(p == 0 || p == n, "split-at-end")
		case "join":
			if len(pool) < 2 {
				break
			}
			k := 2 + Mod(o.B, 3)
			var in []*rmember
			for k > 0 && len(pool) > 0 { // the operands are used up
				j := Mod(o.A, len(pool))
				o.A = o.A >> 2
				in = append(in, pool[j])
				pool = append(pool[:j:j], pool[j+1:]...)
				k--
			}
			var m []int32
			var more []*rope.Node[int32]
			for j, y := range in {
				m = append(m, y.model...)
				if j >= 2 {
					more = append(more, y.n)
				}
			}
			pool = append(pool, &rmember{rope.Join(in[0].n, in[1].n, more...), m})
			r.Label("join")
		case "rebuild":
			x.n.Rebuild()
			r.Label("rebuild")
		case "rebalance":
			x.n.Rebalance()
			r.Label("rebalance")
		case "new":
			if several && len(pool) < 5 {
				pool = append(pool, mk(Mod(o.B, 4*max(split, 8))))
			}
		}
		if several && len(pool) > 6 {
			pool = pool[1:]
		}
		for j, y := range pool {
			if len(pool) > 1 && split == 0 && j > 0 && Mod(o.A+int64(j), 3) > 0 {
				continue // large ropes
			}
			if err := obs(i, o, y, fmt.Sprintf("rope %d: ", j)); err != nil {
				return err
			}
		}
	}
	if several {
		if r.Has("multi-leaf", "split") && (r.Has("join") || r.Has("rebuild") || r.Has("rebalance")) {
			r.NonTrivial()
		}
	} else if r.Has("multi-leaf", "insert", "remove") {
		r.NonTrivial()
	}
	return nil
}

type pmember struct {
	n     *prope.Node[int32]
	model []int32
}

// runProp checks the result of each edit (C24) or that every version ever made
// keeps its content (C25).
func runPrope(c Case, r *Rec, persist bool) error {
	split, restore := thresholds(c)
	defer restore()
	e := elems{mode: c.Cfg["vals"]}
	mk := func(n int) *pmember {
		v := e.take(n)
		return &pmember{prope.New(append(make([]int32, 0, n+5), v...)), v}
	}
	maxLen := 500
	if split == 0 {
		maxLen = 20000
		r.Label("default-thresholds")
	} else {
		maxLen = max(maxLen, split*12)
	}
	versions := []*pmember{mk(Mod(c.Cfg["init"], maxLen))}
	obs := func(i int, o Op, x *pmember, tag string, deep bool) error {
		n := len(x.model)
		if x.n.Len() != n {
			return errf(i, o, "%sLen() = %d, want %d", tag, x.n.Len(), n)
		}
		v := x.n.Value()
		if !same32(v, x.model) {
			return errf(i, o, "%sValue(): %s", tag, firstDiff(v, x.model))
		}
		for j := range v { // what is returned belongs to the caller
			v[j] = -3
		}
		if !deep {
			return nil
		}
		a, b := span(o.A*5+o.C, o.B*3+o.A, n)
		s := x.n.Slice(a, b)
		if !same32(s, x.model[a:b]) {
			return errf(i, o, "%sSlice(%d,%d): %s", tag, a, b, firstDiff(s, x.model[a:b]))
		}
		for j := range s {
			s[j] = -4
		}
		if n > 0 {
			for _, p := range []int{Mod(o.B, n), 0, n - 1} {
				if v := x.n.At(p); v != x.model[p] {
					return errf(i, o, "%sAt(%d) = %d, want %d", tag, p, v, x.model[p])
				}
			}
		}
		return nil
	}
	if err := obs(-1, Op{N: "New", A: 3, B: 5}, versions[0], "", true); err != nil {
		return err
	}
	limit := 40
	for i, o := range c.Ops {
		r.Turn()
		x := versions[Mod(o.C>>8, len(versions))]
		if !persist || Mod(o.C, 3) == 0 { // mostly continue from the latest
			x = versions[len(versions)-1]
		}
		n := len(x.model)
		var made []*pmember
		switch o.N {
		case "insert", "insertBig":
			l := Mod(o.B, 9)
			if o.N == "insertBig" {
				l = Mod(o.B, 3*max(split, 20)+1)
				if split == 0 {
					l = Mod(o.B, 1500)
				}
			}
			if n+l > maxLen {
				break
			}
			v := e.take(l)
			p := position(o.A, n)
			made = append(made, &pmember{x.n.Insert(p, v), splice(x.model, p, v)})
			for j := range v { // the argument is not retained
				v[j] = -9
			}
			r.LabelIf(l > 0, "insert")
		case "dup":
			a, b := span(o.A>>4, o.B, n)
			if n+b-a > maxLen {
				break
			}
			p := position(o.A, n)
			made = append(made, &pmember{x.n.Insert(p, x.n.Slice(a, b)), splice(x.model, p, x.model[a:b])})
		case "remove":
			a, b := span(o.A, o.B, n)
			made = append(made, &pmember{x.n.Remove(a, b), cut(x.model, a, b)})
			r.LabelIf(b > a, "remove")
			r.LabelIf(n > 0 && b-a == n, "remove-all")
		case "split":
			p := position(o.A, n)
			l, rt := x.n.SplitAt(p)
			made = append(made, &pmember{l, x.model[:p:p]}, &pmember{rt, x.model[p:]})
			r.Label("split")
		case "join":
			var in []*prope.Node[int32]
			var m []int32
			for k := Mod(o.B, 5); k > 0; k-- {
				y := versions[Mod(o.A, len(versions))]
				o.A >>= 3
				if len(m)+len(y.model) > maxLen {
					continue
				}
				in = append(in, y.n)
				m = append(m, y.model...)
			}
			made = append(made, &pmember{prope.Join(in...), m})
			r.LabelIf(len(in) > 1, "join")
			r.LabelIf(len(in) == 0, "join-nothing")
		case "rebuild":
			x.n.Rebuild()
			r.Label("rebuild")
		case "rebalance":
			x.n.Rebalance()
			r.Label("rebalance")
		case "new":
			made = append(made, mk(Mod(o.B, 4*max(split, 8))))
		}
		for j, y := range made {
			if err := obs(i, o, y, fmt.Sprintf("result %d: ", j), true); err != nil {
				return err
			}
		}
		// the source, and for persistence every version ever made
		if err := obs(i, o, x, "the version edited: ", true); err != nil {
			return err
		}
		versions = append(versions, made...)
		if !persist {
			if len(made) == 2 && Mod(o.B, 2) == 0 {
				versions[len(versions)-1] = made[0]
			}
			versions = versions[max(0, len(versions)-8):]
			continue
		}
		if len(versions) > limit {
			versions = versions[len(versions)-limit:]
		}
		for j, y := range versions {
			if err := obs(i, o, y, fmt.Sprintf("version %d of %d: ", j, len(versions)), false); err != nil {
				return err
			}
		}
		r.LabelIf(len(versions) > 5, "many-versions")
	}
	if persist {
		if r.Has("many-versions") && (r.Has("insert", "remove") || r.Has("join", "split")) {
			r.NonTrivial()
		}
	} else if r.Has("insert", "remove") {
		r.NonTrivial()
	}
	return nil
}

// runRopeCost bounds what one small edit of a large rope allocates.
func runRopeCost(c Case, r *Rec) error {
	_, restore := thresholds(Case{})
	defer restore()
	split := []int{16, 32, 64, 128, 256}[Mod(c.Cfg["split"], 5)]
	rope.SplitLength, rope.JoinLength = split, split/2
	prope.SplitLength, prope.JoinLength = split, split/2
	n := split * (512 + Mod(c.Cfg["leaves"], 1024))
	e := elems{mode: c.Cfg["vals"]}
	persistent := Mod(c.Cfg["impl"], 2) == 0
	p := &prope.Node[int32]{}
	rp := &rope.Node[int32]{}
	if persistent {
		p = prope.New(e.take(n))
		r.Label("prope")
	} else {
		rp = rope.New(e.take(n))
		r.Label("rope")
	}
	for i, o := range c.Ops {
		r.Turn()
		if i > 25 {
			break
		}
		// a balanced rope has log2(n/(split/2)) levels; each edit of this
		// history may add a few
		depth := bits.Len(uint(n/(split/2))) + 2*i + 4
		val := e.take(Mod(o.B, 9))
		if !persistent {
			n = rp.Len()
		}
		a := position(o.A, n)
		b := min(n, a+len(val))
		lim := uint64(400*depth + 4*8*(3*split+len(val)) + 2000)
		what := ""
		var got uint64
		var q *prope.Node[int32]
		switch {
		case persistent && o.N == "remove":
			what = fmt.Sprintf("Remove(%d,%d)", a, b)
			got = leastAlloc(func() { q = p.Remove(a, b) })
		case persistent && o.N == "split":
			what = fmt.Sprintf("SplitAt(%d)", a)
			var l, rt *prope.Node[int32]
			got = leastAlloc(func() { l, rt = p.SplitAt(a) })
			_ = l
			_ = rt
			q = p
		case persistent && o.N == "at":
			q = p
			what = fmt.Sprintf("At(%d)", min(a, n-1))
			got = leastAlloc(func() { p.At(min(a, n-1)) })
		case persistent && o.N == "slice":
			q = p
			what = fmt.Sprintf("Slice(%d,%d)", a, b)
			got = leastAlloc(func() { p.Slice(a, b) })
		case persistent:
			what = fmt.Sprintf("Insert(%d,%d elements)", a, len(val))
			got = leastAlloc(func() { q = p.Insert(a, val) })
		case o.N == "split":
			what = fmt.Sprintf("SplitAt(%d)", a)
			got = leastAlloc(func() { rp.SplitAt(a) })
		case o.N == "slice":
			what = fmt.Sprintf("Slice(%d,%d)", a, b)
			got = leastAlloc(func() { rp.Slice(a, b) })
		case o.N == "insert":
			what = fmt.Sprintf("Insert(%d,%d elements)", a, len(val))
			got = leastAlloc(func() { rp.Insert(a, val) })
		case o.N == "remove":
			if n < split*300 {
				continue
			}
			what = fmt.Sprintf("Remove(%d,%d)", a, b)
			b = min(b, n-3*len(val)-1) // run three times
			if a+3*len(val) >= n {
				continue
			}
			got = leastAlloc(func() { rp.Remove(a, a+len(val)) })
		default:
			if n == 0 {
				continue
			}
			what = fmt.Sprintf("At(%d)", min(a, n-1))
			got = leastAlloc(func() { rp.At(min(a, n-1)) })
		}
		if got > lim {
			return errf(i, o, "%s on a rope of %d elements (SplitLength %d) allocated %d bytes, limit %d", what, n, split, got, lim)
		}
		if persistent {
			p = q
			n = p.Len()
		}
		r.LabelIf(len(val) > 0, o.N)
	}
	if r.Has("insert") || r.Has("remove") || r.Has("split") {
		r.NonTrivial()
	}
	return nil
}

func init() {
	pos := func(g *G) Op { return Op{A: g.Uniform(1 << 20), B: g.Uniform(1 << 20), C: g.Uniform(1 << 11)} }
	edits := []Spec{{"insert", 8, pos}, {"remove", 8, pos}, {"insertBig", 3, pos}, {"dup", 2, pos}}
	Register(&Prop{
		ID: "C22", Quick: 96000, Thorough: 2200000,
		Rule: "random Insert/Remove histories (borders over-represented; insertions of other data and of the rope's own slices; the argument overwritten afterwards) with SplitLength 2-128, JoinLength 0 to SplitLength-1, and one case in sixty with the shipped thresholds on up to 150000 elements, against a plain slice; Len, Value, Slice, At, Each compared after every step; non-trivial: insertions and removals on a rope of several leaves",
		Gen:  func(g *G) Case { return Case{Cfg: genRopeCfg(g), Ops: g.History(edits, 4)} },
		Run:  func(c Case, r *Rec) error { return runRope(c, r, false) },
	})
	multi := append(append([]Spec{}, edits...), Spec{"split", 5, pos}, Spec{"join", 4, pos}, Spec{"rebuild", 2, pos}, Spec{"rebalance", 3, pos}, Spec{"new", 2, pos})
	Register(&Prop{
		ID: "C23", Quick: 126000, Thorough: 3000000,
		Rule: "random histories over up to six ropes: SplitAt, Join of 2-4 ropes, Rebuild, Rebalance and edits; every rope compared with its own slice after every step, so that an edit of one part must not show in another; non-trivial: a rope of several leaves was split and ropes were joined, rebuilt or rebalanced",
		Gen:  func(g *G) Case { return Case{Cfg: genRopeCfg(g), Ops: g.History(multi, 3)} },
		Run:  func(c Case, r *Rec) error { return runRope(c, r, true) },
	})
	Register(&Prop{
		ID: "C24", Quick: 126000, Thorough: 3000000,
		Rule: "random Insert/Remove/SplitAt/Join/Rebuild/Rebalance histories on persistent ropes with the same thresholds, each result compared with a plain slice through Len, Value, Slice and At; non-trivial: both an insertion and a removal",
		Gen:  func(g *G) Case { return Case{Cfg: genRopeCfg(g), Ops: g.History(multi, 4)} },
		Run:  func(c Case, r *Rec) error { return runPrope(c, r, false) },
	})
	Register(&Prop{
		ID: "C25", Quick: 72000, Thorough: 2490000,
		Rule: "random histories that branch from any of the last 40 versions; every version is compared with its own slice after every step, results of Value and Slice and arguments of Insert are overwritten to expose sharing; non-trivial: more than 5 versions made by insertions and removals or by joins and splits",
		Gen:  func(g *G) Case { return Case{Cfg: genRopeCfg(g), Ops: g.History(multi, 4)} },
		Run:  func(c Case, r *Rec) error { return runPrope(c, r, true) },
	})
	Register(&Prop{
		ID: "C26", Quick: 6750, Thorough: 460000,
		Rule: "balanced ropes and persistent ropes of 512-1535 leaves (SplitLength 16-256), then up to 26 small Insert/Remove/SplitAt/Slice/At operations; the bytes each one allocates are compared with 400 per level plus a few leaves; non-trivial: an operation with a non-empty argument was measured",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"split": g.Uniform(5), "leaves": g.Uniform(1024), "impl": g.Uniform(2)},
				Ops: g.HistoryN([]Spec{{"insert", 3, pos}, {"remove", 3, pos}, {"split", 2, pos}, {"at", 1, pos}, {"slice", 1, pos}}, 1+g.Uniform(12))}
		},
		Run: runRopeCost,
	})
}
