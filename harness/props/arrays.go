package props

import (
	"fmt"

	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/ulist"
	. "verif/harness/pbt"
)

// runUlist checks the sequence (C27) or the iterators (C28).
func runUlist(c Case, r *Rec, iters bool) error {
	per := []int{1, 2, 3, 4, 5, 8, 16, 64, 256}[Mod(c.Cfg["per"], 9)]
	ul := ulist.New[int64](per)
	var model []int64
	next := int64(0)
	fresh := func() int64 { next++; return shade(c.Cfg["vals"], next) }
	ins := func(at int, v int64) {
		m := append([]int64(nil), model[:at]...)
		m = append(m, v)
		model = append(m, model[at:]...)
	}
	// seek moves a fresh iterator to position p, from the nearer end
	seek := func(p int) *ulist.UListIter[int64] {
		if p <= len(model)/2 {
			it := ul.Begin()
			for j := 0; j < p; j++ {
				it.Next()
			}
			return it
		}
		it := ul.End()
		for j := len(model) - 1; j > p; j-- {
			it.Prev()
		}
		return it
	}
	at := func(i int, o Op, it *ulist.UListIter[int64], p int, when string) error {
		valid := p >= 0 && p < len(model)
		if it.IsValid() != valid {
			return errf(i, o, "%s: IsValid() = %v at position %d of %d", when, it.IsValid(), p, len(model))
		}
		if valid && it.Get() != model[p] {
			return errf(i, o, "%s: Get() = %d at position %d of %d, want %d", when, it.Get(), p, len(model), model[p])
		}
		return nil
	}
	walk := func(i int, o Op) error {
		if ul.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", ul.Size(), len(model))
		}
		var fw, bw []int64
		for it := ul.Begin(); it.IsValid(); it.Next() {
			r.Step()
			if fw = append(fw, it.Get()); len(fw) > len(model) {
				break
			}
		}
		for it := ul.End(); it.IsValid(); it.Prev() {
			r.Step()
			if bw = append(bw, it.Get()); len(bw) > len(model) {
				break
			}
		}
		if !sameInts(fw, model) {
			return errf(i, o, "forward iteration gives %v, want %v", trunc(fmt.Sprint(fw)), trunc(fmt.Sprint(model)))
		}
		for j := range model {
			if len(bw) != len(model) || bw[j] != model[len(model)-1-j] {
				return errf(i, o, "backward iteration gives %v, the list is %v", trunc(fmt.Sprint(bw)), trunc(fmt.Sprint(model)))
			}
		}
		if len(bw) != len(model) {
			return errf(i, o, "backward iteration gives %v, the list is empty", bw)
		}
		return nil
	}
	// one iterator that survives between steps as long as only it changes the list
	var it *ulist.UListIter[int64]
	pos := 0
	if err := walk(-1, Op{N: "new"}); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		n := len(model)
		p := 0
		if n > 0 {
			p = Mod(o.A, n)
			switch Mod(o.B, 8) {
			case 0:
				p = 0
			case 1:
				p = n - 1
			case 2:
				p = n - 1 - p%per%n
			}
		}
		switch o.N {
		case "pushBack", "pushFront", "pushBackRange", "pushFrontRange":
			k := 1
			if o.N == "pushBackRange" || o.N == "pushFrontRange" {
				k = bulk(o.B, 3*per+10)
			}
			if n > max(400, 8*per) && o.B < bulkExact {
				break
			}
			for ; k > 0; k-- {
				v := fresh()
				if o.N == "pushBack" || o.N == "pushBackRange" {
					ul.PushBack(v)
					model = append(model, v)
				} else {
					ul.PushFront(v)
					ins(0, v)
				}
			}
			it = nil
		case "addAfter", "addBefore", "removeAt": // through a fresh iterator
			if n == 0 {
				break
			}
			x := seek(p)
			if err := at(i, o, x, p, "before"); err != nil {
				return err
			}
			switch o.N {
			case "addAfter":
				v := fresh()
				ul.AddAfter(x, v)
				ins(p+1, v)
				p++
			case "addBefore":
				v := fresh()
				ul.AddBefore(x, v)
				ins(p, v)
			case "removeAt":
				ul.Remove(x)
				model = append(append([]int64(nil), model[:p]...), model[p+1:]...)
				r.Label("remove")
				r.LabelIf(len(model) == 0, "emptied")
			}
			r.Label(o.N)
			if err := at(i, o, x, p, "after "+o.N); err != nil {
				return err
			}
			it, pos = x, p
		case "begin", "end":
			if !iters {
				break
			}
			if o.N == "begin" {
				it, pos = ul.Begin(), 0
			} else {
				it, pos = ul.End(), n-1
			}
			r.LabelIf(n == 0, "iterator-of-empty")
			if err := at(i, o, it, pos, o.N); err != nil {
				return err
			}
		case "next", "prev": // several moves, also past the ends and back
			if !iters || it == nil {
				break
			}
			for k := bulk(o.B, 5); k > 0; k-- {
				var ok bool
				if o.N == "next" {
					ok = it.Next()
					pos = min(pos+1, n)
				} else {
					ok = it.Prev()
					pos = max(pos-1, -1)
				}
				if n == 0 { // there is no valid position
					if ok || it.IsValid() {
						return errf(i, o, "%s of an iterator of an empty list is valid", o.N)
					}
					pos = 0
					continue
				}
				if ok != (pos >= 0 && pos < n) {
					return errf(i, o, "%s = %v at position %d of %d", o.N, ok, pos, n)
				}
				if err := at(i, o, it, pos, "after "+o.N); err != nil {
					return err
				}
				r.LabelIf(pos == n, "past-end")
				r.LabelIf(pos == -1, "before-begin")
				r.LabelIf(r.Has("past-end") && pos == n-1 && o.N == "prev", "recovered")
			}
		case "iterAddAfter", "iterAddBefore", "iterRemove": // through the surviving one
			if !iters || it == nil || pos < 0 || pos >= n {
				break
			}
			switch o.N {
			case "iterAddAfter":
				v := fresh()
				ul.AddAfter(it, v)
				ins(pos+1, v)
				pos++
			case "iterAddBefore":
				v := fresh()
				ul.AddBefore(it, v)
				ins(pos, v)
			case "iterRemove":
				ul.Remove(it)
				model = append(append([]int64(nil), model[:pos]...), model[pos+1:]...)
				r.Label("remove")
				r.LabelIf(pos > 0 && pos < len(model), "remove-inner")
				r.LabelIf(len(model) == 0, "emptied")
			}
			r.Label(o.N)
			if err := at(i, o, it, pos, "after "+o.N); err != nil {
				return err
			}
		}
		r.LabelIf(len(model) > 3*per, "blocks>3")
		if err := walk(i, o); err != nil {
			return err
		}
		if iters && it != nil && len(model) > 0 {
			// walk a copy of the iterator a few steps both ways
			for _, dir := range []int{1, -1} {
				y, q := *it, pos
				for k := 0; k < 3; k++ {
					if dir > 0 {
						y.Next()
						q = min(q+1, len(model))
					} else {
						y.Prev()
						q = max(q-1, -1)
					}
					if err := at(i, o, &y, q, "walking on from the iterator"); err != nil {
						return err
					}
				}
			}
		}
	}
	if iters {
		if r.Has("blocks>3") && (r.Has("iterRemove") || r.Has("iterAddAfter") || r.Has("iterAddBefore")) {
			r.NonTrivial()
		}
	} else if r.Has("blocks>3", "remove") && (r.Has("addAfter") || r.Has("addBefore")) {
		r.NonTrivial()
	}
	return nil
}

type gridModel struct {
	w, h int
	cell [][]int64
}

func newGrid(w, h int, v int64) *gridModel {
	g := &gridModel{w, h, make([][]int64, h)}
	for y := range g.cell {
		g.cell[y] = make([]int64, w)
		for x := range g.cell[y] {
			g.cell[y][x] = v
		}
	}
	return g
}

func (g *gridModel) clone() *gridModel {
	n := newGrid(g.w, g.h, 0)
	for y := range g.cell {
		copy(n.cell[y], g.cell[y])
	}
	return n
}

func (g *gridModel) String() string { return fmt.Sprint(g.cell) }

// runGrid checks cells and regions (C29) or out-of-bounds access (C30).
func runGrid(c Case, r *Rec, oob bool) error {
	w, h := Mod(c.Cfg["w"], 10), Mod(c.Cfg["h"], 10)
	if Mod(c.Cfg["big"], 12) == 11 {
		w, h = w*9+1, h*3+1
	}
	if n := c.Cfg["shape"]; n > 0 {
		w, h = int(n%10000), int(n/10000)
		if w == 9999 { // longer than 16 bits can count
			w = 70_000
		}
		if h == 9999 {
			h = 70_000
		}
	}
	type member struct {
		a array2d.Array2D[int64]
		m *gridModel
	}
	var f0 member
	switch v := c.Cfg["fill"]; Mod(c.Cfg["ctor"], 3) {
	case 0:
		f0 = member{array2d.New[int64](w, h), newGrid(w, h, 0)}
	case 1:
		f0 = member{array2d.NewFilled(w, h, v), newGrid(w, h, v)}
		r.Label("filled")
	default:
		f0.m = newGrid(w, h, 0)
		rows := Mod(c.Cfg["rows"], h+4)
		var jag [][]int64
		for y := 0; y < rows; y++ {
			l := Mod(Mix(v+int64(y)), w+4)
			row := make([]int64, l)
			for x := range row {
				row[x] = int64(y*100 + x + 1)
				if y < h && x < w {
					f0.m.cell[y][x] = row[x]
				}
			}
			r.LabelIf(l > w, "jagged-row-too-long")
			jag = append(jag, row)
		}
		r.LabelIf(rows > h, "jagged-too-many-rows")
		f0.a = array2d.OfJagged(w, h, jag)
		for _, row := range jag { // not retained
			for x := range row {
				row[x] = -5
			}
		}
	}
	r.LabelIf(w != h, "non-square")
	r.LabelIf(w == 0 || h == 0, "empty")
	fam := []*member{&f0}
	check := func(i int, o Op, x *member) error {
		m := x.m
		if x.a.Width() != m.w || x.a.Height() != m.h {
			return errf(i, o, "Width, Height = %d, %d; want %d, %d", x.a.Width(), x.a.Height(), m.w, m.h)
		}
		for y := 0; y < m.h; y++ {
			for xx := 0; xx < m.w; xx++ {
				if v := x.a.Get(xx, y); v != m.cell[y][xx] {
					return errf(i, o, "%dx%d: Get(%d,%d) = %d, want %d", m.w, m.h, xx, y, v, m.cell[y][xx])
				}
			}
			if row := x.a.Row(y); !sameInts(row, m.cell[y]) {
				return errf(i, o, "%dx%d: Row(%d) = %v, want %v", m.w, m.h, y, row, m.cell[y])
			}
		}
		if s, want := x.a.String(), m.String(); s != want {
			return errf(i, o, "%dx%d: String() = %s, want %s", m.w, m.h, trunc(s), trunc(want))
		}
		return nil
	}
	if err := check(-1, Op{N: "init"}, &f0); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		x := fam[Mod(o.C>>8, len(fam))]
		m := x.m
		if o.N == "copy" {
			n := &member{x.a.Copy(), m.clone()}
			if len(fam) < 3 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
			r.Label("copy")
		}
		if o.N == "oob" {
			if err := gridOOB(i, o, r, x.a, m.w, m.h); err != nil {
				return err
			}
		}
		if w > 0 && h > 0 {
			x1, x2 := Mod(o.A, w), Mod(o.A>>10, w)
			y1, y2 := Mod(o.B, h), Mod(o.B>>10, h)
			switch o.N {
			case "set":
				x.a.Set(x1, y1, o.C)
				m.cell[y1][x1] = o.C
				r.Label("set")
			case "fill":
				x.a.Fill(x1, y1, x2, y2, o.C)
				for y := min(y1, y2); y <= max(y1, y2); y++ {
					for xx := min(x1, x2); xx <= max(x1, x2); xx++ {
						m.cell[y][xx] = o.C
					}
				}
				r.Label("fill")
				r.LabelIf(x2 < x1 || y2 < y1, "fill-swapped")
			case "span": // a mutable window on part of a row
				s := x.a.RowSpan(x1, x2, y1)
				lo, hi := min(x1, x2), max(x1, x2)
				if want := m.cell[y1][lo : hi+1]; !sameInts(s, want) {
					return errf(i, o, "%dx%d: RowSpan(%d,%d,%d) = %v, want %v", w, h, x1, x2, y1, s, want)
				}
				j := Mod(o.C, len(s))
				s[j] = o.C + 1
				m.cell[y1][lo+j] = o.C + 1
				// and it sees later writes
				x.a.Set(lo, y1, o.C+2)
				m.cell[y1][lo] = o.C + 2
				if s[0] != o.C+2 {
					return errf(i, o, "%dx%d: RowSpan(%d,%d,%d) is not a window on the array", w, h, x1, x2, y1)
				}
				r.Label("span")
			case "row":
				s := x.a.Row(y1)
				if len(s) != w {
					return errf(i, o, "%dx%d: Row(%d) has %d elements", w, h, y1, len(s))
				}
				s[x1] = o.C + 3
				m.cell[y1][x1] = o.C + 3
				x.a.Set(x2, y1, o.C+4)
				m.cell[y1][x2] = o.C + 4
				if s[x2] != o.C+4 {
					return errf(i, o, "%dx%d: Row(%d) is not a window on the array", w, h, y1)
				}
				r.Label("row")
			}
		}
		for _, y := range fam {
			if err := check(i, o, y); err != nil {
				return err
			}
		}
	}
	if oob {
		if r.Has("oob", "non-square") {
			r.NonTrivial()
		}
	} else if r.Has("non-square", "set") && (r.Has("fill") || r.Has("span") || r.Has("row")) {
		r.NonTrivial()
	}
	return nil
}

// gridOOB calls every accessor with one coordinate out of range; each call
// must panic, and the caller then checks that nothing changed.
func gridOOB(i int, o Op, r *Rec, a array2d.Array2D[int64], w, h int) error {
	out := func(v int64, n int) int { // a coordinate outside [0,n)
		switch Mod(v, 6) {
		case 0:
			return n
		case 1:
			return -1
		case 2:
			return n + 1 + Mod(v>>4, 3)
		case 3:
			return -2 - Mod(v>>4, 20)
		case 4:
			return n + Mod(v>>4, 200)
		}
		return []int{1 << 62, -1 << 63, 1<<63 - 1}[Mod(v>>4, 3)]
	}
	in := func(v int64, n int) int {
		if n == 0 {
			return 0
		}
		return Mod(v, n)
	}
	x, y := in(o.A, w), in(o.B, h)
	bx, by := out(o.A>>4, w), out(o.B>>4, h)
	z := in(o.C, w)
	zy := in(o.C>>4, h)
	for _, q := range []struct {
		what string
		fn   func()
	}{
		{fmt.Sprintf("Get(%d,%d)", bx, y), func() { a.Get(bx, y) }},
		{fmt.Sprintf("Get(%d,%d)", x, by), func() { a.Get(x, by) }},
		{fmt.Sprintf("Get(%d,%d)", bx, by), func() { a.Get(bx, by) }},
		{fmt.Sprintf("Set(%d,%d)", bx, y), func() { a.Set(bx, y, -77) }},
		{fmt.Sprintf("Set(%d,%d)", x, by), func() { a.Set(x, by, -77) }},
		{fmt.Sprintf("Row(%d)", by), func() { a.Row(by) }},
		{fmt.Sprintf("RowSpan(%d,%d,%d)", bx, z, y), func() { a.RowSpan(bx, z, y) }},
		{fmt.Sprintf("RowSpan(%d,%d,%d)", z, bx, y), func() { a.RowSpan(z, bx, y) }},
		{fmt.Sprintf("RowSpan(%d,%d,%d)", x, z, by), func() { a.RowSpan(x, z, by) }},
		{fmt.Sprintf("Fill(%d,%d,%d,%d)", bx, y, z, zy), func() { a.Fill(bx, y, z, zy, -77) }},
		{fmt.Sprintf("Fill(%d,%d,%d,%d)", x, by, z, zy), func() { a.Fill(x, by, z, zy, -77) }},
		{fmt.Sprintf("Fill(%d,%d,%d,%d)", x, y, bx, zy), func() { a.Fill(x, y, bx, zy, -77) }},
		{fmt.Sprintf("Fill(%d,%d,%d,%d)", x, y, z, by), func() { a.Fill(x, y, z, by, -77) }},
	} {
		if Panics(q.fn) == nil {
			return errf(i, o, "%dx%d: %s is out of bounds and did not panic", w, h, q.what)
		}
	}
	r.Label("oob")
	return nil
}

func init() {
	bigList := func() []Case {
		var out []Case
		for _, per := range []int64{0, 2, 7, 8} {
			n := int64(3000)
			if per == 0 {
				n = 700
			}
			front := n / 2
			if per == 8 {
				n = 70_000 // more than 16 bits can count
			}
			c := Case{Cfg: map[string]int64{"per": per}, Ops: []Op{{N: "pushBackRange", B: exactly(n)}, {N: "pushFrontRange", B: exactly(front)}}}
			for i := int64(0); i < 12; i++ {
				c.Ops = append(c.Ops, Op{N: []string{"addAfter", "addBefore", "removeAt"}[i%3], A: Mix(i) % 4096, B: 3}, Op{N: "next", B: i}, Op{N: "iterRemove"}, Op{N: "iterAddBefore"})
			}
			out = append(out, c)
		}
		return out
	}
	ua := func(g *G) Op { return Op{A: g.Uniform(1 << 16), B: g.Uniform(1 << 10), C: g.Uniform(9)} }
	seq := []Spec{{"pushBack", 6, ua}, {"pushFront", 6, ua}, {"pushBackRange", 1, ua}, {"pushFrontRange", 1, ua}, {"addAfter", 6, ua}, {"addBefore", 6, ua}, {"removeAt", 8, ua}}
	Register(&Prop{
		ID: "C27", Quick: 135000, Thorough: 3000000, Fixed: bigList,
		Rule: "random PushBack/PushFront/AddAfter/AddBefore/Remove histories on unrolled lists with 1-256 entries per block (positions biased to both ends and block borders) against a plain slice; Size and both iteration directions compared after every step; non-trivial: a list of more than three blocks saw additions through an iterator and removals",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"per": g.Uniform(9), "vals": g.Uniform(8)}, Ops: g.History(seq, 5)}
		},
		Run: func(c Case, r *Rec) error { return runUlist(c, r, false) },
	})
	its := append(append([]Spec{}, seq...), Spec{"begin", 2, ua}, Spec{"end", 2, ua}, Spec{"next", 7, ua}, Spec{"prev", 7, ua}, Spec{"iterAddAfter", 5, ua}, Spec{"iterAddBefore", 5, ua}, Spec{"iterRemove", 7, ua})
	Register(&Prop{
		ID: "C28", Quick: 135000, Thorough: 3000000, Fixed: bigList,
		Rule: "the same histories plus one iterator that is moved (past both ends and back), added through and removed through; its position is modelled as an index in -1..n and compared after every move, also on empty lists; non-trivial: the surviving iterator changed a list of more than three blocks",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"per": g.Uniform(9), "vals": g.Uniform(8)}, Ops: g.History(its, 6)}
		},
		Run: func(c Case, r *Rec) error { return runUlist(c, r, true) },
	})
	ga := func(g *G) Op { return Op{A: g.Uniform(1 << 20), B: g.Uniform(1 << 20), C: g.Uniform(1 << 12)} }
	cfg := func(g *G) map[string]int64 {
		c := map[string]int64{"w": g.Uniform(10), "h": g.Uniform(10), "ctor": g.Uniform(3), "fill": g.Uniform(1000), "rows": g.Uniform(20), "big": g.Uniform(12)}
		return c
	}
	for _, oob := range []bool{false, true} {
		oob := oob
		id, rule, wt := "C29", "random Set/Fill/RowSpan/Row/Copy histories on arrays of 0-9 x 0-9 (sometimes to 82 x 28) made by New, NewFilled and OfJagged (rows too many, too long, missing), against a plain slice of rows; every cell, row and the string compared after every step; non-trivial: a non-square array was written by Set and by a region operation", 0
		if oob {
			id, rule, wt = "C30", "the same histories interleaved with calls of every accessor with a coordinate just outside, far outside or at the integer limits; each call must panic and leave every cell unchanged; non-trivial: such calls on a non-square array", 6
		}
		Register(&Prop{
			ID: id, Quick: 75000, Thorough: 2830000, Rule: rule,
			Fixed: func() []Case {
				var out []Case
				for i, n := range []int64{1_5000, 5000_0001, 200_0301, 97_0256, 1000_0002, 33_1025, 2_9999, 9999_0001} {
					for ctor := int64(0); ctor < 3; ctor++ {
						out = append(out, Case{Cfg: map[string]int64{"shape": n, "ctor": ctor, "fill": 3 + ctor, "rows": n / 9000}, Ops: []Op{
							{N: "fill", A: 1 + 900<<10, B: 1<<10 | 90, C: 7}, {N: "set", A: 255 + int64(i), B: 77, C: 5}, {N: "fill", A: 4999<<10 | 3, B: 4990<<10 | 2, C: 9}, {N: "copy"},
							{N: "span", A: 250 | 12<<10, B: 31, C: 4}, {N: "oob", A: 16 * n, B: 17 * n, C: n}, {N: "row", A: 5 | 200<<10, B: 96, C: 9}}})
					}
				}
				return out
			},
			Gen: func(g *G) Case {
				return Case{Cfg: cfg(g), Ops: g.History([]Spec{{"set", 8, ga}, {"fill", 4, ga}, {"span", 4, ga}, {"row", 3, ga}, {"copy", 2, ga}, {"oob", wt, ga}}, 3)}
			},
			Run: func(c Case, r *Rec) error { return runGrid(c, r, oob) },
		})
	}
}
