package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/stack"
	. "verif/harness/pbt"
)

type kv struct {
	k string
	v int64
}

func (e kv) String() string { return fmt.Sprintf("%s=%d", e.k, e.v) }

// runCacheScale drives a cache of more entries than 16 bits can count. The
// model is a queue of (key, time of use), where entries used again later are
// skipped, so that every operation takes constant time.
func runCacheScale(c Case, r *Rec) error {
	capacity := bulk(c.Cfg["scale"], 1000)
	if c.Cfg["scale"] == -1 { // never full
		capacity = math.MaxInt
	}
	t := cache.New[int64, int64](capacity)
	type use struct{ k, time int64 }
	type entry struct{ v, time int64 }
	var order []use // oldest first, with stale entries
	model := map[int64]entry{}
	now := int64(0)
	touch := func(k, v int64) {
		now++
		model[k] = entry{v, now}
		order = append(order, use{k, now})
	}
	var calls, want []int64
	id, other := 1, 0
	set := func(n int) {
		t.SetEvictCallback(func(k, v int64) {
			calls = append(calls, k, v)
			if n != id {
				other++
			}
		})
	}
	set(1)
	evictTo := func(n int) {
		for len(model) > n {
			u := order[0]
			order = order[1:]
			if e, ok := model[u.k]; ok && e.time == u.time {
				want = append(want, u.k, e.v)
				delete(model, u.k)
			}
		}
	}
	put := func(k, v int64) {
		t.Put(k, v)
		if _, ok := model[k]; !ok {
			if capacity == 0 {
				return
			}
			evictTo(capacity - 1)
		}
		touch(k, v)
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		calls, want = nil, nil
		switch o.N {
		case "put":
			put(o.A, o.B)
		case "putRange":
			for _, a := range pattern(o.A, bulk(o.B, 1000), o.C) {
				put(a, a^o.C)
			}
		case "getRange":
			for _, a := range pattern(o.A, bulk(o.B, 1000), o.C) {
				v, ok := t.Get(a)
				e, wok := model[a]
				if ok != wok || ok && v != e.v {
					return errf(i, o, "Get(%d) = %s, want %s", a, fmtVal(v, ok), fmtVal(e.v, wok))
				}
				if ok {
					touch(a, v)
				}
			}
		case "removeRange": // the callback may or may not be told
			t.SetEvictCallback(nil)
			for _, a := range pattern(o.A, bulk(o.B, 1000), o.C) {
				t.Remove(a)
				delete(model, a)
			}
			id++
			set(id)
		case "setCallback":
			if id++; o.A == 0 {
				t.SetEvictCallback(nil)
				id = 0
			} else {
				set(id)
			}
		case "resize":
			capacity = int(o.A)
			t.Resize(capacity)
			evictTo(capacity)
		}
		if id == 0 {
			want = nil
		}
		if other > 0 {
			return errf(i, o, "a callback was called after another was set")
		}
		if t.Size() != len(model) || t.Capacity() != capacity {
			return errf(i, o, "Size(), Capacity() = %d, %d; want %d, %d", t.Size(), t.Capacity(), len(model), capacity)
		}
		if !sameInts(calls, want) {
			return errf(i, o, "the callback was called for %d entries, want %d (or in another order)", len(calls)/2, len(want)/2)
		}
		r.LabelIf(len(want) > 0, "displaced")
		r.LabelIf(len(model) > 1<<16, "size>65536")
		n, last := 0, now+1
		var bad error
		t.Each(func(k, v int64) {
			n++
			e, ok := model[k]
			if bad == nil && (!ok || e.v != v || e.time >= last) {
				bad = errf(i, o, "Each visits %d=%d as entry %d: absent, with another value, or in the wrong place", k, v, n)
			}
			last = e.time
		})
		if bad != nil {
			return bad
		}
		if n != len(model) {
			return errf(i, o, "Each visits %d entries, want %d", n, len(model))
		}
	}
	if r.Has("displaced") {
		r.NonTrivial()
	}
	return nil
}

// runCache checks the LRU contents (C14) and the eviction callback (C15).
func runCache(c Case, r *Rec, callbacks bool) error {
	if c.Cfg["scale"] != 0 {
		return runCacheScale(c, r)
	}
	capacity := Mod(c.Cfg["cap"], 9)
	if Mod(c.Cfg["big"], 5) == 1 {
		capacity += 60
	}
	huge := c.Cfg["huge"] != 0
	if huge {
		capacity = 3000
	}
	exact := c.Cfg["cap"] >= bulkExact
	if exact {
		capacity = bulk(c.Cfg["cap"], 1)
	}
	t := cache.New[string, int64](capacity)
	var model []kv // most recently used first
	find := func(k string) int {
		for i, e := range model {
			if e.k == k {
				return i
			}
		}
		return -1
	}
	front := func(i int) {
		e := model[i]
		copy(model[1:i+1], model[:i])
		model[0] = e
	}
	type call struct {
		kv
		cb int
	}
	var calls []call // callback invocations since the last step
	var cbErr error
	curCb := 0
	evictions := 0
	look := c.Cfg["look"]
	setCb := func(id int, what string) {
		t.SetEvictCallback(func(k string, v int64) {
			calls = append(calls, call{kv{k, v}, id})
			if cbErr != nil || what == "remove" {
				return
			}
			// invoked before the entry is evicted: it can still be looked up.
			// Only lookups that leave the order of the rest alone.
			switch Mod(look, 4) {
			case 1:
				if got, ok := t.Get(k); !ok || got != v {
					cbErr = fmt.Errorf("in the callback for %s=%d, Get(%s) = %s", k, v, k, fmtVal(got, ok))
				}
			case 2:
				if _, ok := t.Get("no such key"); ok {
					cbErr = fmt.Errorf("in the callback, Get of an absent key succeeds")
				}
			case 3:
				seen := false
				t.Each(func(k2 string, v2 int64) { seen = seen || k2 == k && v2 == v })
				if !seen {
					cbErr = fmt.Errorf("in the callback for %s=%d, Each does not visit it", k, v)
				}
			}
		})
	}
	step := func(i int, o Op, want []kv, optional string) error {
		if cbErr != nil {
			return errf(i, o, "%v", cbErr)
		}
		if callbacks {
			if curCb == 0 {
				want = nil
			}
			got := calls
			if optional != "" && len(got) == 1 && got[0].k == optional && curCb != 0 {
				got = nil // Remove may or may not report the entry it removes
			}
			if len(got) != len(want) {
				return errf(i, o, "%d callbacks %v, want %v", len(calls), calls, want)
			}
			for j := range want {
				if got[j].kv != want[j] {
					return errf(i, o, "callback %d for %v, want %v", j, got[j].kv, want[j])
				}
				if got[j].cb != curCb {
					return errf(i, o, "callback number %d was called, number %d is set", got[j].cb, curCb)
				}
			}
			if len(want) > 0 {
				r.Label("callback")
				r.LabelIf(len(want) > 1, "callback-many")
			}
		}
		calls = nil
		return nil
	}
	obs := func(i int, o Op) error {
		if t.Size() != len(model) {
			return errf(i, o, "Size() = %d, want %d", t.Size(), len(model))
		}
		if t.Capacity() != capacity {
			return errf(i, o, "Capacity() = %d, want %d", t.Capacity(), capacity)
		}
		if t.Size() > capacity {
			return errf(i, o, "Size() = %d exceeds Capacity() = %d", t.Size(), capacity)
		}
		var got []kv
		t.Each(func(k string, v int64) { got = append(got, kv{k, v}) })
		if len(got) != len(model) {
			return errf(i, o, "Each gives %v, want %v", trunc(fmt.Sprint(got)), trunc(fmt.Sprint(model)))
		}
		for j := range got {
			if got[j] != model[j] {
				return errf(i, o, "Each gives %v, want %v", trunc(fmt.Sprint(got)), trunc(fmt.Sprint(model)))
			}
		}
		return nil
	}
	evictTo := func(n int) (out []kv) {
		for len(model) > n {
			e := model[len(model)-1]
			out = append(out, e)
			model = model[:len(model)-1]
			evictions++
		}
		return
	}
	dom := 14
	if capacity > 50 {
		dom = 90
	}
	if huge {
		dom = 5000
	}
	if exact {
		dom = 1 << 20
	}
	for i, o := range c.Ops {
		r.Turn()
		k := orEmpty(int64(Mod(o.A, dom)))
		var want []kv
		optional := ""
		switch o.N {
		case "put":
			j := find(k)
			t.Put(k, o.B)
			if j >= 0 {
				model[j].v = o.B
				front(j)
				r.Label("update")
				break
			}
			if capacity == 0 {
				r.Label("put-capacity-0")
				break // nothing can be stored
			}
			want = evictTo(capacity - 1)
			model = append([]kv{{k, o.B}}, model...)
			r.LabelIf(len(want) > 0, "displaced")
		case "putRange":
			for _, a := range pattern(o.A, bulk(o.B, 30), o.C) {
				k := orEmpty(int64(Mod(a, dom)))
				j := find(k)
				t.Put(k, a)
				if j >= 0 {
					model[j].v = a
					front(j)
				} else if capacity > 0 {
					want = append(want, evictTo(capacity-1)...)
					model = append([]kv{{k, a}}, model...)
				}
			}
		case "get":
			j := find(k)
			v, ok := t.Get(k)
			if ok != (j >= 0) || ok && v != model[j].v {
				return errf(i, o, "Get(%s) = %s, cache is %v", k, fmtVal(v, ok), trunc(fmt.Sprint(model)))
			}
			if ok {
				r.LabelIf(j > 0, "get-moves")
				front(j)
			} else {
				r.Label("get-miss")
			}
		case "remove":
			j := find(k)
			if callbacks && curCb != 0 {
				setCb(curCb, "remove")
			}
			t.Remove(k)
			if callbacks && curCb != 0 {
				setCb(curCb, "")
			}
			if j >= 0 {
				model = append(model[:j:j], model[j+1:]...)
				r.Label("remove-hit")
				optional = k
			}
		case "resize":
			n := Mod(o.A, 10)
			if exact {
				n = int(o.A)
			} else if dom > 50 && Mod(o.B, 2) == 0 {
				n += 55
			}
			if huge && Mod(o.B, 3) > 0 {
				n = Mod(o.A, 5000)
			}
			before := len(model)
			t.Resize(n)
			capacity = n
			want = evictTo(n)
			r.LabelIf(len(model) < before, "shrink-evicts")
			r.LabelIf(n == 0, "resize-0")
			r.LabelIf(n > before, "grow")
		case "setCallback":
			if !callbacks {
				break
			}
			if Mod(o.A, 4) == 0 {
				t.SetEvictCallback(nil)
				curCb = 0
				r.Label("nil-callback")
			} else {
				r.LabelIf(curCb != 0, "replaced-callback")
				curCb = i + 1
				look = o.B
				setCb(curCb, "")
			}
		}
		if err := step(i, o, want, optional); err != nil {
			return err
		}
		if err := obs(i, o); err != nil {
			return err
		}
	}
	if callbacks {
		if r.Has("callback") {
			r.NonTrivial()
		}
	} else if evictions > 1 && r.Has("get-moves") {
		r.NonTrivial()
	}
	return nil
}

// runBimap checks a family of bimaps and copies against bijections.
func runBimap(c Case, r *Rec) error {
	type member struct {
		m    *bimap.Bimap[int64, string]
		fwd  map[int64]string
		back map[string]int64
	}
	dom := 16
	if n := c.Cfg["wide"]; n != 0 {
		dom = max(6000, int(n)) | 1 // coprime with 2
		if dom%3 == 0 {
			dom += 2
		}
	}
	val := func(b int64) string { return orEmpty(int64(Mod(b, dom))) }
	add := func(r *Rec, x *member, k int64, v string) {
		oldV, hadK := x.fwd[k]
		oldK, hadV := x.back[v]
		r.LabelIf(hadK && oldV != v, "key-collision")
		r.LabelIf(hadV && oldK != k, "value-collision")
		r.LabelIf(hadK && hadV && oldK != k, "double-collision")
		r.LabelIf(hadK && oldV == v, "same-pair")
		x.m.Add(k, v)
		if hadK {
			delete(x.back, oldV)
		}
		if hadV {
			delete(x.fwd, oldK)
		}
		x.fwd[k], x.back[v] = v, k
	}
	var nilMap *bimap.Bimap[int64, string]
	if n := nilMap.Len(); n != 0 {
		return fmt.Errorf("Len() of a nil bimap = %d", n)
	}
	f0 := &member{fwd: map[int64]string{}, back: map[string]int64{}}
	if n := Mod(c.Cfg["of"], 12); n > 0 {
		src := map[int64]string{}
		vals := map[string]bool{}
		for j, a := range pattern(c.Cfg["of"], n, c.Cfg["of"]/12) {
			src[a] = val(a + int64(j*Mod(c.Cfg["dup"], 3)))
			vals[src[a]] = true
		}
		m := bimap.Of(src)
		f0.m = &m
		m.Each(func(k int64, v string) { f0.fwd[k] = v; f0.back[v] = k })
		r.LabelIf(len(vals) < len(src), "of-colliding")
		// which of the colliding keys survives is not specified
		if len(f0.fwd) != len(vals) || len(f0.back) != len(vals) {
			return fmt.Errorf("Of(%v) holds %v", src, f0.fwd)
		}
		for k, v := range f0.fwd {
			if src[k] != v {
				return fmt.Errorf("Of(%v) holds %v", src, f0.fwd)
			}
		}
		src[-1] = "changed" // the argument is not retained
	} else {
		f0.m = &bimap.Bimap[int64, string]{} // the zero value is ready to use
		r.Label("zero-value")
	}
	fam := []*member{f0}
	check := func(i int, o Op, x *member) error {
		if x.m.Len() != len(x.fwd) {
			return errf(i, o, "Len() = %d, want %d", x.m.Len(), len(x.fwd))
		}
		n := 0
		var bad error
		x.m.Each(func(k int64, v string) {
			if w, ok := x.fwd[k]; !ok || w != v {
				bad = errf(i, o, "Each visits %d=%s; the map is %v", k, v, x.fwd)
			}
			n++
		})
		if bad != nil {
			return bad
		}
		if n != len(x.fwd) {
			return errf(i, o, "Each visits %d pairs, want %d", n, len(x.fwd))
		}
		for k := int64(-1); k < 18; k++ {
			w, wok := x.fwd[k]
			v, ok := x.m.GetForward(k)
			if ok != wok || ok && v != w || x.m.ContainsForward(k) != wok {
				return errf(i, o, "GetForward(%d) = %q, %v, ContainsForward = %v; the map is %v", k, v, ok, x.m.ContainsForward(k), x.fwd)
			}
			s := orEmpty(k)
			wk, wok := x.back[s]
			gk, ok := x.m.GetReverse(s)
			if ok != wok || ok && gk != wk || x.m.ContainsReverse(s) != wok {
				return errf(i, o, "GetReverse(%s) = %d, %v, ContainsReverse = %v; the map is %v", s, gk, ok, x.m.ContainsReverse(s), x.fwd)
			}
		}
		for k, w := range x.fwd {
			if v, ok := x.m.GetForward(k); !ok || v != w || !x.m.ContainsForward(k) {
				return errf(i, o, "GetForward(%d) = %q, %v, ContainsForward = %v, want %q", k, v, ok, x.m.ContainsForward(k), w)
			}
			if g, ok := x.m.GetReverse(w); !ok || g != k || !x.m.ContainsReverse(w) {
				return errf(i, o, "GetReverse(%s) = %d, %v, ContainsReverse = %v, want %d", w, g, ok, x.m.ContainsReverse(w), k)
			}
		}
		return nil
	}
	if err := check(-1, Op{N: "init"}, f0); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		x := fam[Mod(o.C, len(fam))]
		k, v := int64(Mod(o.A, dom)), val(o.B)
		switch o.N {
		case "add":
			add(r, x, k, v)
		case "addRange":
			for j := 0; j < bulk(o.B, 30); j++ {
				add(r, x, int64(Mod(o.A+int64(j), dom)), val(Mix(o.A+int64(j))))
			}
		case "addSeq": // without collisions
			for j := 0; j < bulk(o.B, 30); j++ {
				add(r, x, int64(Mod(o.A+int64(j), dom)), val(o.A+3*int64(j)))
			}
		case "removeRange":
			for j := 0; j < bulk(o.B, 30); j++ {
				k, v := int64(Mod(o.A+int64(3*j), dom)), val(o.A+int64(j))
				x.m.RemoveForward(k)
				if old, ok := x.fwd[k]; ok {
					delete(x.back, old)
					delete(x.fwd, k)
				}
				x.m.RemoveReverse(v)
				if old, ok := x.back[v]; ok {
					delete(x.fwd, old)
					delete(x.back, v)
				}
			}
		case "removeForward":
			x.m.RemoveForward(k)
			if old, ok := x.fwd[k]; ok {
				delete(x.back, old)
				delete(x.fwd, k)
				r.Label("remove-hit")
			}
		case "removeReverse":
			x.m.RemoveReverse(v)
			if old, ok := x.back[v]; ok {
				delete(x.fwd, old)
				delete(x.back, v)
				r.Label("remove-hit")
			}
		case "clear":
			x.m.Clear()
			x.fwd, x.back = map[int64]string{}, map[string]int64{}
		case "copy":
			m := x.m.Copy()
			n := &member{&m, map[int64]string{}, map[string]int64{}}
			for k, v := range x.fwd {
				n.fwd[k], n.back[v] = v, k
			}
			r.LabelIf(len(x.fwd) > 0, "copy-nonempty")
			if len(fam) < 4 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
		}
		for _, y := range fam {
			if err := check(i, o, y); err != nil {
				return err
			}
		}
	}
	if r.Has("double-collision") || r.Has("key-collision", "value-collision") {
		r.NonTrivial()
	}
	return nil
}

// runList drives two linked lists and nodes that move between them.
func runList(c Case, r *Rec) error {
	type node = list.Node[int64]
	lists := []*list.List[int64]{list.New[int64](), {}}
	models := [2][]*node{}
	var free []*node
	vals := map[*node]int64{}
	count, next := int64(0), int64(0)
	advance := func() { count++; next = shade(c.Cfg["vals"], count) }
	fresh := func(o Op) *node {
		if len(free) > 0 && Mod(o.C, 2) == 0 { // reuse a removed node, links stale
			j := Mod(o.B, len(free))
			n := free[j]
			free = append(free[:j:j], free[j+1:]...)
			r.Label("reused-node")
			return n
		}
		advance()
		n := &node{Value: next}
		vals[n] = next
		return n
	}
	insert := func(w, at int, n *node) {
		m := append([]*node(nil), models[w][:at]...)
		m = append(m, n)
		models[w] = append(m, models[w][at:]...)
	}
	check := func(i int, o Op) error {
		for w, l := range lists {
			m := models[w]
			if len(m) == 0 {
				if l.Front != nil || l.Back != nil {
					return errf(i, o, "list %d is empty but Front, Back = %v, %v", w, l.Front, l.Back)
				}
			} else if l.Front != m[0] || l.Back != m[len(m)-1] {
				return errf(i, o, "list %d: Front or Back is not the first or last node", w)
			}
			for j, n := range m {
				if n.Value != vals[n] {
					return errf(i, o, "list %d: node %d has value %d, want %d", w, j, n.Value, vals[n])
				}
				var p, q *node
				if j > 0 {
					p = m[j-1]
				}
				if j+1 < len(m) {
					q = m[j+1]
				}
				if n.Prev != p || n.Next != q {
					return errf(i, o, "list %d: node %d of %d has a wrong Prev or Next", w, j, len(m))
				}
			}
			// the iterators, from every end and from a node in the middle
			starts := []int{0, len(m) - 1, len(m) / 2}
			for _, s := range starts {
				var n *node
				var after, before []*node
				if len(m) > 0 {
					n = m[s]
					after = m[s:]
					for j := s; j >= 0; j-- {
						before = append(before, m[j])
					}
				}
				var a, b []*node
				var av, bv []int64
				n.EachNode(func(x *node) { r.Step(); a = append(a, x) })
				n.EachReverseNode(func(x *node) { r.Step(); b = append(b, x) })
				n.Each(func(v int64) { r.Step(); av = append(av, v) })
				n.EachReverse(func(v int64) { r.Step(); bv = append(bv, v) })
				if !sameNodes(a, after) || !sameVals(av, after) {
					return errf(i, o, "list %d: forward iteration from node %d gives %v, want %d nodes", w, s, av, len(after))
				}
				if !sameNodes(b, before) || !sameVals(bv, before) {
					return errf(i, o, "list %d: backward iteration from node %d gives %v, want %d nodes", w, s, bv, len(before))
				}
			}
		}
		return nil
	}
	if err := check(-1, Op{N: "new"}); err != nil {
		return err
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		w := Mod(o.A, 2)
		l, m := lists[w], models[w]
		at := 0
		if len(m) > 0 {
			at = Mod(o.A>>1, len(m))
		}
		switch o.N {
		case "pushBack":
			advance()
			l.PushBack(next)
			if l.Back == nil {
				return errf(i, o, "Back is nil after PushBack")
			}
			vals[l.Back] = next
			for _, n := range m {
				if n == l.Back {
					return errf(i, o, "PushBack added no node at the back")
				}
			}
			insert(w, len(m), l.Back)
		case "pushFront":
			advance()
			l.PushFront(next)
			if l.Front == nil {
				return errf(i, o, "Front is nil after PushFront")
			}
			vals[l.Front] = next
			for _, n := range m {
				if n == l.Front {
					return errf(i, o, "PushFront added no node at the front")
				}
			}
			insert(w, 0, l.Front)
		case "pushBackRange":
			for k := bulk(o.B, 40); k > 0; k-- {
				advance()
				n := &node{Value: next}
				vals[n] = next
				l.PushBackNode(n)
				models[w] = append(models[w], n)
			}
		case "pushBackNode":
			n := fresh(o)
			l.PushBackNode(n)
			insert(w, len(m), n)
		case "pushFrontNode":
			n := fresh(o)
			l.PushFrontNode(n)
			insert(w, 0, n)
		case "insertAfter", "insertBefore":
			if len(m) == 0 {
				break
			}
			n := fresh(o)
			var got *node
			if o.N == "insertAfter" {
				got = l.InsertAfter(m[at], n)
				insert(w, at+1, n)
			} else {
				got = l.InsertBefore(m[at], n)
				insert(w, at, n)
			}
			if got != n {
				return errf(i, o, "returned a node other than the added one")
			}
			r.Label("insert")
			r.LabelIf(at == 0 || at == len(m)-1, "insert-at-end")
		case "remove", "removeEnd":
			if len(m) == 0 {
				break
			}
			if o.N == "removeEnd" {
				at = Mod(o.B, 2) * (len(m) - 1)
			}
			n := m[at]
			l.Remove(n)
			models[w] = append(append([]*node(nil), m[:at]...), m[at+1:]...)
			free = append(free, n)
			r.Label("remove")
			r.LabelIf(len(m) == 1, "remove-last-node")
		case "move": // remove and re-insert, as the cache does
			if len(m) == 0 {
				break
			}
			n := m[at]
			l.Remove(n)
			models[w] = append(append([]*node(nil), m[:at]...), m[at+1:]...)
			d := Mod(o.B>>1, 2)
			if Mod(o.B, 2) == 0 {
				lists[d].PushFrontNode(n)
				insert(d, 0, n)
			} else {
				lists[d].PushBackNode(n)
				insert(d, len(models[d]), n)
			}
			r.Label("move")
		}
		if err := check(i, o); err != nil {
			return err
		}
	}
	if r.Has("remove") && (r.Has("insert") || r.Has("move")) {
		r.NonTrivial()
	}
	return nil
}

func sameNodes(a, b []*list.Node[int64]) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVals(a []int64, b []*list.Node[int64]) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i].Value {
			return false
		}
	}
	return true
}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type namedSlice []int64

func runQueue(c Case, r *Rec) error {
	type member struct {
		q     *queue.Queue[int64]
		model []int64
	}
	first := &member{}
	if n := Mod(c.Cfg["of"], 12); n > 0 {
		src := namedSlice(pattern(c.Cfg["of"], n, 2))
		first.model = append(first.model, src...)
		first.q = queue.Of(src)
		for i := range src { // the queue holds its own copy
			src[i] = -1
		}
	} else {
		first.q = queue.New[int64]()
	}
	fam := []*member{first}
	count, next := int64(1<<40), int64(0)
	advance := func() { count++; next = shade(c.Cfg["vals"], count) }
	check := func(i int, o Op, x *member) error {
		if x.q.Len() != len(x.model) {
			return errf(i, o, "Len() = %d, want %d", x.q.Len(), len(x.model))
		}
		if x.q.Empty() != (len(x.model) == 0) {
			return errf(i, o, "Empty() = %v with %d items", x.q.Empty(), len(x.model))
		}
		v, ok := x.q.TryPeek()
		if ok != (len(x.model) > 0) || ok && v != x.model[0] {
			return errf(i, o, "TryPeek() = %s, queue is %v", fmtVal(v, ok), x.model)
		}
		if ok {
			if p := x.q.Peek(); p != v {
				return errf(i, o, "Peek() = %d, TryPeek() = %d", p, v)
			}
		}
		if all := x.q.PeekAll(); !sameInts(all, x.model) {
			return errf(i, o, "PeekAll() = %v, want %v", all, x.model)
		} else {
			for j := range all { // the caller owns the result
				all[j] = -2
			}
		}
		var each []int64
		x.q.Each(func(v int64) { r.Step(); each = append(each, v) })
		if !sameInts(each, x.model) {
			return errf(i, o, "Each gives %v, want %v", each, x.model)
		}
		return nil
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		x := fam[Mod(o.C>>8, len(fam))]
		empty := len(x.model) == 0
		switch o.N {
		case "enqueue":
			advance()
			x.q.Enqueue(next)
			x.model = append(x.model, next)
		case "enqueueRange":
			if len(x.model) > 400 && o.B < bulkExact {
				break
			}
			for n := bulk(o.B, 50); n > 0; n-- {
				advance()
				x.q.Enqueue(next)
				x.model = append(x.model, next)
			}
		case "dequeue":
			if empty {
				if Panics(func() { x.q.Dequeue() }) == nil {
					return errf(i, o, "Dequeue of an empty queue did not panic")
				}
				r.Label("dequeue-empty")
				break
			}
			if v := x.q.Dequeue(); v != x.model[0] {
				return errf(i, o, "Dequeue() = %d, want %d", v, x.model[0])
			}
			x.model = x.model[1:]
			r.Label("dequeue")
		case "tryDequeue", "tryDequeueRange":
			n := 1
			if o.N == "tryDequeueRange" {
				n = bulk(o.B, 40)
			}
			for ; n > 0; n-- {
				v, ok := x.q.TryDequeue()
				if ok != (len(x.model) > 0) || ok && v != x.model[0] {
					return errf(i, o, "TryDequeue() = %s, queue is %v", fmtVal(v, ok), x.model)
				}
				if ok {
					x.model = x.model[1:]
					r.Label("dequeue")
					r.LabelIf(len(x.model) == 0, "emptied")
				} else {
					r.Label("dequeue-empty")
				}
			}
		case "dequeueAll":
			all := x.q.DequeueAll()
			if !sameInts(all, x.model) {
				return errf(i, o, "DequeueAll() = %v, want %v", all, x.model)
			}
			x.model = nil
			r.LabelIf(!empty, "emptied")
		case "peek":
			if empty {
				if Panics(func() { x.q.Peek() }) == nil {
					return errf(i, o, "Peek of an empty queue did not panic")
				}
				break
			}
			if v := x.q.Peek(); v != x.model[0] {
				return errf(i, o, "Peek() = %d, want %d", v, x.model[0])
			}
		case "clear":
			x.q.Clear()
			x.model = nil
			r.LabelIf(!empty, "emptied")
		case "copy":
			n := &member{x.q.Copy(), append([]int64(nil), x.model...)}
			r.LabelIf(!empty, "copy-nonempty")
			if len(fam) < 4 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
		}
		r.LabelIf(r.Has("emptied") && len(x.model) > 0, "refilled")
		for _, y := range fam {
			if err := check(i, o, y); err != nil {
				return err
			}
		}
	}
	if r.Has("dequeue") && (r.Has("refilled") || r.Has("copy-nonempty")) {
		r.NonTrivial()
	}
	return nil
}

func runStack(c Case, r *Rec) error {
	type member struct {
		s     *stack.Stack[int64]
		model []int64
	}
	fam := []*member{{s: stack.New[int64]()}}
	count, next := int64(0), int64(0)
	advance := func() { count++; next = shade(c.Cfg["vals"], count) }
	pop := func(i int, o Op, x *member) error {
		v := x.s.Pop()
		if len(x.model) == 0 {
			r.Label("pop-empty")
			if v != 0 {
				return errf(i, o, "Pop() of an empty stack = %d", v)
			}
			return nil
		}
		if want := x.model[len(x.model)-1]; v != want {
			return errf(i, o, "Pop() = %d, want %d", v, want)
		}
		x.model = x.model[:len(x.model)-1]
		r.Label("pop")
		return nil
	}
	for i, o := range c.Ops {
		r.Turn()
		x := fam[Mod(o.C>>8, len(fam))]
		switch o.N {
		case "push", "pushRange":
			n := 1
			if o.N == "pushRange" {
				n = bulk(o.B, 60)
			}
			for ; n > 0; n-- {
				advance()
				x.s.Push(next)
				x.model = append(x.model, next)
			}
		case "pop", "popRange":
			n := 1
			if o.N == "popRange" {
				n = bulk(o.B, 60)
			}
			for ; n > 0; n-- {
				if err := pop(i, o, x); err != nil {
					return err
				}
			}
		case "copy":
			n := &member{x.s.Copy(), append([]int64(nil), x.model...)}
			r.LabelIf(len(x.model) > 0, "copy-nonempty")
			if len(fam) < 4 {
				fam = append(fam, n)
			} else {
				fam[Mod(o.A, len(fam))] = n
			}
		}
		for _, y := range fam {
			if y.s.Size() != len(y.model) {
				return errf(i, o, "Size() = %d, want %d", y.s.Size(), len(y.model))
			}
			want := int64(0)
			if len(y.model) > 0 {
				want = y.model[len(y.model)-1]
			}
			if v := y.s.Peek(); v != want {
				return errf(i, o, "Peek() = %d, want %d", v, want)
			}
		}
		r.LabelIf(len(fam) > 1 && o.N != "copy", "write-with-copies")
		// the elements below the top are seen by popping a copy
		if i == len(c.Ops)-1 {
			for _, y := range fam {
				d := &member{y.s.Copy(), append([]int64(nil), y.model...)}
				for len(d.model) > 0 {
					if err := pop(i, Op{N: "drain"}, d); err != nil {
						return err
					}
				}
				if d.s.Size() != 0 {
					return errf(i, o, "Size() = %d after popping everything", d.s.Size())
				}
			}
			for _, y := range fam {
				for len(y.model) > 0 {
					if err := pop(i, Op{N: "drain"}, y); err != nil {
						return err
					}
				}
				if err := pop(i, Op{N: "drain"}, y); err != nil {
					return err
				}
			}
		}
	}
	if r.Has("pop", "copy-nonempty", "write-with-copies") {
		r.NonTrivial()
	}
	return nil
}

// runMultimap checks contents and counts (C17) or order and the agreement of
// the views (C18) of the four variants.
func runMultimap(c Case, r *Rec, order bool) error {
	variant := Mod(c.Cfg["variant"], 4)
	klessN, vlessN := Mod(c.Cfg["kless"], 3), Mod(c.Cfg["vless"], 3)
	lessOf := func(n int) func(a, b int64) bool {
		switch n {
		case 1:
			return func(a, b int64) bool { r.Step(); return a > b }
		case 2: // by residue, then value
			return func(a, b int64) bool {
				r.Step()
				if Mod(a, 4) != Mod(b, 4) {
					return Mod(a, 4) < Mod(b, 4)
				}
				return a < b
			}
		}
		return func(a, b int64) bool { r.Step(); return a < b }
	}
	kless, vless := lessOf(klessN), lessOf(vlessN)
	var m multimap.MultiMap[int64, int64]
	sortedKeys, isSet := false, false
	switch variant {
	case 0:
		m = multimap.NewMapSlice[int64, int64]()
	case 1:
		m, isSet = multimap.NewMapSet[int64](vless), true
	case 2:
		m, sortedKeys = multimap.NewAvlSlice[int64, int64](kless), true
	case 3:
		m, sortedKeys, isSet = multimap.NewAvlSet(kless, vless), true, true
	}
	r.Label([]string{"MapSlice", "MapSet", "AvlSlice", "AvlSet"}[variant])
	model := map[int64]map[int64]int{} // key -> value -> multiplicity
	total := func() (n int) {
		for _, vs := range model {
			for _, c := range vs {
				n += c
			}
		}
		return
	}
	count := func(k int64) (n int) {
		for _, c := range model[k] {
			n += c
		}
		return
	}
	wantVals := func(k int64, by func(a, b int64) bool) []int64 {
		var out []int64
		for v, c := range model[k] {
			for ; c > 0; c-- {
				out = append(out, v)
			}
		}
		sort.Slice(out, func(i, j int) bool { return by(out[i], out[j]) })
		return out
	}
	plain := func(a, b int64) bool { return a < b }
	// vals compares a list of values of key k; sorted lists must come sorted
	vals := func(i int, o Op, what string, k int64, got []int64) error {
		if isSet && order {
			if want := wantVals(k, vless); !sameInts(got, want) {
				return errf(i, o, "%s for key %d gives %v, want %v in this order", what, k, got, want)
			}
			return nil
		}
		g := append([]int64(nil), got...)
		sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
		if want := wantVals(k, plain); !sameInts(g, want) {
			return errf(i, o, "%s for key %d gives %v, want %v in any order", what, k, got, want)
		}
		return nil
	}
	dom, vdom := Mod(c.Cfg["dom"], 30)+3, 9
	if n := c.Cfg["wide"]; n > 0 {
		dom, vdom = int(n), 4000/int(n)+3
		if v := c.Cfg["vwide"]; v > 0 {
			vdom = int(v)
		}
	}
	check := func(i int, o Op) error {
		if m.Size() != total() {
			return errf(i, o, "Size() = %d, want %d", m.Size(), total())
		}
		if m.Dimension() != len(model) {
			return errf(i, o, "Dimension() = %d, want %d", m.Dimension(), len(model))
		}
		for k := int64(0); k < int64(dom)+1; k++ {
			r.Budget()
			if got, want := m.Count(k), count(k); got != want {
				return errf(i, o, "Count(%d) = %d, want %d", k, got, want)
			}
			if got, want := m.Has(k), count(k) > 0; got != want {
				return errf(i, o, "Has(%d) = %v, want %v", k, got, want)
			}
			if err := vals(i, o, "Get", k, m.Get(k)); err != nil {
				return err
			}
		}
		// Each and EachAssociation
		each, assocVals := map[int64][]int64{}, map[int64][]int64{}
		var keys, assoc []int64
		done := map[int64]bool{}
		var bad error
		m.Each(func(k, v int64) {
			if len(keys) == 0 || keys[len(keys)-1] != k {
				if done[k] && order && bad == nil {
					bad = errf(i, o, "Each visits key %d in two separate runs", k)
				}
				done[k] = true
				keys = append(keys, k)
			}
			each[k] = append(each[k], v)
		})
		m.EachAssociation(func(k int64, vs []int64) {
			assoc = append(assoc, k)
			if order {
				assocVals[k] = append([]int64(nil), vs...)
			}
			if len(vs) == 0 && bad == nil {
				bad = errf(i, o, "EachAssociation visits key %d without values", k)
			}
			if err := vals(i, o, "EachAssociation", k, vs); err != nil && bad == nil {
				bad = err
			}
		})
		r.Budget()
		if bad != nil {
			return bad
		}
		if len(each) != len(model) || len(assoc) != len(model) {
			return errf(i, o, "Each visits %d keys, EachAssociation %d, want %d", len(each), len(assoc), len(model))
		}
		for k := range model {
			if err := vals(i, o, "Each", k, each[k]); err != nil {
				return err
			}
			if !order {
				continue
			}
			if got := m.Get(k); !sameInts(got, each[k]) || !sameInts(assocVals[k], each[k]) {
				return errf(i, o, "the values of key %d come as %v in Get, as %v in Each, as %v in EachAssociation", k, trunc(fmt.Sprint(got)), trunc(fmt.Sprint(each[k])), trunc(fmt.Sprint(assocVals[k])))
			}
		}
		seen := map[int64]bool{}
		for j, k := range assoc {
			if seen[k] || len(model[k]) == 0 {
				return errf(i, o, "EachAssociation visits keys %v", assoc)
			}
			seen[k] = true
			if order && sortedKeys && j > 0 && !kless(assoc[j-1], k) {
				return errf(i, o, "EachAssociation visits keys %v, which are not sorted", assoc)
			}
		}
		if order && sortedKeys {
			for j := range keys {
				if j > 0 && !kless(keys[j-1], keys[j]) {
					return errf(i, o, "Each visits keys %v, which are not sorted", keys)
				}
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		r.Turn()
		r.Budget()
		k, v := int64(Mod(o.A, dom)), int64(Mod(o.B, 7))
		if c.Cfg["every"] != 0 {
			v = int64(Mod(o.B, vdom))
		} else if Mod(o.C, 5) == 0 {
			v = int64(Mod(o.B, 60))
		}
		switch o.N {
		case "put":
			dup := model[k][v] > 0
			r.LabelIf(dup, "duplicate-put")
			m.Put(k, v)
			if model[k] == nil {
				model[k] = map[int64]int{}
			}
			if !dup || !isSet {
				model[k][v]++
			}
		case "putRange", "putSeq":
			for j := 0; j < bulk(o.B, 20); j++ {
				r.Budget()
				k, v := int64(Mod(o.A+int64(j), dom)), int64(Mod(Mix(o.B+int64(j)), vdom))
				if o.N == "putSeq" {
					v = int64(Mod(int64(j), vdom))
				}
				m.Put(k, v)
				if model[k] == nil {
					model[k] = map[int64]int{}
				}
				if model[k][v] == 0 || !isSet {
					model[k][v]++
				}
			}
		case "removeRange":
			for j := 0; j < bulk(o.B, 20); j++ {
				k, v := int64(Mod(o.A+int64(j), dom)), int64(Mod(Mix(o.C+int64(j)), vdom))
				m.Remove(k, v)
				if model[k][v] > 0 {
					if model[k][v]--; model[k][v] == 0 {
						delete(model[k], v)
					}
					if len(model[k]) == 0 {
						delete(model, k)
					}
				}
			}
		case "remove":
			hit := model[k][v] > 0
			r.LabelIf(hit, "remove-hit")
			r.LabelIf(hit && model[k][v] > 1, "remove-one-of-many")
			r.LabelIf(!hit && len(model[k]) > 0, "remove-absent-value")
			m.Remove(k, v)
			if hit {
				if model[k][v]--; model[k][v] == 0 {
					delete(model[k], v)
				}
				if len(model[k]) == 0 {
					delete(model, k)
					r.Label("key-vanishes")
				}
			}
		case "removeAll":
			r.LabelIf(len(model[k]) > 1, "removeAll-many")
			m.RemoveAll(k)
			delete(model, k)
		case "clear":
			m.Clear()
			model = map[int64]map[int64]int{}
		}
		if err := check(i, o); err != nil {
			return err
		}
	}
	if r.Has("remove-hit") && (r.Has("duplicate-put") || r.Has("removeAll-many") || r.Has("key-vanishes")) {
		r.NonTrivial()
	}
	return nil
}

func init() {
	cacheArgs := func(g *G) Op {
		return Op{A: g.Uniform(1 << 16), B: g.Uniform(1<<16) * min(g.Uniform(6), 1), C: g.Uniform(5)}
	}
	cacheCfg := func(g *G) map[string]int64 {
		return map[string]int64{"cap": g.Uniform(9), "big": g.Uniform(5), "look": g.Uniform(4)}
	}
	// thousands of entries
	hugeCache := func() []Case {
		var out []Case
		for i := int64(0); i < 3; i++ {
			c := Case{Cfg: map[string]int64{"huge": 1, "look": i + 1}, Ops: []Op{{N: "setCallback", A: 1, B: i + 1}}}
			for _, n := range []int64{2000, 1000, 600, 4000, 9000} {
				c.Ops = append(c.Ops, Op{N: "putRange", A: n / 3, B: exactly(n), C: (i + n) % 3}, Op{N: "get", A: 7 * i}, Op{N: "get", A: 900 + n/2}, Op{N: "put", A: n, B: 1}, Op{N: "remove", A: n/2 + 3})
			}
			c.Ops = append(c.Ops, Op{N: "resize", A: 4900, B: 1}, Op{N: "putRange", A: 50, B: exactly(4500), C: 1}, Op{N: "resize", A: 2500 + 7*i, B: 1}, Op{N: "putRange", A: 1, B: exactly(700), C: 2}, Op{N: "resize", A: 3, B: 0}, Op{N: "put", A: 9, B: 9})
			out = append(out, c)
		}
		out = append(out, Case{Cfg: map[string]int64{"scale": -1}, Ops: []Op{
			{N: "putRange", B: exactly(3000)}, {N: "getRange", A: 10, B: exactly(500)}, {N: "resize", A: math.MaxInt64 - 1}, {N: "put", A: -1, B: 5}, {N: "resize", A: 2}, {N: "put", A: 1, B: 2}, {N: "resize", A: math.MaxInt64}, {N: "putRange", A: 7, B: exactly(100)}, {N: "resize", A: 1 << 32}, {N: "put", A: 3, B: 2}, {N: "resize", A: 1 << 31}, {N: "put", A: 5, B: 2}, {N: "resize", A: 1 << 16}, {N: "put", A: 6, B: 2}}})
		return append(out, Case{Cfg: map[string]int64{"scale": exactly(70_000)}, Ops: []Op{
			{N: "putRange", B: exactly(69_000)}, {N: "getRange", A: 100, B: exactly(30_000), C: 1}, {N: "putRange", A: 66_000, B: exactly(20_000), C: 2}, {N: "resize", A: 66_000},
			{N: "put", A: -1, B: 5}, {N: "resize", A: 140_000}, {N: "putRange", A: 1000, B: exactly(150_000), C: 0}, {N: "getRange", A: 0, B: exactly(5000), C: 1},
			{N: "removeRange", A: 80_000, B: exactly(40)}, {N: "putRange", A: 7000, B: exactly(30)}, {N: "setCallback", A: 1}, {N: "putRange", A: 8000, B: exactly(30)}, {N: "setCallback"}, {N: "putRange", A: 9000, B: exactly(60)}, {N: "setCallback", A: 1}, {N: "removeRange", A: 90_000, B: exactly(30_000), C: 1},
			{N: "resize", A: 3}, {N: "put", A: 1, B: 2}}})
	}
	cacheSpecs := func(cb int) []Spec {
		return []Spec{{"put", 10, cacheArgs}, {"get", 7, cacheArgs}, {"remove", 3, cacheArgs}, {"resize", 2, cacheArgs}, {"putRange", 1, cacheArgs}, {"setCallback", cb, cacheArgs}}
	}
	Register(&Prop{
		ID: "C14", Quick: 126000, Thorough: 3000000, Fixed: hugeCache,
		Rule: "random histories of Put/Get/Remove/Resize on caches of capacity 0-8 and 60-68 against an ordered-list model; contents, recency order (Each), Size and Capacity compared after every step; non-trivial: two or more entries were displaced and a Get moved an entry to the front",
		Gen:  func(g *G) Case { return Case{Cfg: cacheCfg(g), Ops: g.History(cacheSpecs(0), 8)} },
		Run:  func(c Case, r *Rec) error { return runCache(c, r, false) },
	})
	Register(&Prop{
		ID: "C15", Quick: 126000, Thorough: 3000000, Fixed: hugeCache,
		Rule: "the same histories with eviction callbacks set, replaced and cleared; every invocation recorded and compared (which entries, in which order, by which callback) with the entries the model displaces; callbacks look the victim up through Get and Each; non-trivial: a callback ran",
		Gen: func(g *G) Case {
			c := Case{Cfg: cacheCfg(g), Ops: []Op{{N: "setCallback", A: 1, B: g.Uniform(4)}}}
			c.Ops = append(c.Ops, g.History(cacheSpecs(2), 8)...)
			return c
		},
		Run: func(c Case, r *Rec) error { return runCache(c, r, true) },
	})
	bi := func(g *G) Op { return Op{A: g.Uniform(16), B: g.Uniform(16), C: g.Uniform(4)} }
	Register(&Prop{
		ID: "C16", Quick: 157500, Thorough: 3000000,
		Fixed: func() []Case {
			var out []Case
			for i := int64(0); i < 2; i++ {
				out = append(out, Case{Cfg: map[string]int64{"wide": 1, "of": 5 * i}, Ops: []Op{
					{N: "addRange", A: 2 * i, B: exactly(5000)}, {N: "copy"}, {N: "addRange", A: 1000, B: exactly(4000), C: i}, {N: "removeRange", A: 50, B: exactly(900), C: 1},
					{N: "copy"}, {N: "addRange", A: 77, B: exactly(2500), C: 2}, {N: "removeRange", A: 500, B: exactly(3000), C: 2}, {N: "clear", C: 2}, {N: "add", A: 4, B: 9, C: 2}}})
			}
			out = append(out, Case{Cfg: map[string]int64{"wide": 300_000}, Ops: []Op{
				{N: "addSeq", A: 3, B: exactly(75_000)}, {N: "copy"}, {N: "removeForward", A: 9}, {N: "removeReverse", B: 33}, {N: "add", A: 700, B: 900}, {N: "removeRange", A: 50, B: exactly(900), C: 1}, {N: "copy", C: 1}, {N: "clear"}, {N: "add", A: 4, B: 9}, {N: "clear", C: 1}, {N: "add", A: 5, B: 8, C: 1}}})
			return append(out, Case{Cfg: map[string]int64{"wide": 80_000}, Ops: []Op{
				{N: "addRange", A: 3, B: exactly(75_000)}, {N: "copy"}, {N: "removeRange", A: 50, B: exactly(900)}, {N: "addRange", A: 40_000, B: exactly(20_000), C: 1}, {N: "add", A: 4, B: 9}}})
		},
		Rule: "random histories of Add/RemoveForward/RemoveReverse/Clear/Copy over 16 keys and 16 values, starting from the zero value or Of (with colliding values), families of copies, against a pair of dictionaries compared in both directions after every step; non-trivial: an Add collided with an existing key and with an existing value",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"of": g.Uniform(60), "dup": g.Uniform(3)},
				Ops: g.History([]Spec{{"add", 10, bi}, {"addRange", 1, bi}, {"removeRange", 1, bi}, {"removeForward", 3, bi}, {"removeReverse", 3, bi}, {"clear", 1, bi}, {"copy", 2, bi}}, 6)}
		},
		Run: runBimap,
	})
	mm := func(g *G) Op { return Op{A: g.Uniform(64), B: g.Uniform(1 << 12), C: g.Uniform(100)} }
	mmSpecs := []Spec{{"put", 12, mm}, {"remove", 8, mm}, {"removeAll", 1, mm}, {"clear", 1, mm}, {"putRange", 1, mm}, {"removeRange", 1, mm}}
	for _, ord := range []bool{false, true} {
		ord := ord
		id, rule := "C17", "random histories of Put/Remove/RemoveAll/Clear on the four multimap variants against a multiset model; Size, Dimension, Count, Has, Get, Each, EachAssociation compared as multisets after every step; non-trivial: an entry was removed in a history with a duplicate Put, a RemoveAll of several entries or a key losing its last entry"
		if ord {
			id, rule = "C18", "the same histories with three key orders and three value orders; values of set variants must be sorted in Get, Each and EachAssociation, keys of AVL variants in Each and EachAssociation, and each key's entries contiguous; in all variants Get, Each and EachAssociation must list a key's values in the same order; non-trivial: as for C17"
		}
		Register(&Prop{
			ID: id, Quick: 60000, Thorough: 3000000, Rule: rule,
			Fixed: func() []Case {
				var out []Case
				for i := int64(0); i < 8; i++ { // many keys, or many values for each
					out = append(out, Case{Cfg: map[string]int64{"variant": i % 4, "kless": i % 3, "vless": i % 2, "wide": []int64{700, 3}[i/4]}, Ops: []Op{
						{N: "putRange", A: i, B: exactly(3000)}, {N: "put", A: 5, B: 9, C: 5}, {N: "put", A: 5, B: 9, C: 5}, {N: "remove", A: 5, B: 9, C: 5}, {N: "removeRange", A: 4, B: exactly(2500), C: bulkExact},
						{N: "putRange", A: 7, B: exactly(900)}, {N: "removeAll", A: 1}, {N: "putRange", A: 7, B: exactly(300)}}})
				}
				for i := int64(0); i < 4; i++ { // more than 16 bits can count
					for _, keys := range []int64{80_000, 1} {
						out = append(out, Case{Cfg: map[string]int64{"variant": i, "wide": keys, "vwide": []int64{200_000, 5}[keys/80_000]}, Ops: []Op{
							{N: "putRange", A: i, B: exactly(90_000)}, {N: "put", A: 5, B: 9, C: 5}, {N: "remove", A: 5, B: 9, C: 5}, {N: "removeAll", A: 0}, {N: "put", A: 5, B: 9, C: 5}}})
					}
				}
				return out
			},
			Gen: func(g *G) Case {
				return Case{Cfg: map[string]int64{"variant": g.Uniform(4), "kless": g.Uniform(3), "vless": g.Uniform(3), "dom": g.Pick(0, 1, 3, 9, 29)}, Ops: g.History(mmSpecs, 6)}
			},
			Run: func(c Case, r *Rec) error { return runMultimap(c, r, ord) },
		})
	}
	la := func(g *G) Op { return Op{A: g.Uniform(1 << 10), B: g.Uniform(1 << 10), C: g.Uniform(4)} }
	Register(&Prop{
		ID: "C19", Quick: 162000, Thorough: 3000000,
		Fixed: func() []Case {
			return []Case{{Ops: []Op{{N: "pushBackRange", B: exactly(70_000)}, {N: "move", A: 3000, B: 1}, {N: "remove", A: 9000}, {N: "insertAfter", A: 4001 << 1, B: 1, C: 0}, {N: "removeEnd", B: 1}, {N: "insertBefore", A: 11111 << 1}, {N: "move", A: 800, B: 2}, {N: "removeEnd"}, {N: "pushFront"}}}}
		},
		Rule: "random histories of the node operations on two lists, with nodes removed, reused with stale links and moved between lists, against a model sequence of node identities; Front, Back, every Prev and Next and all four iterators from both ends and the middle compared after every step; non-trivial: a node was removed and another inserted or moved",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"vals": g.Uniform(8)}, Ops: g.History([]Spec{{"pushBack", 4, la}, {"pushFront", 4, la}, {"pushBackRange", 1, la}, {"pushBackNode", 2, la}, {"pushFrontNode", 2, la}, {"insertAfter", 4, la}, {"insertBefore", 4, la}, {"remove", 5, la}, {"removeEnd", 3, la}, {"move", 3, la}}, 5)}
		},
		Run: runList,
	})
	fam := argsFam(func(g *G) Op { return Op{A: g.Uniform(4), B: g.Uniform(60)} })
	Register(&Prop{
		ID: "C20", Quick: 189000, Thorough: 3000000,
		Fixed: func() []Case {
			return []Case{{Ops: []Op{{N: "enqueueRange", B: exactly(80_000)}, {N: "copy"}, {N: "clear"}, {N: "enqueue"}, {N: "dequeueAll", C: 1 << 8}, {N: "enqueue", C: 1 << 8}}}, {Cfg: map[string]int64{"of": 7}, Ops: []Op{{N: "enqueueRange", B: exactly(80_000)}, {N: "copy"}, {N: "tryDequeueRange", B: exactly(15_000)}, {N: "enqueueRange", B: exactly(9000), C: 1 << 8},
				{N: "dequeue"}, {N: "enqueueRange", B: exactly(3000)}, {N: "tryDequeueRange", B: exactly(9000)}, {N: "enqueue"}, {N: "dequeueAll", C: 1 << 8}, {N: "enqueueRange", B: exactly(5000), C: 1 << 8}, {N: "clear", C: 1 << 8}, {N: "enqueue", C: 1 << 8}}}}
		},
		Rule: "random histories over a family of queues (New, Of, copies) against model sequences; Len, Empty, TryPeek, PeekAll, Each compared after every step, Dequeue and Peek of an empty queue must panic and change nothing, results and arguments are overwritten to expose aliasing; non-trivial: something was dequeued and the queue was emptied and refilled, or copied while non-empty",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"of": g.Uniform(40), "vals": g.Uniform(8)}, Ops: g.History([]Spec{{"enqueue", 10, fam}, {"enqueueRange", 1, fam}, {"dequeue", 5, fam}, {"tryDequeue", 4, fam}, {"tryDequeueRange", 1, fam}, {"dequeueAll", 1, fam}, {"peek", 1, fam}, {"clear", 1, fam}, {"copy", 2, fam}}, 5)}
		},
		Run: runQueue,
	})
	Register(&Prop{
		ID: "C21", Quick: 189000, Thorough: 3000000,
		Fixed: func() []Case {
			return []Case{{Ops: []Op{{N: "pushRange", B: exactly(200_000)}, {N: "copy"}, {N: "popRange", B: exactly(150_000)}, {N: "pushRange", B: exactly(70_000), C: 1 << 8}, {N: "pushRange", B: exactly(30_000)}, {N: "popRange", B: exactly(300_000), C: 1 << 8}, {N: "push", C: 1 << 8}}}}
		},
		Rule: "random Push/Pop/Copy histories over a family of stacks that are copies of each other against model sequences; Size and Peek compared after every step, every member drained at the end; non-trivial: a non-empty stack was copied, members were written afterwards and something was popped",
		Gen: func(g *G) Case {
			return Case{Cfg: map[string]int64{"vals": g.Uniform(8)}, Ops: g.History([]Spec{{"push", 10, fam}, {"pop", 8, fam}, {"copy", 4, fam}, {"pushRange", 1, fam}, {"popRange", 1, fam}}, 8)}
		},
		Run: runStack,
	})
}
