package props

import (
	"math"

	. "verif/harness/pbt"
)

// A tour brings a fresh structure to each size of a list, does one thing
// there, and goes on for a few steps: behaviour that changes at one size only
// (a table that is full, a block that is split, a threshold) is met by every
// operation, which random histories meet by luck.

// tourSizes lists every size up to to and both sides of the borders up to far.
func tourSizes(to, far int64) []int64 {
	var out []int64
	for n := int64(0); n <= to; n++ {
		out = append(out, n)
	}
	for _, b := range []int64{10, 15, 16, 20, 24, 28, 30, 31, 32, 40, 48, 50, 56, 60, 63, 64, 80, 90, 96, 99, 100, 110, 112, 120, 125, 128, 150, 160, 192, 200, 224, 250, 255, 256, 300, 320, 384, 400, 448, 500, 511, 512, 600, 640, 700, 750, 768, 800, 896, 900, 999, 1000, 1023, 1024, 1200, 1500, 1536, 1792, 1999, 2000, 2047, 2048, 2500, 3000, 3072, 3584, 4000, 4095, 4096, 5000, 7168, 8191, 8192, 9999, 10000, 14336, 16383, 16384, 20000, 28672, 32767, 32768, 50000, 57344, 65535, 65536} {
		for n := b; n <= b+1; n++ {
			if n > out[len(out)-1] && n <= far {
				out = append(out, n)
			}
		}
	}
	return out
}

// tour makes one case of every size and visit; cfgs take turns. Every step is
// followed by the full comparison.
func tour(cfgs []map[string]int64, sizes []int64, visits func(n int64) [][]Op) []Case {
	var out []Case
	turn := 0
	for _, n := range sizes {
		for _, ops := range visits(n) {
			cfg := map[string]int64{"every": 1}
			for k, v := range cfgs[turn%len(cfgs)] {
				cfg[k] = v
			}
			turn++
			out = append(out, Case{Cfg: cfg, Ops: ops})
		}
		turn++ // sizes and visits shift against the configurations
	}
	return out
}

// more adds cases to the fixed ones of a property.
func more(id string, f func() []Case) {
	p := Get(id)
	before := p.Fixed
	p.Fixed = func() []Case {
		if before == nil {
			return f()
		}
		return append(before(), f()...)
	}
}

func ops(groups ...[]Op) []Op {
	var out []Op
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

func each(start []Op, end []Op, visits ...[]Op) [][]Op {
	var out [][]Op
	for _, v := range visits {
		out = append(out, ops(start, v, end))
	}
	return out
}

func one(name string, abc ...int64) []Op {
	o := Op{N: name}
	for i, x := range abc {
		switch i {
		case 0:
			o.A = x
		case 1:
			o.B = x
		case 2:
			o.C = x
		}
	}
	return []Op{o}
}

// twins are the properties whose cases may have two instances taking turns.
var twins = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C29", "C30"}

func init() {
	for _, id := range twins {
		Get(id).Twin = true
	}
	fill := func(n int64, more ...int64) []Op {
		if n == 0 {
			return nil
		}
		return one("putRange", append([]int64{1000, exactly(n)}, more...)...)
	}
	// dictVisits are the operations of a dictionary of the keys 1000..1000+n-1.
	dictVisits := func(n int64) [][]Op {
		return [][]Op{
			one("put", 5, 77),
			one("put", 1000, 78), one("put", 1000+n-1, 79), one("put", 1000+n/2, 80),
			one("remove", 1000), one("remove", 1000+n-1), one("remove", 1000+n/2), one("remove", 5),
			ops(one("remove", 1000+n/3), one("put", 1000+n/3, 81)),
			one("removeRange", 1000, exactly(n+1), 0), one("removeRange", 1000, exactly(n), 1), one("removeRange", 1000, exactly(n+1), 4),
		}
	}
	hashCfgs := func(h ...int64) []map[string]int64 {
		var out []map[string]int64
		for _, x := range h {
			for key := int64(0); key < 4; key++ {
				out = append(out, map[string]int64{"key": key, "hash": x, "cap": Mod64(x+key*3, 13)})
			}
		}
		return out
	}
	hashTour := func(id string, set, copies bool) {
		more(id, func() []Case {
			visits := func(n int64) [][]Op {
				vs := append(dictVisits(n), one("clear"))
				if !set {
					vs = append(vs, one("drain", 0, 1))
				}
				if copies {
					var with [][]Op
					for i, v := range vs {
						w := append([]Op(nil), v...)
						for j := range w {
							w[j].C |= int64(i%2) << 8 // on the original or on the copy
						}
						with = append(with, ops(one("copy"), w))
					}
					with = append(with, ops(one("copy"), one("clear", 0, 0, 1<<8), one("copy", 0, 0, 1<<8), one("put", 7, 7, 1<<8)))
					if !set {
						with = append(with, one("copyMany", 3, exactly(3)), one("copyMany", 1000, exactly(4)))
					}
					vs = append(vs, with...)
				}
				return each(fill(n, n%3), []Op{{N: "put", A: 6, B: 5}, {N: "remove", A: 1001}, {N: "put", A: 1000, B: 3}}, vs...)
			}
			far := int64(8193)
			if copies {
				far = 2050
			}
			cfgs := hashCfgs(0, 4, 8)
			if set {
				cfgs = nil
				for i, c := range hashCfgs(0, 4, 8) {
					c["impl"] = int64(i % 3)
					cfgs = append(cfgs, c)
				}
			}
			out := tour(cfgs, tourSizes(130, far), visits)
			return append(out, tour(hashCfgs(1, 2, 6, 7, 5, 3), tourSizes(40, 40), visits)...)
		})
	}
	hashTour("C01", false, false)
	hashTour("C02", false, true)
	hashTour("C03", true, true)

	ordCfgs := func() []map[string]int64 {
		var out []map[string]int64
		for i := int64(0); i < 6; i++ {
			out = append(out, map[string]int64{"ord": i})
		}
		return out
	}
	for _, id := range []string{"C06", "C08"} {
		more(id, func() []Case {
			return tour(ordCfgs(), tourSizes(130, 8193), func(n int64) [][]Op {
				return each(fill(n, n%5), []Op{{N: "put", A: 6, B: 5}, {N: "remove", A: 1001}, {N: "put", A: 1000, B: 3}}, dictVisits(n)...)
			})
		})
	}
	for _, id := range []string{"C09", "C10"} {
		more(id, func() []Case {
			var cfgs []map[string]int64
			for i := int64(0); i < 4; i++ {
				cfgs = append(cfgs, map[string]int64{"type": i, "span": 399})
			}
			far := int64(2050)
			if id == "C10" {
				far = 520
			}
			// coordinates are taken modulo 403 and moved down by 134: A = 134
			// stands for 0, and the intervals begin at 10
			at := func(k int64) int64 { return k + 134 }
			return tour(cfgs, tourSizes(100, far), func(n int64) [][]Op {
				var start []Op
				if n > 0 {
					start = one("putRange", at(10), exactly(n), n%5)
				}
				last := int64(10)
				if n > 0 {
					last = min(10+n-1, 200)
				}
				mid := 10 + min(n, 200)/2
				return each(start, []Op{{N: "put", A: at(3), B: 4, C: 3}, {N: "overlaps", A: at(0), B: 300}},
					one("put", at(5), 9, 1), one("put", at(10), 300, 2), one("put", at(last), 0, 2), one("put", at(mid), 100, 2),
					one("add", at(5), 9, 1), one("add", at(mid), 100, 2), one("add", at(last+1), 3, 2),
					one("remove", at(10)), one("remove", at(mid)), one("remove", at(last)), one("remove", at(5)),
					one("invalid", at(mid), 3), one("overlaps", at(mid), 2),
					one("removeRange", at(10), exactly(n+1), 0), one("removeRange", at(10), exactly(n+1), 1))
			})
		})
	}

	word := func(name string, s string, b int64) []Op { return []Op{{N: name, A: 7, B: b, S: Bytes(s)}} }
	for _, id := range []string{"C11", "C12"} {
		more(id, func() []Case {
			far := int64(4097)
			if id == "C12" {
				far = 520
			}
			out := tour([]map[string]int64{{}}, tourSizes(100, far), func(n int64) [][]Op {
				first, last, mid := strKey(1000), strKey(1000+n-1), strKey(1000+n/2)
				return each(fill(n, n%2), ops(word("put", "1rs", 5), word("remove", mid, 0), word("look", "1", 0)),
					word("put", "zz9", 4), word("put", first, 4), word("put", mid, 9), word("put", last+"q", 3), word("put", first[:1], 2), word("put", "", 2),
					word("remove", first, 0), word("remove", last, 0), word("remove", mid, 0), word("remove", "zz", 0), word("remove", first[:1], 0), word("remove", last+"\x00", 0),
					word("drain", "", 0), word("drain", "r", 0), word("look", last+"zzz", 0), word("look", "", 0),
					one("removeRange", 1000, exactly(n+1), 1))
			})
			// and over the length of the keys
			long := make([]byte, 1100)
			for i := range long {
				long[i] = byte(Mix(int64(i)))
			}
			for _, n := range tourSizes(130, 1030) {
				k := string(long[:n])
				flip := []byte(k + "x")
				flip[n/2] ^= 1
				for _, v := range [][]Op{
					word("remove", k, 0), word("put", k, 9), word("look", k+"\xff", 0), word("remove", k[:n/2], 0), word("remove", string(flip), 0), word("put", string(flip), 0), word("put", k[:n/2], 1), word("put", k+"\x00", 1), word("drain", k[:n/3], 0),
				} {
					out = append(out, Case{Cfg: map[string]int64{"every": 1}, Ops: ops(word("put", k, 5), word("put", "w", 6), v, word("look", k[:n/2]+"y", 0), word("put", k+"a", 7), word("remove", k, 8))})
				}
			}
			return out
		})
	}

	more("C13", func() []Case {
		var out []Case
		for _, n := range tourSizes(130, 4097) {
			for v := int64(0); v < 6; v++ {
				cfg := map[string]int64{"ord": (n + v) % 3, "ctor": (n/3 + v) % 3, "init": exactly(n), "seed": 2 * n % 5, "pat": (n + v/2) % 5}
				c := Case{Cfg: cfg, Ops: []Op{
					{N: "push", A: -9}, {N: "push", A: 5000}, {N: "pop"}, {N: "push", A: n / 2}, {N: "popRange", B: exactly(n/2 + 1)}, {N: "popRange", B: exactly(n + 1)}}[v : v+1]}
				c.Ops = append(c.Ops, Op{N: "push", A: 3}, Op{N: "pop"}, Op{N: "push", A: 1})
				out = append(out, c)
			}
		}
		return out
	})

	for _, id := range []string{"C14", "C15"} {
		more(id, func() []Case {
			var out []Case
			for _, n := range tourSizes(70, 1030) {
				var start []Op
				if n > 0 {
					start = one("putRange", 1000, exactly(n))
				}
				for i, v := range [][]Op{
					one("put", 5, 4), one("put", 1000, 4), one("put", 1000+n-1, 4), one("put", 1000+n/2, 4),
					one("get", 1000), one("get", 1000+n-1), one("get", 1000+n/2), one("get", 5),
					one("remove", 1000), one("remove", 1000+n-1), one("remove", 1000+n/2), one("remove", 5),
					one("resize", 0), one("resize", 1), one("resize", max(n-1, 0)), one("resize", n), one("resize", n+1), one("resize", n/2), one("resize", 2*n), one("resize", math.MaxInt32),
					one("setCallback", 0), one("setCallback", 3, 2),
				} {
					for room := int64(0); room < 2; room++ { // full, or with room for one more
						c := Case{Cfg: map[string]int64{"cap": exactly(n + room), "look": int64(i) + n}}
						if id == "C15" {
							c.Ops = one("setCallback", 1, int64(i)+n)
						}
						c.Ops = append(c.Ops, ops(start, v, one("put", 7, 1), one("put", 8, 1), one("resize", n/2), one("put", 1000, 2), one("get", 7))...)
						out = append(out, c)
					}
				}
			}
			return out
		})
	}

	more("C16", func() []Case {
		cfgs := []map[string]int64{{"wide": 20_000}}
		return tour(cfgs, tourSizes(70, 1030), func(n int64) [][]Op {
			var start []Op
			if n > 0 { // 100 -> 100, 101 -> 103, ...
				start = one("addSeq", 100, exactly(n))
			}
			last, mid := n-1, n/2
			vs := [][]Op{
				one("add", 50, 51), one("add", 100, 51), one("add", 50, 100), one("add", 100, 100+3*last), one("add", 100+last, 100), one("add", 100+mid, 100+3*mid), one("add", 100+mid, 100),
				one("removeForward", 100), one("removeForward", 100+last), one("removeForward", 100+mid), one("removeForward", 50),
				one("removeReverse", 0, 100), one("removeReverse", 0, 100+3*last), one("removeReverse", 0, 100+3*mid), one("removeReverse", 0, 51),
				one("clear"), one("copy"),
			}
			for i, v := range vs[:len(vs)-1] {
				w := append([]Op(nil), v...)
				w[0].C = int64(i % 2)
				vs = append(vs, ops(one("copy"), w))
			}
			return each(start, ops(one("add", 60, 61), one("add", 101, 61), one("removeForward", 100)), vs...)
		})
	})

	for _, id := range []string{"C17", "C18"} {
		more(id, func() []Case {
			var out []Case
			for variant := int64(0); variant < 4; variant++ {
				for shape := int64(0); shape < 3; shape++ {
					far := int64(600)
					if shape == 1 {
						far = 1030
					}
					sizes := tourSizes(40, far)
					cfg := map[string]int64{"variant": variant, "kless": (variant + shape) % 3, "vless": shape, "wide": []int64{1100, 1, 3}[shape], "vwide": []int64{5, 1100, 1100}[shape]}
					out = append(out, tour([]map[string]int64{cfg}, sizes, func(n int64) [][]Op {
						var start []Op
						if n > 0 {
							start = one("putSeq", 0, exactly(n))
						}
						last := n - 1
						return each(start, one("put", 0, 3),
							one("put", n, 2000), one("put", 0, 0), one("put", 0, last), one("put", last, last), one("put", last/2, 1),
							one("remove", 0, 0), one("remove", 0, last), one("remove", last, last), one("remove", last/2, last/2), one("remove", 0, 1099), one("remove", 3, last),
							one("removeAll", 0), one("removeAll", last), one("removeAll", n), one("clear"))
					})...)
				}
				// more entries than 16 bits can count, of as many keys or of one
				for wide := int64(1); wide <= 70_000; wide += 69_999 {
					cfg := map[string]int64{"every": 1, "variant": variant, "kless": variant % 3, "vless": (variant + wide) % 3, "wide": wide, "vwide": 70_001 - wide}
					out = append(out, Case{Cfg: cfg, Ops: []Op{
						{N: "putSeq", B: exactly(69_500)}, {N: "put", A: 69_900, B: 69_900}, {N: "removeRange", A: 300, B: exactly(400), C: 9}, {N: "remove", A: 12, B: 12}, {N: "removeAll", A: 69_000}, {N: "putSeq", B: exactly(66_010)}, {N: "clear"}, {N: "put", A: 5, B: 5}}})
				}
			}
			return out
		})
	}

	more("C19", func() []Case {
		return tour([]map[string]int64{{}}, tourSizes(40, 1030), func(n int64) [][]Op {
			var start []Op
			if n > 0 {
				start = one("pushBackRange", 0, exactly(n))
			}
			at := func(p int64) int64 { return max(p, 0) << 1 }
			var vs [][]Op
			for _, name := range []string{"insertAfter", "insertBefore", "remove", "move"} {
				for _, p := range []int64{0, 1, n / 2, n - 2, n - 1} {
					vs = append(vs, one(name, at(p), p%4, 1), one(name, at(p), 1+p%3, 1))
				}
			}
			vs = append(vs, one("pushBack"), one("pushFront"), one("pushBackNode", 0, 0, 1), one("pushFrontNode", 0, 0, 1), one("removeEnd", 0, 0), one("removeEnd", 0, 1))
			return each(start, ops(one("pushFront"), one("removeEnd", 0, 1), one("insertAfter", at(n/2), 0, 0)), vs...)
		})
	})
	more("C20", func() []Case {
		return tour([]map[string]int64{{}}, tourSizes(130, 4097), func(n int64) [][]Op {
			var start []Op
			if n > 0 {
				start = one("enqueueRange", 0, exactly(n))
			}
			return each(start, ops(one("enqueue"), one("dequeue"), one("enqueueRange", 0, exactly(3)), one("tryDequeueRange", 0, exactly(2))),
				one("enqueue"), one("dequeue"), one("tryDequeue"), one("dequeueAll"), one("peek"), one("clear"),
				one("tryDequeueRange", 0, exactly(n/2+1)), one("tryDequeueRange", 0, exactly(n+1)), ops(one("tryDequeueRange", 0, exactly(n+1)), one("enqueueRange", 0, exactly(n+1))),
				ops(one("copy"), one("enqueue")), ops(one("copy"), one("dequeue", 0, 0, 1<<8)), ops(one("copy"), one("clear")), ops(one("copy"), one("dequeueAll", 0, 0, 1<<8)), ops(one("copy"), one("enqueue", 0, 0, 1<<8)))
		})
	})
	more("C21", func() []Case {
		return tour([]map[string]int64{{}}, tourSizes(260, 8193), func(n int64) [][]Op {
			var start []Op
			if n > 0 {
				start = one("pushRange", 0, exactly(n))
			}
			return each(start, ops(one("push"), one("push"), one("pop")),
				one("push"), one("pop"), one("popRange", 0, exactly(n/2+1)), one("popRange", 0, exactly(n+1)), ops(one("popRange", 0, exactly(n+1)), one("pushRange", 0, exactly(n+1))),
				ops(one("copy"), one("push")), ops(one("copy"), one("push", 0, 0, 1<<8)), ops(one("copy"), one("pop")), ops(one("copy"), one("pop", 0, 0, 1<<8), one("push", 0, 0, 1<<8)))
		})
	})

	// Sets: the receiver has n elements, operands have 0, n/2 and n+3 others
	// and common ones.
	setTour := func(id string, visits func(n int64) [][]Op) {
		more(id, func() []Case {
			var out []Case
			turn := int64(0)
			for _, n := range tourSizes(40, 520) {
				for _, v := range visits(n) {
					turn++
					c := Case{Cfg: map[string]int64{"universe": n + 30, "key": turn % 4, "hash": 0, "cap": turn % 13, "kinds": Mix(turn) & (1<<18 - 1)}}
					if turn%5 == 0 {
						c.Cfg["foreign"] = Mix(turn+1) & (1<<nslots - 1)
					}
					if n > 0 {
						c.Ops = ops(one("putRange", 0, exactly(n), 0), one("putRange", 1, exactly(n), 0), one("putRange", 2, exactly(n/2+1), n/3), one("putRange", 4, exactly(n), 5), one("putRange", 5, exactly(n), 1))
					}
					c.Ops = append(c.Ops, v...)
					out = append(out, c)
				}
			}
			return out
		})
	}
	setTour("C04", func(n int64) [][]Op {
		var vs [][]Op
		for kind := int64(0); kind < 12; kind++ {
			// one operand each: 1 equal, 2 partly, 3 empty, 4 and 5 shifted; then two
			for x := int64(0); x < 6; x++ {
				o := Op{N: "op", B: 1 | x<<4, C: kind + 12*(3<<6)}
				switch {
				case kind >= 4 && kind < 8:
					o.S = Bytes("\x00\x01\x7f\xff"[:x%5])
				case kind == 11:
					o.A = x % 4
				}
				vs = append(vs, []Op{o, {N: "put", A: 3, B: 3}, {N: "remove", A: 0, B: 1}})
			}
			if kind < 4 || kind >= 8 && kind < 11 {
				vs = append(vs, []Op{{N: "op", B: 2 | 1<<4 | 4<<8, C: kind + 12*(2<<6)}}, []Op{{N: "op", B: 3 | 5<<4 | 2<<8 | 4<<12, C: kind + 12*(2<<6)}})
			}
		}
		return append(vs, one("clear", 0), one("clear", 4), one("clear", 5))
	})
	// every operation with receivers of thousands and of more than 16 bits can
	// count, the operand overlapping one end
	more("C04", func() []Case {
		var out []Case
		for _, n := range []int64{1025, 1025, 4100, 66_000, 66_000} {
			c := Case{Cfg: map[string]int64{"universe": n + n/2, "kinds": []int64{0, 4 + 4<<3 + 4<<6}[len(out)%2]}}
			for kind := int64(0); kind < 12; kind++ {
				c.Ops = append(c.Ops, one("putRange", 0, exactly(n), 0)...)
				if kind == 0 {
					c.Ops = append(c.Ops, one("putRange", 1, exactly(n/2), n-9)...)
				}
				c.Ops = append(c.Ops, Op{N: "op", B: 1 | 1<<4, C: kind + 12*(2<<6), S: Bytes("\x00\x01\x7f\xff")})
			}
			out = append(out, c)
		}
		return out
	})
	setTour("C05", func(n int64) [][]Op {
		var vs [][]Op
		for x := int64(0); x < 6; x++ {
			vs = append(vs, one("rel", 0, x), one("rel", x%4, 0))
		}
		return append(vs, one("views", 0, 3), one("views", 2, 5),
			ops(one("remove", 1, n/2), one("rel", 0, 1), one("rel", 1, 0)),
			ops(one("put", 1, n+2), one("rel", 0, 1), one("rel", 1, 0)),
			ops(one("remove", 4, 6), one("rel", 0, 4), one("remove", 5, 1+n/2), one("rel", 0, 5)),
			ops(one("remove", 1, 0), one("put", 1, n+1), one("rel", 0, 1), one("rel", 1, 0)))
	})

	more("C05", func() []Case {
		var out []Case
		for _, n := range []int64{1025, 1025, 4100, 66_000, 66_000} {
			c := Case{Cfg: map[string]int64{"universe": n + 40, "kinds": []int64{0, 4 + 4<<3 + 4<<6 + 4<<12}[len(out)%2]}}
			c.Ops = ops(one("putRange", 0, exactly(n), 0), one("views", 0), one("putRange", 1, exactly(n), 0), one("rel", 0, 1),
				one("put", 1, n+7), one("rel", 0, 1), one("rel", 1, 0), one("putRange", 2, exactly(30), n+1), one("rel", 0, 2), one("rel", 2, 0),
				one("put", 2, n/2), one("rel", 0, 2), one("remove", 1, n-1), one("rel", 1, 0), one("putRange", 4, exactly(n+1), 0), one("rel", 0, 4))
			out = append(out, c)
		}
		return out
	})

	ropeCfg := func(split, join, n int64) map[string]int64 {
		return map[string]int64{"split": split, "join": join, "ratio": (n + join) % 4, "init": n}
	}
	at := func(p int64) int64 { return 3 + p<<3 }  // a position
	cut := func(l int64) int64 { return 4 + l<<3 } // a length
	for _, id := range []string{"C22", "C23", "C24", "C25"} {
		more(id, func() []Case {
			var out []Case
			for si, s := range splitLens {
				to := min(int64(3*s+3), 140)
				far := min(int64(8*s), 599)
				if id == "C25" {
					to, far = to/2+2, far/2
				}
				turn := int64(0)
				for _, n := range tourSizes(to, far) {
					mid := n / 2
					vs := [][]Op{}
					for _, p := range []int64{0, 1, mid, n - 1, n} {
						if p < 0 {
							continue
						}
						big := int64(s)
						vs = append(vs, one("insert", at(p), 1), one("insertBig", at(p), big), one("insertBig", at(p), big+1), one("insertBig", at(p), big-1),
							one("remove", at(p), cut(1)), one("remove", at(p), cut(n)), one("remove", at(p), cut(n-p)), one("remove", at(p), cut(min(big, n-p))), one("insert", at(p), 0), one("remove", at(p), 0))
						if id != "C22" {
							vs = append(vs, ops(one("split", at(p)), one("insert", 0, 2), one("join", 2, 0)), ops(one("new", 0, int64(s)), one("join", p, 0)))
						}
					}
					vs = append(vs, one("dup", at(mid), at(0)))
					if id != "C22" {
						vs = append(vs, one("rebuild"), one("rebalance"))
					}
					for _, v := range vs {
						turn++
						out = append(out, Case{Cfg: ropeCfg(int64(si), turn%5, n), Ops: ops(v, one("insert", at(1), 3, turn), one("remove", at(mid), cut(2), turn))})
					}
				}
			}
			// the shipped thresholds
			for _, n := range []int64{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385} {
				for _, v := range [][]Op{one("insert", at(0), 1), one("insert", at(n), 1), one("insert", at(n/2), 2), one("remove", at(0), cut(1)), one("remove", at(n-1), cut(1)), one("remove", at(0), cut(n)), one("remove", at(1), cut(n-2)), one("split", at(n/2)), one("rebuild")} {
					out = append(out, Case{Cfg: map[string]int64{"default": 29, "init": n}, Ops: ops(v, one("insert", at(1), 3))})
				}
			}
			return out
		})
	}

	for _, id := range []string{"C27", "C28"} {
		more(id, func() []Case {
			var out []Case
			for pi, per := range []int64{1, 2, 3, 4, 5, 8, 16, 64, 256} {
				sizes := tourSizes(min(4*per+4, 70), min(5*per+2, 600))
				if per <= 4 {
					sizes = tourSizes(40, 300)
				}
				for _, n := range sizes {
					for side := int64(0); side < 2; side++ {
						var start []Op
						if n > 0 {
							start = one([]string{"pushBackRange", "pushFrontRange"}[side], 0, exactly(n))
						}
						var vs [][]Op
						for _, name := range []string{"addAfter", "addBefore", "removeAt"} {
							ps := []int64{0, 1, n / 2, n - 2, n - 1}
							for _, b := range []int64{per / 2, per, n - per} {
								ps = append(ps, b-1, b, b+1)
							}
							for _, p := range ps {
								if p >= 0 && p < n {
									vs = append(vs, one(name, p, 3))
								}
							}
						}
						vs = append(vs, one("pushBack"), one("pushFront"))
						if id == "C28" {
							var its [][]Op
							for _, name := range []string{"iterAddAfter", "iterAddBefore", "iterRemove"} {
								its = append(its, ops(one("begin"), one("next", 0, exactly(n/2)), one(name)), ops(one("begin"), one(name), one(name)), ops(one("end"), one(name), one(name)), ops(one("end"), one("prev", 0, exactly(n/3+1)), one(name)))
							}
							its = append(its, ops(one("begin"), one("next", 0, exactly(n+2)), one("prev", 0, exactly(n+2)), one("next", 0, exactly(1)), one("iterRemove")), ops(one("end"), one("prev", 0, exactly(n+2)), one("next", 0, exactly(2)), one("iterAddAfter")))
							vs = its
						}
						for _, v := range vs {
							out = append(out, Case{Cfg: map[string]int64{"per": int64(pi)}, Ops: ops(start, v, one("pushBack"), one("removeAt", n/2, 3))})
						}
					}
				}
			}
			return out
		})
	}

	for _, id := range []string{"C29", "C30"} {
		more(id, func() []Case {
			var out []Case
			dims := []int64{1, 2, 3, 7, 8, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129}
			for i, w := range dims {
				for j, h := range dims {
					if w*h > 4200 && (i+j)%4 > 0 {
						continue
					}
					out = append(out, Case{Cfg: map[string]int64{"shape": w + 10000*h, "ctor": int64(i+j) % 3, "fill": w, "rows": h}, Ops: ops(
						one("fill", (w-1)<<10, (h-1)<<10, 5), one("set", w-1, h-1, 6), one("set", 0, h-1, 7), one("set", w-1, 0, 8), one("fill", 0|(w-1)<<10, h/2|h/2<<10, 9), one("fill", w/2|w/2<<10, 0|(h-1)<<10, 4),
						one("copy"), one("fill", 0, 0, 1<<8|3), one("span", 0|(w-1)<<10, h-1, 11), one("span", w-1|(w-1)<<10, h-1, 12), one("row", w-1, h-1, 13), one("row", 0, 0, 13), one("oob", 16*w, 17*h, w), one("oob", 0, 0, h))})
				}
			}
			return out
		})
	}
}
