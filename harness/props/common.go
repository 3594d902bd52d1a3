// Package props holds the property checks of zyedidia/generic.
package props

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"

	. "verif/harness/pbt"
)

type skey struct {
	a int32
	b string
}

// bulk bounds how many elements a bulk operation touches; exactly(n) asks for
// n whatever the bound.
func bulk(b int64, max int) int {
	if b >= bulkExact {
		return min(int(b-bulkExact), 1<<19)
	}
	return Mod(b, max) + 1
}

const bulkExact = 1 << 40

func exactly(n int64) int64 { return bulkExact + n }

// pattern enumerates n keys starting at a in one of several insertion orders.
// pat: 0 ascending, 1 descending, 2 scattered, 3 stride 7, 4 outside-in.
func pattern(a int64, n int, pat int64) []int64 {
	out := make([]int64, n)
	for i := range out {
		switch Mod(pat, 5) {
		case 0:
			out[i] = a + int64(i)
		case 1:
			out[i] = a + int64(n-1-i)
		case 2:
			out[i] = Mix(a+int64(i)) % 1_000_003
		case 3:
			out[i] = a + int64(i)*7
		case 4:
			if i%2 == 0 {
				out[i] = a + int64(i/2)
			} else {
				out[i] = a + int64(n-1-i/2)
			}
		}
	}
	return out
}

// genKey draws key arguments: mostly from a small domain so that operations
// hit each other, sometimes anything.
func genKey(g *G) int64 {
	switch g.Uniform(12) {
	case 0:
		return g.Any()
	case 1, 2, 3:
		return g.Uniform(1000)
	case 4, 5, 6, 7:
		return g.Uniform(40)
	default:
		return g.Uniform(9)
	}
}

// Op argument generators.
func argsKey(g *G) Op { return Op{A: genKey(g)} }
func argsKeyVal(g *G) Op {
	o := Op{A: genKey(g), B: g.Int(0, 1<<30)}
	if g.Chance(6) {
		o.B = 0 // the zero value
	}
	return o
}
func argsNone(g *G) Op { return Op{} }
func argsBulk(max int64) func(g *G) Op {
	return func(g *G) Op {
		n := g.Uniform(max)
		if g.Chance(2) {
			n = g.Uniform(20)
		}
		return Op{A: genKey(g), B: n, C: g.Uniform(5)}
	}
}

func errf(i int, o Op, format string, args ...any) error {
	return fmt.Errorf("step %d %v: %s", i, o, fmt.Sprintf(format, args...))
}

// kinds of keys: conversions from op arguments.
func intKey(a int64) int    { return int(a) }
func strKey(a int64) string { return strconv.FormatInt(a, 36) }
func orEmpty(a int64) string { // strKey, but the key of 0 is the empty string
	if a == 0 {
		return ""
	}
	return strKey(a)
}
func structKey(a int64) skey { return skey{int32(a), strconv.Itoa(int(a % 100))} }
func sortedKeys[V any](m map[int64]V) []int64 {
	out := make([]int64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// cadence decides when the full comparison runs: always for small states,
// amortised for large ones (every touched key is still compared at once), and
// after a bulk operation has changed the size.
type cadence struct {
	since, size int
	every       bool
}

func newCadence(c Case) *cadence { return &cadence{every: c.Cfg["every"] != 0} }

func (c *cadence) due(size int, last bool) bool {
	c.since++
	changed := max(size-c.size, c.size-size)
	if last || c.every || size <= 80 || c.since*40 >= size || changed*8 >= size {
		c.since, c.size = 0, size
		return true
	}
	return false
}

func fmtVal(v int64, ok bool) string {
	if !ok {
		return "absent"
	}
	return strconv.FormatInt(v, 10)
}

func trunc(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func fmtSprintf(format string, args ...any) string { return fmt.Sprintf(format, args...) }

// shade makes the elements of sequences: all different, or repeated ones with
// many zeros.
func shade(mode, n int64) int64 {
	switch Mod(mode, 8) {
	case 5:
		return n % 3
	case 6:
		return 0
	case 7:
		return -n
	}
	return n
}

// results keeps slices that a query returned, to see that they stay as they were.
type results[T comparable] struct {
	got, want [4][]T
	n         int
}

func (k *results[T]) add(s []T) {
	k.got[k.n%4], k.want[k.n%4] = s, append([]T(nil), s...)
	k.n++
}

func (k *results[T]) changed() string {
	for i, s := range k.got {
		for j := range s {
			if s[j] != k.want[i][j] {
				return fmt.Sprintf("element %d of a result returned earlier was %v and has become %v", j, k.want[i][j], s[j])
			}
		}
	}
	return ""
}

// argset remembers op arguments in first-use order.
type argset struct {
	list []int64
	seen map[int64]bool
}

func (s *argset) add(a int64) {
	if s.seen == nil {
		s.seen = map[int64]bool{}
	}
	if !s.seen[a] {
		s.seen[a] = true
		s.list = append(s.list, a)
	}
}

// leastAlloc is the smallest number of bytes allocated by three runs of fn
// (other goroutines of the process may add noise to one of them).
func leastAlloc(fn func()) uint64 {
	best := ^uint64(0)
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		fn()
		runtime.ReadMemStats(&b)
		if d := b.TotalAlloc - a.TotalAlloc; d < best {
			best = d
		}
	}
	return best
}
