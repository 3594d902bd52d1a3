// Package pbt is the small engine shared by all property checks.
//
// A property is a generator of Cases (drawn with pgregory.net/rapid) and an
// executor that runs a Case against the code under test next to an oracle. A
// Case is plain data: a configuration and a list of operations whose arguments
// are interpreted modulo the current state, so every sub-list of operations is
// itself a valid case. That makes a failing case shrinkable without the
// generator and replayable from a JSON file without rapid.
package pbt

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Bytes is a byte string that survives JSON (Go-quoted, ASCII only).
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	var q string
	if err := json.Unmarshal(d, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*b = Bytes(s)
	return err
}

// Op is one step of a history.
type Op struct {
	N string `json:"n"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S Bytes  `json:"s,omitempty"`
}

func (o Op) String() string {
	s := fmt.Sprintf("%s(%d,%d,%d", o.N, o.A, o.B, o.C)
	if o.S != "" {
		s += "," + strconv.QuoteToASCII(string(o.S))
	}
	return s + ")"
}

// Case is one generated input: a configuration and a history. Alt, if any, is
// the history of a second instance of the same configuration: the two take
// turns, and neither may show in the other.
type Case struct {
	Cfg map[string]int64 `json:"cfg,omitempty"`
	Ops []Op             `json:"ops"`
	Alt []Op             `json:"alt,omitempty"`
}

// Key identifies a case for counting distinct ones.
func (c Case) Key() uint64 {
	h := fnv.New64a()
	names := make([]string, 0, len(c.Cfg))
	for k := range c.Cfg {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(h, "%s=%d;", k, c.Cfg[k])
	}
	for i := range len(c.Ops) + len(c.Alt) {
		if i == len(c.Ops) {
			h.Write([]byte{1})
		}
		o := c.op(i)
		h.Write([]byte(o.N))
		var b [24]byte
		for i, v := range [3]int64{o.A, o.B, o.C} {
			for j := 0; j < 8; j++ {
				b[i*8+j] = byte(v >> (8 * j))
			}
		}
		h.Write(b[:])
		h.Write([]byte(o.S))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Brief renders a case for evidence samples.
func (c Case) Brief(max int) string {
	b, _ := json.Marshal(c)
	s := string(b)
	if len(s) > max {
		s = s[:max] + fmt.Sprintf("... (%d ops, %d bytes)", len(c.Ops), len(b))
	}
	return s
}

// op returns operation i, counting those of Alt behind those of Ops.
func (c Case) op(i int) *Op {
	if i < len(c.Ops) {
		return &c.Ops[i]
	}
	return &c.Alt[i-len(c.Ops)]
}

// Rec records what one execution of a case exercised.
type Rec struct {
	Labels  map[string]int
	nontriv bool
	steps   int64
	limit   int64
	turn    func()
}

// NewRec returns an empty record.
func NewRec() *Rec { return &Rec{Labels: map[string]int{}, limit: DefaultSteps} }

// DefaultSteps bounds the callback invocations (comparisons, hashes,
// equalities, iteration callbacks) between two Budget calls. No operation of
// the code under test on the sizes generated here needs anywhere near it; an
// operation that exceeds it does not terminate.
const DefaultSteps = 20_000_000

// Label counts an event of interest (once or more per case).
func (r *Rec) Label(s string) { r.Labels[s]++ }

// LabelIf counts s when cond holds.
func (r *Rec) LabelIf(cond bool, s string) {
	if cond {
		r.Labels[s]++
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (r *Rec) NonTrivial() { r.nontriv = true }

// IsNonTrivial tells whether NonTrivial was called.
func (r *Rec) IsNonTrivial() bool { return r.nontriv }

// Has tells whether every label occurred.
func (r *Rec) Has(labels ...string) bool {
	for _, l := range labels {
		if r.Labels[l] == 0 {
			return false
		}
	}
	return true
}

// Budget restarts step counting: what comes next is a new operation.
func (r *Rec) Budget() {
	r.steps = 0
	Beat.Add(1)
}

// Turn lets the other instance of a case with two do its next step.
func (r *Rec) Turn() {
	if r.turn != nil {
		r.turn()
	}
}

// Beat changes whenever an operation has come to its end.
var Beat atomic.Int64

// Steps returns the steps since the last Budget.
func (r *Rec) Steps() int64 { return r.steps }

// Step counts one callback from the code under test.
func (r *Rec) Step() {
	r.steps++
	if r.steps > r.limit {
		panic(stepLimit{r.limit})
	}
}

type stepLimit struct{ n int64 }

func (s stepLimit) String() string {
	return fmt.Sprintf("operation does not terminate: more than %d callbacks", s.n)
}

// Prop is one property check.
type Prop struct {
	ID   string
	Rule string // how cases are made, what makes one non-trivial
	// Quick and Thorough are total case counts over all shards.
	Quick, Thorough int
	Gen             func(g *G) Case
	Run             func(c Case, r *Rec) error
	// Fixed, when set, returns cases that are run on every check, besides
	// the generated ones (finite sub-domains enumerated exhaustively).
	Fixed      func() []Case
	Assumption []string
	// Twin tells that a case may have two instances taking turns.
	Twin bool
	// Slow cases are executed as few times as possible once they failed.
	Slow bool
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Get returns a registered property or nil.
func Get(id string) *Prop { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Draw generates a case, some with a second instance.
func Draw(p *Prop, g *G) Case {
	c := p.Gen(g)
	if p.Twin && g.Chance(8) {
		c.Alt = p.Gen(g).Ops
	}
	return c
}

// Execute runs a case, its two histories in turns if it has two.
func Execute(p *Prop, c Case, r *Rec) error {
	if len(c.Alt) == 0 || !p.Twin {
		return execute(p, c, r)
	}
	r.Label("two-instances")
	r2 := NewRec()
	first, second := make(chan struct{}), make(chan struct{})
	var err2 error
	done1, done2 := false, false
	go func() {
		<-second
		if err2 = execute(p, Case{Cfg: c.Cfg, Ops: c.Alt}, r2); err2 != nil {
			err2 = fmt.Errorf("the second of two instances: %w", err2)
		}
		done2 = true
		first <- struct{}{}
	}()
	r.turn = func() {
		if !done2 {
			second <- struct{}{}
			<-first
		}
	}
	r2.turn = func() {
		if !done1 {
			first <- struct{}{}
			<-second
		}
	}
	err := execute(p, Case{Cfg: c.Cfg, Ops: c.Ops}, r)
	done1 = true
	r.turn()
	r.turn = nil
	for k, n := range r2.Labels {
		r.Labels[k] += n
	}
	if r2.nontriv {
		r.nontriv = true
	}
	if err != nil {
		return err
	}
	return err2
}

// execute runs a history; an unexpected panic is a failure of the case, because
// every case consists of calls the code under test must accept.
func execute(p *Prop, c Case, r *Rec) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stepLimit); ok {
				err = errors.New(s.String())
				return
			}
			err = fmt.Errorf("unexpected panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	return p.Run(c, r)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Panics calls fn and returns the panic value, or nil if it returned.
func Panics(fn func()) (val any) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stepLimit); ok {
				panic(s)
			}
			val = e
		}
	}()
	fn()
	return nil
}

// Shrink minimises a failing case by deleting operations and reducing numbers.
// tries bounds the number of executions. reps is how often a candidate is run
// before it counts as not failing: more than once where the code under test
// depends on Go's random map iteration order.
func Shrink(p *Prop, c Case, tries, reps int, stop func() bool) (Case, error) {
	run := func(x Case) error {
		for i := 0; ; i++ {
			tries--
			err := Execute(p, x, NewRec())
			if err != nil || i+1 >= reps || tries <= 0 || i > 0 && stop() {
				return err
			}
		}
	}
	best, err := c, run(c)
	if err == nil {
		return c, nil
	}
	try := func(x Case) bool {
		if tries <= 0 || stop() {
			return false
		}
		if e := run(x); e != nil {
			best, err = x, e
			return true
		}
		return false
	}
	for changed := true; changed && tries > 0 && !stop(); {
		changed = false
		if len(best.Alt) > 0 { // one instance only
			for _, only := range [][]Op{best.Ops, best.Alt} {
				x := best.clone()
				x.Ops, x.Alt = append([]Op(nil), only...), nil
				if try(x) {
					changed = true
					break
				}
			}
		}
		for size := len(best.Alt); size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Alt); {
				x := best.clone()
				x.Alt = append(x.Alt[:i:i], x.Alt[i+size:]...)
				if try(x) {
					changed = true
				} else {
					i += size
				}
				if tries <= 0 || stop() {
					return best, err
				}
			}
		}
		// delete chunks of operations
		for size := len(best.Ops); size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Ops); {
				x := best.clone()
				x.Ops = append(x.Ops[:i:i], x.Ops[i+size:]...)
				if try(x) {
					changed = true
				} else {
					i += size
				}
				if tries <= 0 || stop() {
					return best, err
				}
			}
		}
		// reduce numbers
		for i := range len(best.Ops) + len(best.Alt) {
			for f := 0; f < 3; f++ {
				for _, v := range smaller(best.op(i).get(f)) {
					x := best.clone()
					x.op(i).set(f, v)
					if try(x) {
						changed = true
						break
					}
				}
			}
			for s := best.op(i).S; len(s) > 0; s = s[:len(s)-1] {
				x := best.clone()
				x.op(i).S = s[:len(s)-1]
				if !try(x) {
					break
				}
				changed = true
			}
		}
		names := make([]string, 0, len(best.Cfg))
		for k := range best.Cfg {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			for _, v := range smaller(best.Cfg[k]) {
				x := best.clone()
				x.Cfg[k] = v
				if try(x) {
					changed = true
					break
				}
			}
		}
	}
	return best, err
}

func smaller(v int64) []int64 {
	if v == 0 {
		return nil
	}
	out := []int64{0}
	if v < 0 {
		out = append(out, -v)
	}
	if v/2 != 0 {
		out = append(out, v/2)
	}
	if v > 1 {
		out = append(out, v-1)
	}
	return out
}

func (o *Op) get(f int) int64 { return *[]*int64{&o.A, &o.B, &o.C}[f] }

func (o *Op) set(f int, v int64) { *[]*int64{&o.A, &o.B, &o.C}[f] = v }

func (c Case) clone() Case {
	x := Case{Cfg: map[string]int64{}, Ops: append([]Op(nil), c.Ops...), Alt: append([]Op(nil), c.Alt...)}
	for k, v := range c.Cfg {
		x.Cfg[k] = v
	}
	return x
}

// G draws the parts of a case; all randomness goes through rapid.
type G struct {
	T        *rapid.T
	Thorough bool
}

// Int draws from [lo,hi], biased towards lo.
func (g *G) Int(lo, hi int64) int64 { return rapid.Int64Range(lo, hi).Draw(g.T, "i") }

// Chance is true in about one of n draws.
func (g *G) Chance(n int64) bool { return g.Uniform(n) == n-1 }

// Uniform draws from [0,n) nearly uniformly (rapid biases ranges to small
// values; four extra bits wash that out).
func (g *G) Uniform(n int64) int64 {
	return int64(rapid.Uint64Range(0, 1<<40-1).Draw(g.T, "u") * 0x9E3779B97F4A7C15 >> 11 % uint64(n))
}

// Pick draws one of the values.
func (g *G) Pick(vs ...int64) int64 { return vs[g.Uniform(int64(len(vs)))] }

// Any draws an arbitrary int64 with boundary values over-represented.
func (g *G) Any() int64 { return rapid.Int64().Draw(g.T, "any") }

// Bytes draws a byte string over an alphabet (any byte if empty).
func (g *G) Bytes(max int, alphabet string) Bytes {
	n := g.Int(0, int64(max))
	b := make([]byte, n)
	for i := range b {
		if alphabet == "" {
			b[i] = byte(g.Int(0, 255))
		} else {
			b[i] = alphabet[g.Uniform(int64(len(alphabet)))]
		}
	}
	return Bytes(b)
}

// Spec is one kind of operation with its weight and argument generator.
type Spec struct {
	Name   string
	Weight int
	Args   func(g *G) Op
}

// History draws a list of operations. Swarm testing: each case enables a
// random subset of the kinds, so that some histories are dominated by
// operations that would otherwise cancel each other out.
func (g *G) History(specs []Spec, scale int64) []Op {
	return g.HistoryN(specs, g.Length(scale))
}

// Length draws a history length: mostly short, sometimes long.
func (g *G) Length(scale int64) int64 {
	switch c := g.Uniform(10); {
	case c < 4:
		return g.Uniform(12*scale/10+1) + 1
	case c < 8:
		return g.Uniform(60*scale/10+1) + 1
	default:
		return g.Uniform(200*scale/10+1) + 1
	}
}

// HistoryN draws n operations.
func (g *G) HistoryN(specs []Spec, n int64) []Op {
	var table []int
	swarm := g.Chance(2)
	for i, s := range specs {
		w := s.Weight
		if swarm && i > 0 {
			switch g.Uniform(4) {
			case 0:
				w = 0
			case 1:
				w *= 4
			}
		}
		for ; w > 0; w-- {
			table = append(table, i)
		}
	}
	if len(table) == 0 {
		return nil
	}
	ops := make([]Op, 0, n)
	for ; n > 0; n-- {
		s := specs[table[g.Uniform(int64(len(table)))]]
		var o Op
		if s.Args != nil {
			o = s.Args(g)
		}
		o.N = s.Name
		ops = append(ops, o)
	}
	return ops
}

// Mod is the non-negative remainder of a by n (n > 0).
func Mod(a int64, n int) int {
	m := int(a % int64(n))
	if m < 0 {
		m += n
	}
	return m
}

// Mix scrambles an integer (used to scatter keys inside bulk operations; a
// pure function of the case).
func Mix(x int64) int64 {
	u := uint64(x) + 0x9E3779B97F4A7C15
	u = (u ^ (u >> 30)) * 0xBF58476D1CE4E5B9
	u = (u ^ (u >> 27)) * 0x94D049BB133111EB
	return int64((u ^ (u >> 31)) >> 1)
}
