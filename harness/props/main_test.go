package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// The worker is driven by environment variables (see /verif/check.py):
//
//	PBT_PROP    property id
//	PBT_MODE    run | replay
//	PBT_TIER    quick | thorough
//	PBT_SEED    seed of this shard
//	PBT_SHARD, PBT_SHARDS  this shard's part of the property's case count
//	PBT_SCALE   multiplies the case count (default 1)
//	PBT_FIXED   1: also run this shard's part of the property's enumerated cases
//	PBT_CORPUS  colon-separated case files to run first (or to replay)
//	PBT_OUT     result file (JSON)
//	PBT_HASHES  file for the hashes of distinct non-trivial cases
//	PBT_JOURNAL file that receives every case before it is run (crash runs)
//
// Worker exit codes: 0 held, 1 violated (result file has the case),
// 3 runaway (the case in the result file used far more CPU or memory than
// any terminating operation), anything else: error.
type result struct {
	IDs        []string       `json:"ids,omitempty"`
	Property   string         `json:"property"`
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial_total"`
	Labels     map[string]int `json:"labels"`
	Ops        int            `json:"ops"`
	MaxOps     int            `json:"max_ops"`
	Samples    []string       `json:"samples"`
	MaxCPU     float64        `json:"max_cpu"`
	Rule       string         `json:"rule"`
	Assumption []string       `json:"assumptions"`
	Fail       *failure       `json:"fail,omitempty"`
}

type failure struct {
	Kind string   `json:"kind"`
	Msg  string   `json:"msg"`
	Case pbt.Case `json:"case"`
	From string   `json:"from"`
	// Orig is the case as generated, before it was shrunk.
	Orig *pbt.Case `json:"orig,omitempty"`
	// Before are the cases that the process ran before the failing one.
	Before []pbt.Case `json:"before,omitempty"`
}

var (
	mu      sync.Mutex
	current *pbt.Case
	started time.Duration
	res     result
	prop    *pbt.Prop
	// the last cases that held, until one has failed
	before    []pbt.Case
	recording = true
)

const (
	keepBefore  = 100
	replayReps  = 500
	replayCPU   = 20 * time.Second
	runawayCPU  = 60 * time.Second
	runawayHeap = 3 << 30 // several shards run at once
	softHeap    = 1 << 30
)

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog flags a single operation (case, where the property does not tell
// them apart) that burns CPU time (not wall-clock time, so a
// busy machine does not matter) or memory without end.
func watchdog() {
	debug.SetMemoryLimit(softHeap) // beyond it, garbage is collected at once
	beat := int64(-1)
	for {
		time.Sleep(100 * time.Millisecond)
		mu.Lock()
		if b := pbt.Beat.Load(); b != beat { // an operation ended
			beat, started = b, cpuTime()
		}
		c, t0 := current, started
		mu.Unlock()
		if c == nil {
			continue
		}
		why := ""
		if d := cpuTime() - t0; d > runawayCPU {
			why = fmt.Sprintf("a single step used more than %v of CPU time: an operation does not terminate", runawayCPU)
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > runawayHeap {
				why = "a single case used more than 3 GiB of heap: an operation allocates without end"
			}
		}
		if why == "" {
			continue
		}
		mu.Lock()
		if current != c {
			mu.Unlock()
			continue
		}
		r := result{Property: prop.ID, Fail: &failure{Kind: "runaway", Msg: why, Case: *c}}
		write(r)
		os.Exit(3)
	}
}

func write(r result) {
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(os.Getenv("PBT_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(2)
	}
}

func journal(c pbt.Case) {
	if f := os.Getenv("PBT_JOURNAL"); f != "" {
		b, _ := json.Marshal(c)
		os.WriteFile(f, b, 0o644)
	}
}

func execute(c pbt.Case, r *pbt.Rec) error {
	journal(c)
	begun := cpuTime()
	mu.Lock()
	current, started = &c, begun
	mu.Unlock()
	err := pbt.Execute(prop, c, r)
	res.MaxCPU = max(res.MaxCPU, (cpuTime() - begun).Seconds())
	mu.Lock()
	current = nil
	mu.Unlock()
	if recording = recording && err == nil; recording {
		if before = append(before, c); len(before) > 2*keepBefore {
			before = append([]pbt.Case(nil), before[keepBefore:]...)
		}
	}
	return err
}

var hashes = map[uint64]struct{}{}

func account(c pbt.Case, r *pbt.Rec) {
	res.Evals++
	res.Ops += len(c.Ops)
	if len(c.Ops) > res.MaxOps {
		res.MaxOps = len(c.Ops)
	}
	for k := range r.Labels {
		res.Labels[k]++
	}
	if r.IsNonTrivial() {
		res.NonTrivial++
		hashes[c.Key()] = struct{}{}
		if len(res.Samples) < 4 && res.NonTrivial == 1<<(2*len(res.Samples)) {
			res.Samples = append(res.Samples, c.Brief(700))
		}
	}
}

func load(path string) (pbt.Case, error) {
	var f struct {
		Property string   `json:"property"`
		Case     pbt.Case `json:"case"`
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return f.Case, err
	}
	err = json.Unmarshal(b, &f)
	return f.Case, err
}

func failed(kind, from string, c pbt.Case, err error) {
	f := &failure{Kind: kind, From: from, Case: c, Msg: err.Error(), Before: before}
	res.Fail = f
}

func finish() {
	if p := os.Getenv("PBT_HASHES"); p != "" {
		hs := make([]uint64, 0, len(hashes))
		for h := range hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		var b []byte
		for _, h := range hs {
			b = strconv.AppendUint(b, h, 16)
			b = append(b, '\n')
		}
		os.WriteFile(p, b, 0o644)
	}
	write(res)
	if res.Fail != nil {
		os.Exit(1)
	}
	os.Exit(0)
}

func splitPaths(s string) (out []string) {
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ':' {
			i++
		}
		if i > 0 {
			out = append(out, s[:i])
		}
		if i == len(s) {
			break
		}
		s = s[i+1:]
	}
	return out
}

func setup() {
	id := os.Getenv("PBT_PROP")
	if env("PBT_MODE", "") == "list" {
		write(result{IDs: pbt.IDs()})
		os.Exit(0)
	}
	prop = pbt.Get(id)
	if prop == nil {
		fmt.Fprintf(os.Stderr, "worker: no property %q (have %v)\n", id, pbt.IDs())
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	res = result{Property: id, Labels: map[string]int{}, Rule: prop.Rule, Assumption: prop.Assumption}
}

// TestWorker is the entry point of a check's worker process.
func TestWorker(t *testing.T) {
	if os.Getenv("PBT_PROP") == "" {
		t.Skip("driven by check.py")
	}
	setup()
	go watchdog()

	shrinkUntil := func() func() bool {
		end := time.Now().Add(15 * time.Second)
		return func() bool { return time.Now().After(end) }
	}
	// A case that is replayed runs many times: what the code under test does
	// may depend on the order in which Go walks a map, and a case holds only
	// if it holds in every order.
	mode, reps := env("PBT_MODE", "run"), 1
	if mode == "sequence" { // all of them in one process: the last one may fail
		reps = 1
	} else if mode != "run" {
		reps = replayReps
	}
	for _, path := range splitPaths(os.Getenv("PBT_CORPUS")) {
		c, err := load(path)
		if err != nil {
			fmt.Fprintf(os.Stderr, "worker: %s: %v\n", path, err)
			os.Exit(2)
		}
		r := pbt.NewRec()
		err = execute(c, r)
		account(c, r)
		end := cpuTime() + replayCPU
		for i := 1; err == nil && i < reps && cpuTime() < end; i++ {
			err = execute(c, pbt.NewRec())
		}
		if err != nil {
			if mode == "shrink" {
				c, err = shrunk(c, err, shrinkUntil())
			}
			failed("case", path, c, err)
			finish()
		}
	}
	if mode != "run" {
		finish()
	}
	if env("PBT_FIXED", "0") == "1" && prop.Fixed != nil {
		shard, _ := strconv.Atoi(env("PBT_SHARD", "0"))
		shards, _ := strconv.Atoi(env("PBT_SHARDS", "1"))
		for n, c := range prop.Fixed() {
			if n%shards != shard {
				continue
			}
			r := pbt.NewRec()
			err := execute(c, r)
			account(c, r)
			if err != nil {
				s, err := shrunk(c, err, shrinkUntil())
				failed("case", "enumerated", s, err)
				res.Fail.Orig = &c
				finish()
			}
		}
	}
	seed, _ := strconv.ParseUint(env("PBT_SEED", "1"), 0, 64)
	if seed == 0 {
		seed = 1
	}
	cases := share()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(2)
		}
	}
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.checks", strconv.Itoa(cases))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "5s")

	var lastFail *pbt.Case
	var lastErr error
	searching := true
	ok := t.Run("search", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			g := &pbt.G{T: rt, Thorough: env("PBT_TIER", "quick") == "thorough"}
			c := pbt.Draw(prop, g)
			r := pbt.NewRec()
			err := execute(c, r)
			if err != nil {
				searching = false
				x := c
				lastFail, lastErr = &x, err
				if prop.Slow { // rapid would run it many times more
					s, err := shrunk(c, err, shrinkUntil())
					failed("case", fmt.Sprintf("seed %d", seed), s, err)
					res.Fail.Orig = lastFail
					finish()
				}
				rt.Fatalf("violated")
			}
			if searching {
				account(c, r)
			}
		})
	})
	switch {
	case lastFail != nil:
		c, err := shrunk(*lastFail, lastErr, shrinkUntil())
		failed("case", fmt.Sprintf("seed %d", seed), c, err)
		res.Fail.Orig = lastFail
		finish()
	case !ok:
		fmt.Fprintln(os.Stderr, "worker: rapid failed without a failing case (generator error)")
		write(res)
		os.Exit(2)
	}
	if res.Evals < cases {
		fmt.Fprintf(os.Stderr, "worker: only %d of %d cases ran\n", res.Evals, cases)
		os.Exit(2)
	}
	finish()
}

// share is the number of cases of this shard.
func share() int {
	n := prop.Quick
	if env("PBT_TIER", "quick") == "thorough" {
		n = prop.Thorough
	}
	if f, err := strconv.ParseFloat(env("PBT_SCALE", "1"), 64); err == nil {
		n = int(float64(n) * f)
	}
	shard, _ := strconv.Atoi(env("PBT_SHARD", "0"))
	shards, _ := strconv.Atoi(env("PBT_SHARDS", "1"))
	k := n / shards
	if shard < n%shards {
		k++
	}
	return max(k, 1)
}

func shrunk(c pbt.Case, orig error, stop func() bool) (pbt.Case, error) {
	reps := 1
	for i := 0; i < 4 && !prop.Slow && !stop(); i++ {
		if execute(c, pbt.NewRec()) == nil {
			reps = 25
		}
	}
	mu.Lock()
	x := c
	current, started = &x, cpuTime()
	mu.Unlock()
	s, err := pbt.Shrink(prop, c, 20000, reps, func() bool {
		mu.Lock()
		started = cpuTime()
		mu.Unlock()
		return stop()
	})
	mu.Lock()
	current = nil
	mu.Unlock()
	if err == nil { // did not fail again here: report the case as generated
		return c, orig
	}
	return s, err
}

// FuzzCase is the coverage-guided entry point (thorough tier): the fuzzer's
// bytes are rapid's random bit stream.
func FuzzCase(f *testing.F) {
	if os.Getenv("PBT_PROP") == "" {
		f.Skip("driven by check.py")
	}
	setup()
	seed := make([]byte, 0, 4096)
	for i := 0; i < 512; i++ {
		u := uint64(pbt.Mix(int64(i))) * 3
		for j := 0; j < 8; j++ {
			seed = append(seed, byte(u>>(8*j)))
		}
	}
	f.Add(seed)
	f.Add(make([]byte, 2048))
	go watchdog()
	f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
		g := &pbt.G{T: rt}
		c := pbt.Draw(prop, g)
		err := execute(c, pbt.NewRec())
		if err != nil {
			out := os.Getenv("PBT_FUZZFAIL")
			b, _ := json.Marshal(map[string]any{"property": prop.ID, "msg": err.Error(), "case": c})
			if out != "" {
				os.WriteFile(out, b, 0o644)
			}
			rt.Fatalf("violated: %v", err)
		}
	}))
}
