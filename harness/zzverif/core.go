// Command zzverif is the model-checking harness for soypat/sdf. It is built as
// an overlay package inside the module (see /verif/run.sh) and never lives in
// the repository itself.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// check is a registered property check.
type check struct {
	level string
	rule  string // how cases are made and what makes one non trivial
	bound string // the bounds of the exploration
	run   func(t *T)
}

var registry = map[string]check{}

func register(id, level, bound, rule string, run func(t *T)) {
	registry[id] = check{level: level, rule: rule, bound: bound, run: run}
}

// T is one run of one check.
type T struct {
	prop     string
	quick    bool
	seed     int64
	only     string // replay a single case
	scratch  string
	start    time.Time
	deadline time.Time

	stop      int32
	truncated int32
	evals     int64
	cases     int64
	states    int64
	trans     int64
	traces    int64

	mu       sync.Mutex
	obs      map[uint64]struct{}
	samples  []string
	notes    []string
	failures []failure
	known    map[string]string
	knownHit map[string]string
	running  map[string]time.Time
}

type failure struct {
	Key, Detail string
}

// Case is the execution of one enumerated case.
type Case struct {
	t      *T
	key    string
	failed string
	h      uint64
	nontr  bool
}

// N returns q in the quick tier and th in the thorough tier.
func (t *T) N(q, th int) int {
	if t.quick {
		return q
	}
	return th
}

func (t *T) note(format string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.notes = append(t.notes, fmt.Sprintf(format, a...))
}

func (t *T) stopped() bool {
	if atomic.LoadInt32(&t.stop) != 0 {
		return true
	}
	if time.Now().After(t.deadline) {
		atomic.StoreInt32(&t.truncated, 1)
		return true
	}
	return false
}

// Par runs f(0..n-1) on all processors.
func (t *T) Par(n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || t.stopped() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Case executes one case. A panic within the case is a failure of the case.
func (t *T) Case(key string, f func(c *Case)) {
	if t.stopped() || (t.only != "" && t.only != key) {
		return
	}
	t.mu.Lock()
	t.running[key] = time.Now()
	t.mu.Unlock()
	c := t.exec(key, f)
	t.mu.Lock()
	delete(t.running, key)
	t.mu.Unlock()
	atomic.AddInt64(&t.cases, 1)
	if c.nontr {
		t.mu.Lock()
		t.obs[c.h] = struct{}{}
		if len(t.samples) < 6 {
			t.samples = append(t.samples, key)
		}
		t.mu.Unlock()
	}
	if c.failed == "" {
		return
	}
	t.mu.Lock()
	if what, ok := t.known[key]; ok {
		t.knownHit[key] = what
		t.mu.Unlock()
		return
	}
	t.mu.Unlock()
	// A failure is replayed before it is believed.
	again := 0
	for i := 0; i < 4; i++ {
		if t.exec(key, f).failed != "" {
			again++
		}
	}
	c.failed += fmt.Sprintf(" [failed again in %d of 4 re-executions]", again)
	t.mu.Lock()
	t.failures = append(t.failures, failure{Key: key, Detail: c.failed})
	t.mu.Unlock()
	atomic.StoreInt32(&t.stop, 1)
}

type failNow struct{}

func (t *T) exec(key string, f func(c *Case)) (c *Case) {
	c = &Case{t: t, key: key, h: 14695981039346656037}
	defer func() {
		if a := recover(); a != nil {
			if _, ok := a.(failNow); ok {
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "/repo/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 6 {
				keep = keep[:6]
			}
			c.failed = fmt.Sprintf("panic: %v at %s", a, strings.Join(keep, " <- "))
		}
	}()
	f(c)
	return c
}

// Fail ends the case as a violation.
func (c *Case) Fail(format string, a ...interface{}) {
	if c.failed == "" {
		c.failed = fmt.Sprintf(format, a...)
	}
	panic(failNow{})
}

func (c *Case) Eval(n int)   { atomic.AddInt64(&c.t.evals, int64(n)) }
func (c *Case) States(n int) { atomic.AddInt64(&c.t.states, int64(n)) }
func (c *Case) Trans(n int)  { atomic.AddInt64(&c.t.trans, int64(n)) }
func (c *Case) Trace(n int)  { atomic.AddInt64(&c.t.traces, int64(n)) }

// Obs folds an observation of the case into the fingerprint which
// decides whether the case is distinct from others.
func (c *Case) Obs(v ...interface{}) {
	c.nontr = true
	h := fnv.New64a()
	fmt.Fprint(h, c.h)
	for _, x := range v {
		fmt.Fprint(h, x, ",")
	}
	c.h = h.Sum64()
}

// ObsF is a fast Obs for floats.
func (c *Case) ObsF(x float64) {
	c.nontr = true
	c.h = (c.h ^ math.Float64bits(x)) * 1099511628211
}

// near reports approximate equality with relative and absolute tolerance tol.
func near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func g(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) == 3 { // child processes
		switch os.Args[1] {
		case "-ctl":
			os.Exit(ctlMain(os.Args[2]))
		case "-race-c03":
			n, _ := strconv.Atoi(os.Args[2])
			os.Exit(raceC03(n))
		case "-race-c28":
			n, _ := strconv.Atoi(os.Args[2])
			os.Exit(raceC28(n))
		}
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: zzverif PROPERTY quick|thorough VERIFDIR [CASEKEY]")
		os.Exit(2)
	}
	prop, tier, dir := os.Args[1], os.Args[2], os.Args[3]
	ck, ok := registry[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t := &T{
		prop: prop, quick: tier != "thorough", seed: seed, start: time.Now(),
		obs: map[uint64]struct{}{}, known: map[string]string{}, knownHit: map[string]string{},
		running: map[string]time.Time{},
	}
	budget := 420 * time.Second
	if !t.quick {
		budget = 780 * time.Second
	}
	t.deadline = t.start.Add(budget)
	if len(os.Args) > 4 {
		t.only = os.Args[4]
	}
	t.loadKnown(filepath.Join(dir, "known-findings.txt"))
	var err error
	t.scratch, err = os.MkdirTemp("", "zzverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		ck.run(t)
	}()
	// A case takes well under a second. One that has been running for minutes does not terminate.
	const stuck = 240 * time.Second
	tick := time.NewTicker(500 * time.Millisecond)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			t.mu.Lock()
			for k, s := range t.running {
				if time.Since(s) > stuck {
					t.failures = append(t.failures, failure{k, "the case did not terminate"})
					t.mu.Unlock()
					break loop
				}
			}
			t.mu.Unlock()
			if time.Now().After(t.deadline.Add(60 * time.Second)) {
				atomic.StoreInt32(&t.truncated, 1)
				break loop
			}
		}
	}
	os.RemoveAll(t.scratch)
	os.Exit(t.finish(ck, tier, dir))
}

func (t *T) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+t.prop+" ") {
			continue
		}
		// known: property=<id> case=<key> -- <what fails>
		rest := strings.TrimPrefix(l, "known: property="+t.prop+" case=")
		if i := strings.Index(rest, " -- "); i > 0 {
			t.known[rest[:i]] = rest[i+4:]
		}
	}
}

func (t *T) finish(ck check, tier, dir string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	var keys []string
	for k := range t.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (case %s)\n", t.prop, t.knownHit[k], k)
	}
	cov := map[string]interface{}{
		"rule":       ck.rule,
		"bounds":     ck.bound,
		"exhaustive": t.truncated == 0 && len(t.failures) == 0 && t.only == "",
		"cases":      t.cases,
		"samples":    append([]string{}, t.samples...),
	}
	if len(t.notes) > 0 {
		cov["notes"] = t.notes
	}
	if ck.level == "model_checking" {
		cov["states"] = t.states
		cov["transitions"] = t.trans
		cov["traces_validated_against_impl"] = t.traces
		cov["distinct_observed_outcomes"] = len(t.obs)
	} else {
		cov["evaluations"] = t.evals
		cov["distinct_nontrivial"] = len(t.obs)
	}
	ev := map[string]interface{}{
		"property": t.prop, "tier": tier, "seed": t.seed, "level": ck.level,
		"coverage":   cov,
		"wall_s":     math.Round(time.Since(t.start).Seconds()*100) / 100,
		"violations": len(t.failures),
	}
	if t.only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(dir, "evidence", t.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(t.failures) == 0 {
		fmt.Printf("ok property=%s tier=%s cases=%d evaluations=%d states=%d transitions=%d distinct=%d exhaustive=%v %.1fs\n",
			t.prop, tier, t.cases, t.evals, t.states, t.trans, len(t.obs), cov["exhaustive"], time.Since(t.start).Seconds())
		return 0
	}
	f := t.failures[0]
	rdir := filepath.Join(dir, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	path := filepath.Join(rdir, t.prop+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": t.prop, "tier": tier, "case": f.Key, "detail": f.Detail,
		"replay": "bash /verif/run.sh replay " + path,
	}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("case: %s\ndetail: %s\n", f.Key, f.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", t.prop, path)
	return 1
}
