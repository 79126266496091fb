package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/soypat/sdf/render"
	zzvsync "github.com/soypat/sdf/zzvsync"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C03", "model_checking",
		"renderers of 2 and 3 goroutines, read sizes {2,3,7,12,40,1000}, every schedule of the synchronisation operations and distance evaluations of the real code that departs up to 2 times (3 in the thorough tier; 1 on the larger models) from running each thread until it blocks; plus uncontrolled concurrent reads of 18 solids with 2..8 goroutines",
		"a case is a model, a number of goroutines and a read size; the real renderer with its sync package and go statements replaced runs under every schedule within the bound, data races monitored by the race detector on each; the oracle is the multiset of triangles of a sequential read",
		runC03)
}

// ctlJob describes one controlled exploration.
type ctlJob struct {
	Solid  string
	Cells  int
	N      int
	Size   int
	Bound  int
	Budget int // schedules
}

type ctlResult struct {
	Runs, Steps, Points, Triangles int
	Complete                       bool
	Err                            string
	Schedule                       []int
}

func (j ctlJob) solid() fn3 {
	var s fn3
	switch j.Solid {
	case "ball":
		s = mSphere(v3(0, 0, 0), 1)
	case "slab":
		s = mBox(v3(0.1, 0, 0), v3(2, 1, 0.7))
	case "corner":
		s = mUnion(mBox(v3(0, 0, 0), v3(1, 1, 1)), mSphere(v3(1, 1, 1), 0.6))
	default:
		panic(j.Solid)
	}
	f := s.f
	s.f = func(p r3.Vec) float64 {
		zzvsync.Yield()
		return f(p)
	}
	return s
}

// ctlMain is the controlled explorer. It runs in a process of its own.
func ctlMain(arg string) int {
	var j ctlJob
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	go func() { // the code waits for something that the explorer does not control
		last := int64(-1)
		for {
			time.Sleep(30 * time.Second)
			now := zzvsync.Progress
			if now == last {
				fmt.Println("STALLED")
				os.Exit(3)
			}
			last = now
		}
	}()
	res := j.explore()
	b, _ := json.Marshal(res)
	fmt.Println("RESULT " + string(b))
	return 0
}

func (j ctlJob) explore() (res ctlResult) {
	s := j.solid()
	ref, err := readMesh(render.NewOctreeRenderer(s, j.Cells), 1<<12)
	if err != nil {
		return ctlResult{Err: "sequential read: " + err.Error()}
	}
	want := sortedTris(ref)
	res.Triangles = len(want)
	stack := [][]int{{}}
	for len(stack) > 0 {
		if j.Budget > 0 && res.Runs >= j.Budget {
			return res
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var got []r3.Triangle
		problem := ""
		run := zzvsync.Run(prefix, func() {
			r := render.ZZConcurrent(s, j.Cells, j.N)
			buf := make([]r3.Triangle, j.Size)
			for calls := 0; ; calls++ {
				if calls > 20000 {
					problem = "no io.EOF after 20000 reads"
					return
				}
				n, err := r.ReadTriangles(buf)
				if n < 0 || n > len(buf) {
					problem = fmt.Sprintf("read of %d returned n=%d", len(buf), n)
					return
				}
				got = append(got, buf[:n]...)
				if err == io.EOF {
					return
				}
				if err != nil {
					problem = err.Error()
					return
				}
			}
		})
		res.Runs++
		res.Steps += run.Steps
		if len(run.Taken) > res.Points {
			res.Points = len(run.Taken)
		}
		if problem == "" {
			problem = run.Err
		}
		if problem == "" {
			problem = sameTris(sortedTris(got), want)
		}
		if problem != "" {
			res.Err, res.Schedule = problem, run.Taken
			return res
		}
		cost := 0
		for i := range run.Taken {
			if i < len(prefix) {
				if run.Taken[i] > 0 {
					cost++
				}
				continue
			}
			if cost >= j.Bound {
				break
			}
			for c := 1; c < run.Degree[i]; c++ {
				stack = append(stack, append(append(make([]int, 0, i+1), run.Taken[:i]...), c))
			}
		}
	}
	res.Complete = true
	return res
}

// runChild runs another build of the harness with the race detector. It returns
// its standard output, and the report if it ended with a data race.
func runChild(bin string, args ...string) (out, report string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 800*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	} else if err != nil {
		code = -1
	}
	return o.String(), e.String(), code
}

func raceSummary(report string) string {
	var keep []string
	for _, l := range strings.Split(report, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") || (strings.Contains(l, "/repo/") && len(keep) > 0) {
			keep = append(keep, l)
		}
		if len(keep) >= 8 {
			break
		}
	}
	return "data race: " + strings.Join(keep, "; ")
}

func runC03(t *T) {
	ctl, free := os.Getenv("ZZCTL"), os.Getenv("ZZRACE")
	var jobs []ctlJob
	sizes := []int{2, 3, 7, 12, 40, 1000}
	for _, n := range []int{2, 3} {
		for _, size := range sizes {
			jobs = append(jobs, ctlJob{"ball", 2, n, size, 2, 0}, ctlJob{"slab", 3, n, size, t.N(1, 2), 0})
			if n == 2 || !t.quick {
				jobs = append(jobs, ctlJob{"ball", 5, n, size, 1, 0})
			}
			if !t.quick {
				jobs = append(jobs, ctlJob{"corner", 2, n, size, 2, 0})
			}
		}
	}
	if !t.quick {
		for _, size := range sizes {
			jobs = append(jobs, ctlJob{"ball", 2, 2, size, 3, 0}, ctlJob{"ball", 2, 4, size, 2, 0})
		}
	}
	if ctl == "" {
		t.note("the concurrent code could not be put under the controlled scheduler; only free running executions were explored")
		jobs = nil
	}
	t.Par(len(jobs), func(i int) {
		j := jobs[i]
		t.Case(fmt.Sprintf("model=%s cells=%d goroutines=%d read=%d departures=%d", j.Solid, j.Cells, j.N, j.Size, j.Bound), func(c *Case) {
			b, _ := json.Marshal(j)
			out, report, code := runChild(ctl, "-ctl", string(b))
			switch {
			case code == 66:
				c.Fail("%s", raceSummary(report))
			case strings.Contains(out, "STALLED"):
				t.note("%s: the code waits for something outside of the controlled scheduler; not explored", c.key)
				return
			case code != 0:
				c.Fail("the renderer ended the process: %s", tail(report))
			}
			k := strings.Index(out, "RESULT ")
			var res ctlResult
			if k < 0 || json.Unmarshal([]byte(out[k+7:]), &res) != nil {
				c.Fail("no result: %s %s", tail(out), tail(report))
			}
			if res.Err != "" {
				c.Fail("schedule %s: %s", schedule(res.Schedule), res.Err)
			}
			c.States(res.Steps)
			c.Trans(res.Steps)
			c.Trace(res.Runs)
			c.Obs(c.key, res.Triangles)
			if !res.Complete {
				atomic.StoreInt32(&t.truncated, 1)
			}
		})
	})
	// Free running executions with the real sync package.
	all := append(solids(), repoSolids()...)
	t.Par(len(all), func(i int) {
		t.Case("free running solid="+all[i].name, func(c *Case) { freeReads(c, all[i], t.N(2, 6)) })
	})
	if free != "" {
		t.Case("free running with race detector", func(c *Case) {
			out, report, code := runChild(free, "-race-c03", strconv.Itoa(t.N(1, 4)))
			if code == 66 {
				c.Fail("%s", raceSummary(report))
			}
			if code != 0 || !strings.Contains(out, "RESULT ok") {
				c.Fail("%s %s", tail(out), tail(report))
			}
			c.Obs(out)
		})
	}
}

func freeReads(c *Case, s named3, rounds int) {
	for _, cells := range []int{2, 3, 6, 9} {
		ref, err := readMesh(render.NewOctreeRenderer(s.s, cells), 1<<12)
		if err != nil {
			c.Fail("sequential read: %v", err)
		}
		want := sortedTris(ref)
		for round := 0; round < rounds; round++ {
			for _, n := range []int{2, 3, 5, 8} {
				for _, size := range []int{1, 3, 8, 17, 41, 500, 5000} {
					got, err := readMesh(render.ZZConcurrent(s.s, cells, n), size)
					if err != nil {
						c.Fail("cells %d, %d goroutines, read size %d: %v", cells, n, size, err)
					}
					if p := sameTris(sortedTris(got), want); p != "" {
						c.Fail("cells %d, %d goroutines, read size %d: %s", cells, n, size, p)
					}
					c.Trace(1)
				}
			}
		}
		c.Obs(s.name, len(want))
	}
}

// raceC03 is the race detector part of C03.
func raceC03(rounds int) int {
	t := &T{obs: map[uint64]struct{}{}, running: map[string]time.Time{}, deadline: time.Now().Add(time.Hour)}
	var wg sync.WaitGroup
	var bad atomic.Value
	for _, s := range solids() {
		wg.Add(1)
		s := s
		go func() {
			defer wg.Done()
			c := t.exec(s.name, func(c *Case) { freeReads(c, s, rounds) })
			if c.failed != "" {
				bad.Store(s.name + ": " + c.failed)
			}
		}()
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		fmt.Println("RESULT", b)
		return 1
	}
	fmt.Println("RESULT ok")
	return 0
}

func schedule(c []int) string {
	var s []string
	for i, k := range c {
		if k != 0 {
			s = append(s, fmt.Sprintf("%d:%d", i, k))
		}
	}
	return "{" + strings.Join(s, " ") + "}"
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 1500 {
		s = s[:700] + " ... " + s[len(s)-700:]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}
