package main

import (
	"fmt"
	"io"
	"math"

	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C01", "model_checking",
		"read sequences: a default buffer size with up to 2 (quick) or 3 (thorough) departures (two on executions of up to 60 and 250 calls, three up to 40 calls) at any call position, each to any size of the alphabet; TriangleBuffer: all words of 6 (8) operations of up to 5 triangles and of 4 (5) operations of up to 2600",
		"a case is one renderer and default buffer size; it explores the tree of read sequences with bounded departures on the real renderer, a state is an observed (calls, delivered) history node, and the oracle is the multiset of triangles of one reference read",
		runC01)
	register("C02", "model_checking",
		"all scripts of a conforming renderer with up to 3 (quick) or 4 (thorough) reads before the last, over {0,1,2,3,many} triangles, ended by io.EOF or an error with or without triangles",
		"a case is one script; distinct outcomes are the (triangles, error) pairs delivered", runC02)
}

// reads drives a fresh renderer through sizes (then def forever) and returns
// the triangles and the number of calls up to EOF.
func reads(mk func() render.Renderer, sizes func(call int) int, limit int) (out []r3.Triangle, ns []int, problem string) {
	r := mk()
	const guard = 3
	sentinel := r3.Triangle{v3(math.Inf(1), 0, 0)}
	var backing []r3.Triangle
	for call := 0; ; call++ {
		if call > limit {
			return out, ns, fmt.Sprintf("no io.EOF after %d reads", call)
		}
		k := sizes(call)
		if len(backing) < k+guard {
			backing = make([]r3.Triangle, k+guard)
		}
		buf := backing[:k]
		for i := k; i < k+guard; i++ {
			backing[i] = sentinel
		}
		n, err := r.ReadTriangles(buf)
		if n < 0 || n > k {
			return out, ns, fmt.Sprintf("call %d: read of %d returned n=%d", call, k, n)
		}
		for i := k; i < k+guard; i++ {
			if backing[i] != sentinel {
				return out, ns, fmt.Sprintf("call %d: read of %d wrote past its buffer", call, k)
			}
		}
		out = append(out, buf[:n]...)
		ns = append(ns, n)
		if err == nil {
			continue
		}
		if err != io.EOF {
			return out, ns, fmt.Sprintf("call %d: error %v", call, err)
		}
		// The end stays the end.
		var after [7]r3.Triangle
		for i := 0; i < 3; i++ {
			n, err := r.ReadTriangles(after[:1+3*i])
			if n != 0 || err != io.EOF {
				return out, ns, fmt.Sprintf("read after io.EOF returned %d, %v", n, err)
			}
		}
		return out, ns, ""
	}
}

func runC01(t *T) {
	alphabet := []int{1, 2, 3, 4, 5, 6, 7, 9, 16, 1000}
	defaults := []int{1, 4, 5, 6, 7, 11, 64, 1024}
	type job struct {
		s     named3
		cells int
		def   int
	}
	var jobs []job
	ss := solids()
	pick := []struct{ i, cells int }{{0, 2}, {0, 3}, {3, 6}, {5, 4}, {6, 3}, {7, 3}}
	if !t.quick {
		pick = append(pick, []struct{ i, cells int }{{0, 5}, {8, 5}, {9, 5}, {4, 7}}...)
	}
	for _, p := range pick {
		for _, d := range defaults {
			jobs = append(jobs, job{ss[p.i], p.cells, d})
		}
	}
	t.Par(len(jobs), func(i int) {
		j := jobs[i]
		t.Case(fmt.Sprintf("solid=%s cells=%d default=%d", j.s.name, j.cells, j.def), func(c *Case) {
			mk := func() render.Renderer { return render.NewOctreeRenderer(j.s.s, j.cells) }
			ref, err := readMesh(mk(), 1<<14)
			if err != nil {
				c.Fail("reference read: %v", err)
			}
			want := sortedTris(ref)
			if len(want) == 0 {
				c.Fail("no triangles")
			}
			bound := t.N(2, 3)
			states, trans, runs := 0, 0, 0
			var explore func(dev map[int]int, from int)
			explore = func(dev map[int]int, from int) {
				if t.stopped() {
					return
				}
				out, ns, problem := reads(mk, func(call int) int {
					if k, ok := dev[call]; ok {
						return k
					}
					return j.def
				}, 100000)
				if problem == "" {
					problem = sameTris(sortedTris(out), want)
				}
				if problem != "" {
					c.Fail("buffer sizes %d with departures %v: %s", j.def, dev, problem)
				}
				runs++
				trans += len(ns)
				states += len(ns) - from // new nodes of the execution tree
				if len(dev) == 0 {
					c.Obs(len(ns), len(out))
				}
				if len(dev) >= bound {
					return
				}
				if (len(dev) == 2 && len(ns) > 40) || (len(dev) == 1 && len(ns) > t.N(60, 250)) {
					// second and third departures are only explored on short executions
					return
				}
				for at := from; at < len(ns); at++ {
					for _, k := range alphabet {
						if k == j.def {
							continue
						}
						dev[at] = k
						explore(dev, at+1)
						delete(dev, at)
					}
				}
			}
			explore(map[int]int{}, 0)
			c.States(states)
			c.Trans(trans)
			c.Trace(runs)
		})
	})
	// periodic buffer sizes
	periods := [][]int{}
	for _, a := range alphabet {
		for _, b := range alphabet {
			periods = append(periods, []int{a, b})
			for _, d := range alphabet {
				periods = append(periods, []int{a, b, d})
			}
		}
	}
	all := append(solids(), repoSolids()...)
	t.Par(len(all), func(i int) {
		t.Case("periodic solid="+all[i].name, func(c *Case) {
			cells := t.N(5, 9)
			mk := func() render.Renderer { return render.NewOctreeRenderer(all[i].s, cells) }
			ref, err := readMesh(mk(), 1<<14)
			if err != nil {
				c.Fail("reference read: %v", err)
			}
			want := sortedTris(ref)
			for _, p := range periods {
				if t.stopped() {
					return
				}
				out, ns, problem := reads(mk, func(call int) int { return p[call%len(p)] }, 200000)
				if problem == "" {
					problem = sameTris(sortedTris(out), want)
				}
				if problem != "" {
					c.Fail("buffer sizes repeating %v: %s", p, problem)
				}
				c.States(len(ns))
				c.Trans(len(ns))
				c.Trace(1)
			}
			c.Obs(all[i].name, len(want))
		})
	})
	// large meshes
	type largeJob struct{ i, cells int }
	var large []largeJob
	for _, i := range []int{0, 5, 8} {
		for _, cells := range []int{33, 64, t.N(80, 150)} {
			large = append(large, largeJob{i, cells})
		}
	}
	t.Par(len(large), func(i int) {
		j := large[i]
		t.Case(fmt.Sprintf("large solid=%s cells=%d", ss[j.i].name, j.cells), func(c *Case) {
			mk := func() render.Renderer { return render.NewOctreeRenderer(ss[j.i].s, j.cells) }
			var want []r3.Triangle
			for _, size := range []int{1 << 17, 5, 6, 13, 100, 1024, 4097, 20000} {
				if t.stopped() {
					return
				}
				out, ns, problem := reads(mk, func(int) int { return size }, 10000000)
				if want == nil {
					want = sortedTris(out)
				} else if problem == "" {
					problem = sameTris(sortedTris(out), want)
				}
				if problem != "" {
					c.Fail("buffers of %d: %s", size, problem)
				}
				c.States(len(ns))
				c.Trans(len(ns))
				c.Trace(1)
			}
			c.Obs("large", len(want))
		})
	})
	// TriangleBuffer is a FIFO queue for every word of writes and reads.
	// -k: write k, k: read into k
	bufferWords(t, t.N(6, 8), []int{-1, -2, -5, 0, 1, 2, 3})
	bufferWords(t, t.N(4, 5), []int{-1, -31, -700, -1024, -2600, 0, 1, 65, 700, 1023, 1025, 2600})
	bufferWords(t, t.N(3, 4), []int{-1, -20000, -70000, 0, 1, 20000, 100000})
}

func bufferWords(t *T, depth int, ops []int) {
	t.Par(len(ops), func(first int) {
		t.Case(fmt.Sprintf("TriangleBuffer words starting with %d", ops[first]), func(c *Case) {
			word := make([]int, depth)
			var rec func(i int)
			rec = func(i int) {
				if i < depth {
					for _, o := range ops {
						word[i] = o
						rec(i + 1)
					}
					return
				}
				var b render.TriangleBuffer
				var model []float64
				next := 1.0
				for at, o := range word {
					if o < 0 {
						w := make([]r3.Triangle, -o)
						for k := range w {
							w[k] = r3.Triangle{v3(next, 0, 0)}
							model = append(model, next)
							next++
						}
						if n := b.Write(w); n != -o {
							c.Fail("word %v op %d: wrote %d of %d", word, at, n, -o)
						}
						for k := range w { // the argument belongs to the caller
							w[k] = r3.Triangle{}
						}
					} else {
						d := make([]r3.Triangle, o)
						n := b.Read(d)
						wantN := o
						if len(model) < wantN {
							wantN = len(model)
						}
						if n != wantN {
							c.Fail("word %v op %d: read %d, want %d", word, at, n, wantN)
						}
						for k := 0; k < n; k++ {
							if d[k][0].X != model[k] {
								c.Fail("word %v op %d: read triangle %v, want %v", word, at, d[k][0].X, model[k])
							}
						}
						model = model[n:]
					}
					if b.Len() != len(model) {
						c.Fail("word %v op %d: length %d, want %d", word, at, b.Len(), len(model))
					}
				}
				c.States(1)
				c.Trans(depth)
				c.Trace(1)
			}
			word[0] = ops[first]
			rec(1)
			c.Obs("buffer", first)
		})
	})
}
