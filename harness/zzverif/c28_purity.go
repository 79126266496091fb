package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C28", "model_checking",
		"every shape of the catalogue of C12 (about 8000; more in the thorough tier), imported meshes and all assemblies: all ordered pairs of 13 (27) points; every constructor which takes a slice, with its elements overwritten one at a time; concurrent evaluation of every shape by 4 goroutines with the race detector",
		"a case is a shape: the value at each point is compared after evaluating each other point, after building and evaluating everything derived from it, and from several goroutines at once; distinct by the values", runC28)
}

// probes are points in and around a box, not symmetric about anything.
func probes(lo, hi r3.Vec, all bool) (out []r3.Vec) {
	at := func(a, b, t float64) float64 {
		if !(math.Abs(a) < 1e6 && math.Abs(b) < 1e6) {
			a, b = -1, 1
		}
		return a + (b-a)*t
	}
	n := 0
	for _, x := range []float64{-0.13, 0.31, 0.9} {
		for _, y := range []float64{0.07, 0.57, 1.21} {
			for _, z := range []float64{-0.2, 0.43, 0.77} {
				if n++; all || n%2 == 0 {
					out = append(out, v3(at(lo.X, hi.X, x), at(lo.Y, hi.Y, y), at(lo.Z, hi.Z, z)))
				}
			}
		}
	}
	return out
}

type evaluated struct {
	name string
	f    func(p r3.Vec) float64
	bb   func() [6]float64
	pts  []r3.Vec
	ref  []float64
	box  [6]float64
}

func everyShape(deep, all bool) (out []evaluated) {
	c2, c3 := catalogue(deep)
	as, _ := assemblies()
	c3 = append(c3, as...)
	c2 = append(c2, thread2()...)
	set := cells{[3]int{2, 2, 2}, 0x17}
	mesh := triangulate(set.faces(), 2)
	if s, err := sdfexp.ImportModel(mesh, 0); err == nil {
		c3 = append(c3, shape3{name: "imported", s: s})
		c3 = append(c3, shape3{name: "imported, moved", s: sdf.Transform3D(s, sdf.RotateX(1))})
	}
	if s, err := sdfexp.ImportModelV2(mesh, 0); err == nil {
		c3 = append(c3, shape3{name: "importedV2", s: s})
	}
	for _, s := range c2 {
		s := s
		b := s.s.Bounds()
		out = append(out, evaluated{name: "2D " + s.name, f: func(p r3.Vec) float64 { return s.s.Evaluate(v2(p.X, p.Y)) },
			bb: func() [6]float64 {
				b := s.s.Bounds()
				return [6]float64{b.Min.X, b.Min.Y, 0, b.Max.X, b.Max.Y, 0}
			}, pts: probes(v3(b.Min.X, b.Min.Y, 0), v3(b.Max.X, b.Max.Y, 1), all)})
	}
	for _, s := range c3 {
		s := s
		b := s.s.Bounds()
		out = append(out, evaluated{name: "3D " + s.name, f: s.s.Evaluate,
			bb: func() [6]float64 {
				b := s.s.Bounds()
				return [6]float64{b.Min.X, b.Min.Y, b.Min.Z, b.Max.X, b.Max.Y, b.Max.Z}
			}, pts: probes(b.Min, b.Max, all)})
	}
	return out
}

func bits(v float64) uint64 { return math.Float64bits(v) }

func runC28(t *T) {
	shapes := everyShape(!t.quick, !t.quick)
	// the first values, each shape on its own
	t.Par(len(shapes), func(i int) {
		s := &shapes[i]
		defer func() { recover() }()
		s.box = s.bb()
		for _, p := range s.pts {
			s.ref = append(s.ref, s.f(p))
		}
	})
	// histories of two evaluations, with all the other shapes evaluated meanwhile
	t.Par(len(shapes), func(i int) {
		s := shapes[i]
		t.Case("history "+strconv.Itoa(i)+" "+s.name, func(c *Case) {
			if len(s.ref) < len(s.pts) {
				c.Fail("evaluation panics")
			}
			for a, p := range s.pts {
				for b, q := range s.pts {
					s.f(p)
					if v := s.f(q); bits(v) != bits(s.ref[b]) {
						c.Fail("value at %v was %v, is %v after evaluating at %v", q, s.ref[b], v, p)
					}
					if s.bb() != s.box {
						c.Fail("bounds were %v, are %v", s.box, s.bb())
					}
					c.Trans(1)
				}
				c.ObsF(s.ref[a])
			}
			c.States(len(s.pts))
			c.Trace(1)
		})
	})
	// the same shapes built again, with everything else in existence
	again := everyShape(!t.quick, !t.quick)
	t.Par(len(again), func(i int) {
		t.Case("again "+strconv.Itoa(i)+" "+again[i].name, func(c *Case) {
			if again[i].name != shapes[i].name && !strings.Contains(again[i].name, "profile") {
				c.Fail("harness: order of the shapes")
			}
			if again[i].name != shapes[i].name {
				return
			}
			for k, p := range again[i].pts {
				v := again[i].f(p)
				c.ObsF(v)
				if bits(v) != bits(shapes[i].ref[k]) {
					c.Fail("value at %v of the same shape built again is %v, was %v", p, v, shapes[i].ref[k])
				}
			}
			c.Trans(len(again[i].pts))
		})
	})
	aliasing(t)
	if race := os.Getenv("ZZRACE"); race != "" {
		t.Case("concurrent evaluation with race detector", func(c *Case) {
			out, report, code := runChild(race, "-race-c28", strconv.Itoa(t.N(0, 1)))
			if code == 66 {
				c.Fail("%s", raceSummary(report))
			}
			if code != 0 || !strings.Contains(out, "RESULT ok") {
				c.Fail("%s %s", tail(out), tail(report))
			}
			c.Obs(out)
		})
	} else {
		t.note("the build with the race detector failed; concurrent evaluation ran without it")
	}
	t.Case("concurrent evaluation", func(c *Case) {
		if bad := concurrent(shapes); bad != "" {
			c.Fail("%s", bad)
		}
		c.Obs("concurrent", len(shapes))
	})
}

// concurrent evaluates every shape from 4 goroutines at once, each starting at another point.
func concurrent(shapes []evaluated) string {
	var bad atomic.Value
	for i := range shapes {
		s := shapes[i]
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			g := g
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						bad.Store(fmt.Sprintf("%s: panic: %v", s.name, r))
					}
				}()
				for k := range s.pts {
					j := (k + g*len(s.pts)/4) % len(s.pts)
					v := s.f(s.pts[j])
					s.bb()
					if len(s.ref) > j && bits(v) != bits(s.ref[j]) {
						bad.Store(fmt.Sprintf("%s: value at %v is %v, was %v", s.name, s.pts[j], v, s.ref[j]))
					}
				}
			}()
		}
		wg.Wait()
	}
	if b := bad.Load(); b != nil {
		return b.(string)
	}
	return ""
}

// raceC28 is the race detector part of C28.
func raceC28(thorough int) int {
	shapes := everyShape(false, thorough != 0)
	// without reference values: the first evaluation is concurrent
	if bad := concurrent(shapes); bad != "" {
		fmt.Println("RESULT", bad)
		return 1
	}
	fmt.Println("RESULT ok")
	return 0
}

// aliasing overwrites the slices given to constructors.
func aliasing(t *T) {
	grid := grid3(5, 2)
	values := func(f func(p r3.Vec) float64) (out []uint64) {
		for _, p := range grid {
			out = append(out, bits(f(p)))
		}
		return out
	}
	same := func(c *Case, what string, a, b []uint64) {
		for i := range a {
			if a[i] != b[i] {
				c.Fail("%s: value at %v was %v, is %v", what, grid[i], math.Float64frombits(a[i]), math.Float64frombits(b[i]))
			}
			c.Obs(a[i])
		}
		c.Trans(len(a))
	}
	on2 := func(s sdf.SDF2) func(p r3.Vec) float64 {
		return func(p r3.Vec) float64 { return s.Evaluate(v2(p.X, p.Y)) }
	}
	far3, far2 := sdf.SDF3(mSphere(v3(0, 0, 0), 3)), sdf.SDF2(mDisc(v2(0, 0), 3))
	for n := 2; n <= 4; n++ {
		for k := 0; k < n; k++ {
			n, k := n, k
			key := fmt.Sprintf("of %d, element %d", n, k)
			for _, blend := range []bool{false, true} {
				blend := blend
				t.Case(fmt.Sprintf("Union3D %s blend=%v", key, blend), func(c *Case) {
					var l []sdf.SDF3
					for i := 0; i < n; i++ {
						l = append(l, mSphere(v3(float64(i)-1, 0.5*float64(i%2), 0), 0.5))
					}
					s := sdf.Union3D(l...)
					if blend {
						s.SetMin(sdf.MinPoly(2, 0.3))
					}
					ref, b := values(s.Evaluate), s.Bounds()
					l[k] = far3
					same(c, "after changing the slice", ref, values(s.Evaluate))
					if s.Bounds() != b {
						c.Fail("bounds were %v, are %v", b, s.Bounds())
					}
				})
				t.Case(fmt.Sprintf("Union2D %s blend=%v", key, blend), func(c *Case) {
					var l []sdf.SDF2
					for i := 0; i < n; i++ {
						l = append(l, mDisc(v2(float64(i)-1, 0.5*float64(i%2)), 0.5))
					}
					s := sdf.Union2D(l...)
					if blend {
						s.SetMin(sdf.MinPoly(2, 0.3))
					}
					ref, b := values(on2(s)), s.Bounds()
					l[k] = far2
					same(c, "after changing the slice", ref, values(on2(s)))
					if s.Bounds() != b {
						c.Fail("bounds were %v, are %v", b, s.Bounds())
					}
				})
			}
			var set3 []r3.Vec
			var set2 []r2.Vec
			for i := 0; i < n; i++ {
				set3 = append(set3, v3(float64(i)-1, 0.5*float64(i%2), 0.25))
				set2 = append(set2, v2(float64(i)-1, 0.5*float64(i%2)))
			}
			keep3, keep2 := append([]r3.Vec(nil), set3...), append([]r2.Vec(nil), set2...)
			over := func(c *Case, build func(a []r3.Vec, b []r2.Vec) func(p r3.Vec) float64) {
				a, b := append([]r3.Vec(nil), keep3...), append([]r2.Vec(nil), keep2...)
				f := build(a, b)
				for i := range a {
					if a[i] != keep3[i] || b[i] != keep2[i] {
						c.Fail("the constructor changed its argument")
					}
				}
				ref := values(f)
				a[k], b[k] = v3(7, 7, 7), v2(7, 7)
				same(c, "after changing the slice", ref, values(f))
			}
			t.Case("Multi3D "+key, func(c *Case) {
				over(c, func(a []r3.Vec, _ []r2.Vec) func(p r3.Vec) float64 {
					return sdf.Multi3D(must3.Box(v3(1, 0.5, 0.25), 0), a).Evaluate
				})
			})
			t.Case("Orient3D "+key, func(c *Case) {
				over(c, func(a []r3.Vec, _ []r2.Vec) func(p r3.Vec) float64 {
					return sdf.Orient3D(must3.Cone(2, 1, 0.5, 0), v3(0, 0, 1), a).Evaluate
				})
			})
			t.Case("Multi2D "+key, func(c *Case) {
				over(c, func(_ []r3.Vec, b []r2.Vec) func(p r3.Vec) float64 {
					return on2(sdf.Multi2D(must2.Box(v2(1, 0.5), 0), b))
				})
			})
			if n >= 3 {
				t.Case("Polygon "+key, func(c *Case) {
					over(c, func(_ []r3.Vec, b []r2.Vec) func(p r3.Vec) float64 { return on2(must2.Polygon(b)) })
				})
				t.Case("PolygonBuilder "+key, func(c *Case) {
					over(c, func(_ []r3.Vec, b []r2.Vec) func(p r3.Vec) float64 {
						pb := must2.NewPolygon()
						pb.AddV2Set(b)
						v := pb.Vertices()
						f := on2(must2.Polygon(v))
						v[k] = v2(9, 9) // belongs to the caller
						w := pb.Vertices()
						for i := range w {
							if w[i] != b[i] {
								c.Fail("vertices changed from %v to %v", b, w)
							}
						}
						return f
					})
				})
			}
		}
	}
	set := cells{[3]int{2, 2, 2}, 0x17}
	for k := range triangulate(set.faces(), 0) {
		k := k
		for i, load := range []importer{
			importedOrNil,
			func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModelV2(m, tol) },
		} {
			load := load
			t.Case(fmt.Sprintf("import%d triangle %d", i, k), func(c *Case) {
				m := triangulate(set.faces(), 0)
				s, err := load(m, 0)
				if err != nil {
					c.Fail("%v", err)
				}
				ref := values(s.Evaluate)
				for i, tri := range triangulate(set.faces(), 0) {
					if m[i] != tri {
						c.Fail("the triangles passed were changed")
					}
				}
				m[k] = r3.Triangle{v3(5, 5, 5), v3(6, 5, 5), v3(5, 6, 5)}
				same(c, "after changing the slice", ref, values(s.Evaluate))
			})
		}
		t.Case(fmt.Sprintf("WriteSTL %d", k), func(c *Case) {
			m := triangulate(set.faces(), 0)
			m[k][1] = v3(0.1, 1./3, -7)
			keep := append([]r3.Triangle(nil), m...)
			var b bytes.Buffer
			if err := render.WriteSTL(&b, m); err != nil {
				c.Fail("%v", err)
			}
			for i := range m {
				if m[i] != keep[i] {
					c.Fail("triangle %d was %v, is %v after writing", i, keep[i], m[i])
				}
			}
			c.Obs(b.Len())
		})
	}
}
