package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/sdfexp"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C27", "exploration",
		"every constructor which returns an error, with all combinations of 9 (thorough 12) values from -1 to 100 (up to 3 dimensions: 16 (19) values from -1e300 to 1e300) for its dimensions, all styles, patterns, counts -1..4 and nil arguments; boolean operations with nil at each position",
		"a case is a constructor and one combination of arguments; whether it returned an error is compared with the documented conditions; distinct by outcome and value", runC27)
}

// combos calls f with every combination of n of the values.
func combos(vals []float64, n int, f func(a []float64)) {
	a := make([]float64, n)
	idx := make([]int, n)
	for {
		for i := range a {
			a[i] = vals[idx[i]]
		}
		f(append([]float64(nil), a...))
		i := 0
		for ; i < n; i++ {
			if idx[i]++; idx[i] < len(vals) {
				break
			}
			idx[i] = 0
		}
		if i == n {
			return
		}
	}
}

const (
	either = iota
	mustFail
	mustWork
)

func fails(bad bool) int {
	if bad {
		return mustFail
	}
	return mustWork
}

// atLeastFails is for conditions which are certain only one way.
func failsIf(bad bool) int {
	if bad {
		return mustFail
	}
	return either
}

type attempt struct {
	name string
	want int
	run  func() (sdf.SDF3, error)
}

func as3(s sdf.SDF2, err error) (sdf.SDF3, error) {
	if err != nil {
		if s != nil {
			return nil, fmt.Errorf("a shape and the error %v", err)
		}
		return nil, err
	}
	if s == nil {
		return nil, nil
	}
	return fn3{func(p r3.Vec) float64 { return s.Evaluate(v2(p.X, p.Y)) }, r3.Box{}}, nil
}

func runC27(t *T) {
	vals := []float64{-1, -1e-9, 0, 0.25, 0.5, 1, 2, 3, 100}
	few := []float64{-1, 0, 1e-9, 0.25, 3, 1000}
	if !t.quick {
		vals = append(vals, -1e6, 1e-6, 1e6)
		few = append(few, -1e-9, 1)
	}
	var jobs []attempt
	add := func(want int, run func() (sdf.SDF3, error), format string, a ...interface{}) {
		jobs = append(jobs, attempt{fmt.Sprintf(format, a...), want, run})
	}
	wide := append([]float64{-1e300, -1e-300, 1e-300, 1e-9, 9, 1e9, 1e300}, vals...)
	combos(wide, 1, func(a []float64) {
		add(fails(a[0] < 0), func() (sdf.SDF3, error) { return as3(form2.Circle(a[0])) }, "form2.Circle%v", a)
		add(fails(a[0] <= 0), func() (sdf.SDF3, error) { return form3.Sphere(a[0]) }, "form3.Sphere%v", a)
	})
	combos(wide, 2, func(a []float64) {
		add(failsIf(false), func() (sdf.SDF3, error) { return as3(form2.Line(a[0], a[1])) }, "form2.Line%v", a)
		add(fails(a[1] <= 0 || a[0] < 2*a[1]), func() (sdf.SDF3, error) { return form3.Capsule(a[0], a[1]) }, "form3.Capsule%v", a)
	})
	for n := -1; n <= 6; n++ {
		for _, r := range vals {
			n, r := n, r
			add(failsIf(n < 3), func() (sdf.SDF3, error) {
				v, err := form2.Nagon(n, r)
				if err != nil {
					return nil, err
				}
				if len(v) != n {
					return nil, nil
				}
				return as3(form2.Polygon(v))
			}, "form2.Nagon(%d,%v)", n, r)
			add(fails(n < 3), func() (sdf.SDF3, error) {
				var v []r2.Vec
				for i := 0; i < n; i++ {
					v = append(v, v2(r*float64(i), float64(i*i)))
				}
				return as3(form2.Polygon(v))
			}, "form2.Polygon(%d,%v)", n, r)
		}
	}
	combos(wide, 3, func(a []float64) {
		add(failsIf(false), func() (sdf.SDF3, error) { return as3(form2.Box(v2(a[0], a[1]), a[2])) }, "form2.Box%v", a)
		add(fails(a[1] <= 0 || a[2] < 0 || a[2] > a[1] || a[0] < 2*a[2]), func() (sdf.SDF3, error) { return form3.Cylinder(a[0], a[1], a[2]) }, "form3.Cylinder%v", a)
		add(either, func() (sdf.SDF3, error) { return form3.ChamferedCylinder(must3.Cylinder(2, 1, 0.1), a[1]*a[0], a[2]) }, "form3.ChamferedCylinder%v", a)
	})
	combos(vals, 4, func(a []float64) {
		want := fails(a[0] <= 0 || a[1] <= 0 || a[2] <= 0 || a[3] < 0)
		if want == mustWork && 2*a[3] > math.Min(a[0], math.Min(a[1], a[2])) {
			want = either
		}
		add(want, func() (sdf.SDF3, error) { return form3.Box(v3(a[0], a[1], a[2]), a[3]) }, "form3.Box%v", a)
		want = fails(a[0] <= 0 || a[3] < 0 || a[0] < 2*a[3])
		if want == mustWork && (a[1] < 0 || a[2] < 0 || a[3] > 0) {
			want = either
		}
		add(want, func() (sdf.SDF3, error) { return form3.Cone(a[0], a[1], a[2], a[3]) }, "form3.Cone%v", a)
	})
	// threads
	combos(wide, 3, func(a []float64) {
		for starts := -1; starts <= 1; starts++ {
			k := thread.Parameters{Radius: 1, Pitch: a[1], Starts: starts, Taper: a[2], HexF2F: 2}
			w := wound{must2.Circle(1), k}
			want := fails(a[0] <= 0 || a[1] <= 0)
			add(want, func() (sdf.SDF3, error) { return thread.Screw(a[0], w) }, "thread.Screw%v starts=%d", a, starts)
		}
		for _, th := range []thread.Threader{thread.ISO{D: a[1], P: a[2]}, thread.ISO{D: a[1], P: a[2], Ext: true}, thread.Acme{D: a[1], P: a[2]},
			thread.ANSIButtress{D: a[1], P: a[2]}, thread.PlasticButtress{D: a[1], P: a[2]}, thread.UTS{D: a[1], TPI: a[2]}, thread.NPT{D: a[1], TPI: a[2]}} {
			th := th
			add(failsIf(a[0] <= 0 || a[2] < 0), func() (sdf.SDF3, error) { return thread.Screw(a[0], th) }, "thread.Screw(%v, %+v)", a[0], th)
			for _, style := range []thread.NutStyle{0, thread.NutCircular, thread.NutHex, thread.NutKnurl, 9} {
				style := style
				add(failsIf(a[0] < 0 || style == 0 || style == 9 || a[2] < 0), func() (sdf.SDF3, error) {
					return thread.Nut(thread.NutParms{Thread: th, Style: style, Tolerance: a[0]})
				}, "thread.Nut(%+v, %v, %v)", th, style, a[0])
			}
		}
		add(failsIf(a[0] < 0), func() (sdf.SDF3, error) { return thread.HexHead(a[0], a[1], "tb") }, "thread.HexHead%v tb", a[:2])
		add(failsIf(a[0] <= 0 || a[1] <= 0 || a[2] <= 0), func() (sdf.SDF3, error) { return thread.KnurledHead(a[0], a[1], a[2]) }, "thread.KnurledHead%v", a)
	})
	good := thread.ISO{D: 4, P: 0.5, Ext: true}
	combos(wide, 3, func(a []float64) {
		for _, style := range []thread.NutStyle{0, thread.NutCircular, thread.NutHex, thread.NutKnurl, 9} {
			style := style
			for _, th := range []thread.Threader{good, nil, thread.ISO{D: -4, P: 0.5}, thread.ISO{D: 0, P: 0.5}, thread.ISO{D: 4, P: 0}} {
				th := th
				// total length, shank length, tolerance
				bad := th == nil || style == 0 || style == 9 || style == thread.NutCircular || a[0] < 0 || a[1] >= a[0] || a[1] < 0 || a[2] < 0
				if i, ok := th.(thread.ISO); ok && (i.D <= 0 || i.P <= 0) {
					bad = true
				}
				want := fails(bad)
				add(want, func() (sdf.SDF3, error) {
					return thread.Bolt(thread.BoltParms{Thread: th, Style: style, TotalLength: a[0], ShankLength: a[1], Tolerance: a[2]})
				}, "thread.Bolt(%+v, %v, %v)", th, style, a)
			}
		}
	})
	for _, style := range []thread.NutStyle{0, thread.NutCircular, thread.NutHex, thread.NutKnurl, 9} {
		style := style
		for _, tol := range vals {
			tol := tol
			add(mustFail, func() (sdf.SDF3, error) { return thread.Nut(thread.NutParms{Style: style, Tolerance: tol}) }, "thread.Nut(nil, %v, %v)", style, tol)
			add(fails(style == 0 || style == 9 || tol < 0), func() (sdf.SDF3, error) {
				return thread.Nut(thread.NutParms{Thread: good, Style: style, Tolerance: tol})
			}, "thread.Nut(good, %v, %v)", style, tol)
		}
	}
	add(mustFail, func() (sdf.SDF3, error) { return thread.Screw(1, nil) }, "thread.Screw nil")
	combos(vals, 5, func(a []float64) {
		bad := a[0] <= 0 || a[1] <= 0 || a[2] <= 0 || a[3] <= 0 || a[4] < 0 || a[4] >= math.Pi/2
		add(fails(bad), func() (sdf.SDF3, error) {
			return thread.Knurl(thread.KnurlParams{Length: a[0], Radius: a[1], Pitch: a[2], Height: a[3], Theta: a[4]})
		}, "thread.Knurl%v", a)
	})
	// objects
	combos(few, 4, func(a []float64) {
		for _, pat := range [][4]string{{}, {"x", "", "", ""}, {"x.x", "xx", "x", "..x"}} {
			k := obj2.PanelParams{Size: v2(a[0], 10), CornerRadius: a[1], HoleDiameter: a[2], HoleMargin: [4]float64{1, 1, 1, 1}, HolePattern: pat, Thickness: a[3]}
			add(either, func() (sdf.SDF3, error) { return as3(obj2.Panel(k)) }, "obj2.Panel %+v", k)
			add(failsIf(a[3] <= 0), func() (sdf.SDF3, error) { return obj3.Panel(k) }, "obj3.Panel %+v", k)
		}
	})
	for _, u := range []float64{-1, 0, 0.5, 1, 3} {
		for _, hp := range []float64{-4, 0, 1, 1.5, 7, 8} {
			combos(few, 3, func(a []float64) {
				for _, ridge := range []bool{false, true} {
					k := obj2.EuroRackParams{U: u, HP: hp, CornerRadius: a[0], HoleDiameter: a[1], Thickness: a[2], Ridge: ridge}
					bad := u < 1 || hp <= 1 || a[0] < 0 || a[1] < 0
					want2, want3 := failsIf(bad), failsIf(bad || a[2] <= 0)
					if !bad && a[0] <= 0.25 {
						want2 = mustWork
						if a[2] > 0 {
							want3 = mustWork
						}
					}
					add(want2, func() (sdf.SDF3, error) { return as3(obj2.EuroRackPanel(k)) }, "obj2.EuroRackPanel %+v", k)
					add(want3, func() (sdf.SDF3, error) { return obj3.EuroRackPanel(k) }, "obj3.EuroRackPanel %+v", k)
				}
			})
		}
	}
	combos(few, 4, func(a []float64) {
		for _, ind := range [][2]float64{{1, 1}, {-1, 1}, {1, 0}, {0, -1}} {
			k := obj3.PanelHoleParams{Diameter: a[0], Thickness: a[1], Indent: v3(a[2], ind[0], ind[1]), Offset: a[3], Orientation: ind[0]}
			bad := a[0] <= 0 || a[1] <= 0 || a[2] < 0 || ind[0] < 0 || ind[1] < 0 || a[3] < 0
			add(fails(bad), func() (sdf.SDF3, error) { return obj3.PanelHole(&k) }, "obj3.PanelHole %+v", k)
		}
	})
	combos(few, 5, func(a []float64) {
		for webs := -1; webs <= 3; webs++ {
			k := obj3.StandoffParams{PillarHeight: a[0], PillarDiameter: a[1], HoleDepth: a[2], HoleDiameter: a[3], NumberWebs: webs, WebHeight: 2, WebDiameter: a[4], WebWidth: 0.5}
			bad := a[0] < 0 || a[1] <= 0 || (a[2] != 0 && a[3] < 0)
			want := failsIf(bad)
			if !bad && a[4] > 0 {
				want = mustWork
			}
			add(want, func() (sdf.SDF3, error) { return obj3.Standoff(k) }, "obj3.Standoff %+v", k)
		}
	})
	// imported meshes
	tetra := []r3.Triangle{}
	q := [4]r3.Vec{v3(0, 0, 0), v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1)}
	for _, f := range [4][3]int{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}} {
		tetra = append(tetra, r3.Triangle{q[f[0]], q[f[1]], q[f[2]]})
	}
	for i, load := range []importer{
		func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return importedOrNil(m, tol) },
		func(m []r3.Triangle, tol float64) (sdf.SDF3, error) {
			s, err := sdfexp.ImportModelV2(m, tol)
			if err != nil {
				return nil, err
			}
			return s, nil
		},
	} {
		load := load
		for _, tol := range []float64{-1, -1e-9, 0, 1e-3, 0.8, 1, 3, 1e9} {
			tol := tol
			add(mustFail, func() (sdf.SDF3, error) { return load(nil, tol) }, "import%d nothing tol=%v", i, tol)
			add(fails(tol < 0 || tol > 0.75), func() (sdf.SDF3, error) { return load(tetra, tol) }, "import%d tetrahedron tol=%v", i, tol)
		}
	}
	t.note("%d attempts", len(jobs))
	points := grid3(3, 1.3)
	t.Par(len(jobs), func(i int) {
		j := jobs[i]
		t.Case(j.name, func(c *Case) {
			s, err := j.run()
			c.Eval(1)
			switch {
			case err != nil && j.want == mustWork:
				c.Fail("error: %v", err)
			case err == nil && j.want == mustFail:
				c.Fail("no error")
			case err == nil && s == nil:
				c.Fail("neither a shape nor an error")
			case err != nil && s != nil:
				c.Fail("a shape and an error: %v", err)
			case err != nil && err.Error() == "":
				c.Fail("an error without a message")
			}
			c.Obs(err != nil)
			if err != nil {
				return
			}
			s.Bounds()
			for _, p := range points {
				v := s.Evaluate(p)
				c.ObsF(v)
				if j.want == mustWork && math.IsNaN(v) {
					c.Fail("value at %v is NaN", p)
				}
			}
		})
	})
	runNil(t)
}

func importedOrNil(m []r3.Triangle, tol float64) (sdf.SDF3, error) {
	s, err := sdfexp.ImportModel(m, tol)
	if err != nil {
		return nil, err
	}
	return s, nil
}

// runNil checks that missing shapes are rejected when the operation is built.
func runNil(t *T) {
	a3, a2 := sdf.SDF3(mSphere(v3(0, 0, 0), 1)), sdf.SDF2(must2.Circle(1))
	type op struct {
		name string
		f    func()
	}
	var ops []op
	for n := 0; n <= 4; n++ {
		for nils := 0; nils < 1<<uint(n); nils++ {
			if nils == 0 && n >= 2 {
				continue
			}
			var l3 []sdf.SDF3
			var l2 []sdf.SDF2
			for i := 0; i < n; i++ {
				if nils>>uint(i)&1 != 0 {
					l3, l2 = append(l3, nil), append(l2, nil)
				} else {
					l3, l2 = append(l3, a3), append(l2, a2)
				}
			}
			ops = append(ops, op{fmt.Sprintf("Union3D %d %b", n, nils), func() { sdf.Union3D(l3...) }},
				op{fmt.Sprintf("Union2D %d %b", n, nils), func() { sdf.Union2D(l2...) }})
			if n == 2 {
				ops = append(ops, op{fmt.Sprintf("Difference3D %b", nils), func() { sdf.Difference3D(l3[0], l3[1]) }},
					op{fmt.Sprintf("Difference2D %b", nils), func() { sdf.Difference2D(l2[0], l2[1]) }},
					op{fmt.Sprintf("Intersect3D %b", nils), func() { sdf.Intersect3D(l3[0], l3[1]) }},
					op{fmt.Sprintf("Intersect2D %b", nils), func() { sdf.Intersect2D(l2[0], l2[1]) }},
					op{fmt.Sprintf("Loft3D %b", nils), func() { sdf.Loft3D(l2[0], l2[1], 1, 0) }})
			}
		}
	}
	ops = append(ops, op{"Revolve3D", func() { sdf.Revolve3D(nil, 1) }}, op{"ExtrudeRounded3D", func() { sdf.ExtrudeRounded3D(nil, 1, 0.1) }},
		op{"Transform3D", func() { sdf.Transform3D(nil, sdf.Translate3D(v3(1, 0, 0))) }}, op{"Multi3D", func() { sdf.Multi3D(nil, []r3.Vec{{}}) }},
		op{"Orient3D", func() { sdf.Orient3D(nil, v3(0, 0, 1), []r3.Vec{{X: 1}}) }}, op{"Multi2D", func() { sdf.Multi2D(nil, []r2.Vec{{}}) }})
	for _, o := range ops {
		o := o
		t.Case("nil "+o.name, func(c *Case) {
			c.Eval(1)
			c.Obs(o.name)
			if !panics(o.f) {
				c.Fail("accepted a missing shape")
			}
		})
	}
}
