package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C10", "model_checking",
		"all expression trees of depth 2 over 6 operators (union of 2 and 3, difference, intersection, cut, and each with a blending function) and 5 leaves in 3D and 2D, cuts by 6 planes with normals of lengths 1e-7..4e5, unions of up to 513 members; evaluated on a 7x7x7 (11x11x11) and 13x13 (25x25) lattice and in 26 and 16 directions up to 1e6 away",
		"a state is an expression tree built from the real constructors, its model the same expression in minimum, maximum and negation; distinct by the values on the lattice", runC10)
	register("C11", "exploration",
		"all pairs of 205 placed shapes from 1e-6 to 2e3 in size and up to 1e6 away, all triples of 38, in 2D unions on a lattice of 17x17 points (thorough: all pairs of 471, all triples of 76, 29x29 points) and in 16 directions up to 2e6 away",
		"a case is the first shape; each union is compared with the minimum over all of its members at every point; distinct by the values", runC11)
}

// value leaves: arbitrary functions, not distances, so that every combination of values is met.
func leaves3() []fn3 {
	bb := box3(v3(0, 0, 0), 2, 2, 2)
	mk := func(f func(p r3.Vec) float64) fn3 { return fn3{f, bb} }
	return []fn3{
		mSphere(v3(0.5, 0, 0), 1),
		mBox(v3(-0.25, 0.5, 0), v3(1, 0.5, 1.5)),
		mk(func(p r3.Vec) float64 { return p.X - 0.3*p.Y + 0.2*p.Z }),
		mk(func(p r3.Vec) float64 { return p.X*p.Y - p.Z }),
		mk(func(p r3.Vec) float64 { return 1.5 - math.Abs(p.X) - math.Abs(p.Y) - math.Abs(p.Z) }),
	}
}

type expr3 struct {
	name string
	s    sdf.SDF3
	f    func(p r3.Vec) float64
}

func cut3Model(a, n r3.Vec, f func(r3.Vec) float64) func(r3.Vec) float64 {
	l := math.Sqrt(n.X*n.X + n.Y*n.Y + n.Z*n.Z)
	return func(p r3.Vec) float64 {
		// distance against the direction of the normal: the side of the normal remains
		d := -((p.X-a.X)*n.X + (p.Y-a.Y)*n.Y + (p.Z-a.Z)*n.Z) / l
		return math.Max(d, f(p))
	}
}

// combine3 applies all operators to a pair.
func combine3(a, b, c expr3) (out []expr3) {
	blend := func(x, y float64) float64 { return 0.75*math.Min(x, y) + 0.125*x - 0.25*y - 0.1 } // not commutative
	add := func(name string, s sdf.SDF3, f func(p r3.Vec) float64) { out = append(out, expr3{name, s, f}) }
	ub2 := sdf.Union3D(a.s, b.s)
	ub2.SetMin(blend)
	add("blendunion("+a.name+","+b.name+")", ub2, func(p r3.Vec) float64 { return blend(a.f(p), b.f(p)) })
	u := sdf.Union3D(a.s, b.s)
	add("union("+a.name+","+b.name+")", u, func(p r3.Vec) float64 { return math.Min(a.f(p), b.f(p)) })
	add("union("+a.name+","+b.name+","+c.name+")", sdf.Union3D(a.s, b.s, c.s), func(p r3.Vec) float64 { return math.Min(a.f(p), math.Min(b.f(p), c.f(p))) })
	ub := sdf.Union3D(a.s, b.s, c.s)
	ub.SetMin(blend)
	add("blendunion("+a.name+","+b.name+","+c.name+")", ub, func(p r3.Vec) float64 { return blend(blend(a.f(p), b.f(p)), c.f(p)) })
	add("difference("+a.name+","+b.name+")", sdf.Difference3D(a.s, b.s), func(p r3.Vec) float64 { return math.Max(a.f(p), -b.f(p)) })
	db := sdf.Difference3D(a.s, b.s)
	db.SetMax(blend)
	add("blenddifference("+a.name+","+b.name+")", db, func(p r3.Vec) float64 { return blend(a.f(p), -b.f(p)) })
	add("intersection("+a.name+","+b.name+")", sdf.Intersect3D(a.s, b.s), func(p r3.Vec) float64 { return math.Max(a.f(p), b.f(p)) })
	ib := sdf.Intersect3D(a.s, b.s)
	ib.SetMax(blend)
	add("blendintersection("+a.name+","+b.name+")", ib, func(p r3.Vec) float64 { return blend(a.f(p), b.f(p)) })
	return out
}

func cuts3(a expr3) (out []expr3) {
	for i, n := range []r3.Vec{v3(1, 0, 0), v3(0, 0, -2), v3(0.3, -0.5, 0.7), v3(0, 1e-7, 0), v3(2e5, 1e5, -3e5), v3(-4e-5, 0, 3e-5), v3(1, 5e-4, -3e-4), v3(-2e-7, 1, 4e-6), v3(1e-5, -1e-4, -1)} {
		pt := []r3.Vec{v3(0.25, 5, 5), v3(1, 1, 0.5), v3(0, 0.1, -0.2), v3(0, 0, 0), v3(0.5, 0.5, -0.25), v3(1e3, 0.7, 1), v3(0.1, 0.2, 0.3), v3(0, 0, 0), v3(0.4, 0, -0.3)}[i]
		n := n
		out = append(out, expr3{fmt.Sprintf("cut(%s,%v,%v)", a.name, pt, n), sdf.Cut3D(a.s, pt, n), cut3Model(pt, n, a.f)})
	}
	return out
}

type expr2 struct {
	name string
	s    sdf.SDF2
	f    func(p r2.Vec) float64
}

func mDisc(c r2.Vec, r float64) fn2 {
	return fn2{func(p r2.Vec) float64 {
		x, y := p.X-c.X, p.Y-c.Y
		return math.Sqrt(x*x+y*y) - r
	}, r2.Box{Min: v2(c.X-r, c.Y-r), Max: v2(c.X+r, c.Y+r)}}
}

func mRect(c, h r2.Vec) fn2 {
	return fn2{func(p r2.Vec) float64 {
		return boxDist([]float64{p.X - c.X, p.Y - c.Y}, []float64{h.X, h.Y})
	}, r2.Box{Min: v2(c.X-h.X, c.Y-h.Y), Max: v2(c.X+h.X, c.Y+h.Y)}}
}

func leaves2() []fn2 {
	return []fn2{
		mDisc(v2(0.5, 0), 1),
		mRect(v2(-0.25, 0.5), v2(1, 0.5)),
		mDisc(v2(-2, -1.5), 0.75),
		mRect(v2(0.25, -2), v2(0.25, 1.75)),
	}
}

func combine2(a, b, c expr2) (out []expr2) {
	blend := func(x, y float64) float64 { return 0.75*math.Min(x, y) + 0.125*x - 0.25*y - 0.1 }
	add := func(name string, s sdf.SDF2, f func(p r2.Vec) float64) { out = append(out, expr2{name, s, f}) }
	add("union("+a.name+","+b.name+","+c.name+")", sdf.Union2D(a.s, b.s, c.s), func(p r2.Vec) float64 { return math.Min(a.f(p), math.Min(b.f(p), c.f(p))) })
	add("difference("+a.name+","+b.name+")", sdf.Difference2D(a.s, b.s), func(p r2.Vec) float64 { return math.Max(a.f(p), -b.f(p)) })
	db := sdf.Difference2D(a.s, b.s)
	db.SetMax(blend)
	add("blenddifference("+a.name+","+b.name+")", db, func(p r2.Vec) float64 { return blend(a.f(p), -b.f(p)) })
	add("intersection("+a.name+","+b.name+")", sdf.Intersect2D(a.s, b.s), func(p r2.Vec) float64 { return math.Max(a.f(p), b.f(p)) })
	ib := sdf.Intersect2D(a.s, b.s)
	ib.SetMax(blend)
	add("blendintersection("+a.name+","+b.name+")", ib, func(p r2.Vec) float64 { return blend(a.f(p), b.f(p)) })
	return out
}

// cuts2: the part to the right of the direction remains.
func cuts2(a expr2) (out []expr2) {
	for i, v := range []r2.Vec{v2(1, 0), v2(0, -2), v2(-0.3, 0.5), v2(-1e-7, 0), v2(2e5, 3e5), v2(-3e-5, -4e-5), v2(1, 5e-4), v2(-2e-6, -1)} {
		pt := []r2.Vec{v2(3, 0.25), v2(0.5, 0.5), v2(0.1, -0.2), v2(0, 0), v2(-0.5, 0.25), v2(1e3, 0.5), v2(0.2, 0.1), v2(-0.3, 0)}[i]
		l := math.Hypot(v.X, v.Y)
		v := v
		out = append(out, expr2{fmt.Sprintf("cut(%s,%v,%v)", a.name, pt, v), sdf.Cut2D(a.s, pt, v), func(p r2.Vec) float64 {
			left := (v.X*(p.Y-pt.Y) - v.Y*(p.X-pt.X)) / l
			return math.Max(left, a.f(p))
		}})
	}
	return out
}

func grid2(n int, h float64) (out []r2.Vec) {
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			out = append(out, v2(h*(2*float64(i)/float64(n-1)-1), h*(2*float64(j)/float64(n-1)-1)))
		}
	}
	return out
}

// far2 and far3 are points far away in all directions.
func far2() (out []r2.Vec) {
	for i := 0; i < 9; i++ {
		s, cs := math.Sincos(0.3 + 2*math.Pi*float64(i)/9)
		for _, r := range []float64{25, 700, 3e5} {
			out = append(out, v2(r*cs, r*s))
		}
	}
	return append(out, v2(1e5, 0), v2(-1e5, 0), v2(0, 1e5), v2(0, -1e5))
}

func far3() (out []r3.Vec) {
	for i := 0; i < 11; i++ {
		s, cs := math.Sincos(0.3 + 4*math.Pi*float64(i)/11)
		for _, r := range []float64{25, 700, 3e5} {
			z := r * (float64(i)/5.3 - 1)
			out = append(out, v3(r*cs, r*s, z))
		}
	}
	return append(out, v3(1e5, 0, 0), v3(-1e5, 0, 0), v3(0, 1e5, 0), v3(0, -1e5, 0), v3(0, 0, 1e5), v3(0, 0, -1e5))
}

func grid3(n int, h float64) (out []r3.Vec) {
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := 0; k < n; k++ {
				out = append(out, v3(h*(2*float64(i)/float64(n-1)-1), h*(2*float64(j)/float64(n-1)-1), h*(2*float64(k)/float64(n-1)-1)))
			}
		}
	}
	return out
}

func runC10(t *T) {
	var l3 []expr3
	for i, f := range leaves3() {
		l3 = append(l3, expr3{string(rune('a' + i)), f, f.f})
	}
	var e3 []expr3
	for i := range l3 {
		e3 = append(e3, cuts3(l3[i])...)
		for j := range l3 {
			e3 = append(e3, combine3(l3[i], l3[j], l3[(i+j+1)%len(l3)])...)
		}
	}
	pts := append(grid3(t.N(7, 11), 2.5), far3()...)
	for _, k := range []float64{40, 3e3, 1e6} { // far away
		for _, d := range dirs()[:13] {
			pts = append(pts, r3.Scale(k, r3.Unit(d)), r3.Scale(-k, d))
		}
	}
	check3 := func(c *Case, e expr3) {
		for _, p := range pts {
			got, want := e.s.Evaluate(p), e.f(p)
			if !near(got, want, 1e-12*(1+r3.Norm(p))) {
				c.Fail("%s at %v: %v, want %v", e.name, p, got, want)
			}
			c.ObsF(got)
		}
		c.States(1)
		c.Trans(len(pts))
		c.Trace(1)
	}
	first := append(append([]expr3{}, l3...), e3...)
	t.Par(len(first), func(i int) {
		t.Case("3D "+first[i].name, func(c *Case) {
			check3(c, first[i])
			for _, e := range cuts3(first[i]) {
				check3(c, e)
			}
			for j := range l3 {
				for _, e := range combine3(first[i], l3[j], l3[(j+1)%len(l3)]) {
					check3(c, e)
				}
				for _, e := range combine3(l3[j], first[i], l3[(j+2)%len(l3)]) {
					check3(c, e)
				}
			}
			if !t.quick {
				for j := range e3 {
					for _, e := range combine3(first[i], e3[j], l3[j%len(l3)]) {
						check3(c, e)
					}
				}
			}
		})
	})
	var l2 []expr2
	for i, f := range leaves2() {
		l2 = append(l2, expr2{string(rune('a' + i)), f, f.f})
	}
	var e2 []expr2
	for i := range l2 {
		e2 = append(e2, cuts2(l2[i])...)
		for j := range l2 {
			e2 = append(e2, combine2(l2[i], l2[j], l2[(i+j+1)%len(l2)])...)
		}
	}
	pts2 := append(grid2(t.N(13, 25), 3), far2()...)
	for _, k := range []float64{40, 3e3, 1e6} {
		for i := 0; i < 16; i++ {
			sn, cs := math.Sincos(float64(i) * math.Pi / 8)
			pts2 = append(pts2, v2(k*cs, k*sn))
		}
	}
	check2 := func(c *Case, e expr2) {
		for _, p := range pts2 {
			got, want := e.s.Evaluate(p), e.f(p)
			if !near(got, want, 1e-12*(1+r2.Norm(p))) {
				c.Fail("%s at %v: %v, want %v", e.name, p, got, want)
			}
			c.ObsF(got)
		}
		c.States(1)
		c.Trans(len(pts2))
		c.Trace(1)
	}
	// A union requires members that are within their bounds; expressions with a custom blend are not.
	var safe []expr2
	for _, e := range append(append([]expr2{}, l2...), e2...) {
		if len(e.name) < 5 || e.name[:5] != "blend" {
			safe = append(safe, e)
		}
	}
	t.Par(len(safe), func(i int) {
		t.Case("2D "+safe[i].name, func(c *Case) {
			check2(c, safe[i])
			for _, e := range cuts2(safe[i]) {
				check2(c, e)
			}
			for j := range safe {
				for _, e := range combine2(safe[i], safe[j], l2[(i+j)%len(l2)]) {
					check2(c, e)
				}
			}
		})
	})
	for _, e := range e2 {
		t.Case("2D single "+e.name, func(c *Case) { check2(c, e) })
	}
	// Unions of many members, in which every member is nearest somewhere, and blends set again and after evaluating.
	blend := func(x, y float64) float64 { return 0.75*math.Min(x, y) + 0.125*x - 0.25*y - 0.1 }
	big := append(append([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 65}, 100, 127, 128, 129), 255, 256, 257, 513)
	t.Par(len(big), func(i int) {
		n := big[i]
		t.Case(fmt.Sprintf("union of %d", n), func(c *Case) {
			var m3 []sdf.SDF3
			var f3 []fn3
			var m2 []sdf.SDF2
			var f2 []fn2
			for k := 0; k < n; k++ {
				a := 2.4 * float64(k)
				r := math.Sqrt(float64(k)+0.5) * 0.8
				o := v3(r*math.Cos(a), r*math.Sin(a), 0.3*math.Sin(5*a))
				f3 = append(f3, mSphere(o, 0.3+0.01*float64(k%7)))
				m3 = append(m3, f3[k])
				f2 = append(f2, mDisc(v2(o.X, o.Y), 0.3+0.01*float64(k%7)))
				m2 = append(m2, f2[k])
			}
			u3, u2 := sdf.Union3D(m3...), sdf.Union2D(m2...)
			b3, b2 := sdf.Union3D(m3...), sdf.Union2D(m2...)
			b3.SetMin(func(a, b float64) float64 { return a + b })
			b3.Evaluate(v3(1, 2, 3))
			b2.Evaluate(v2(1, 2))
			b3.SetMin(blend)
			b2.SetMin(blend)
			at := func(p r3.Vec) {
				q := v2(p.X, p.Y)
				w3, w2, g3, g2 := f3[0].f(p), f2[0].f(q), f3[0].f(p), f2[0].f(q)
				for k := 1; k < n; k++ {
					w3, w2 = math.Min(w3, f3[k].f(p)), math.Min(w2, f2[k].f(q))
					g3, g2 = blend(g3, f3[k].f(p)), blend(g2, f2[k].f(q))
				}
				for _, x := range [][2]float64{{u3.Evaluate(p), w3}, {u2.Evaluate(q), w2}, {b3.Evaluate(p), g3}, {b2.Evaluate(q), g2}} {
					if !near(x[0], x[1], 1e-12) {
						c.Fail("at %v: %v, want %v", p, x[0], x[1])
					}
					c.ObsF(x[0])
				}
			}
			for _, p := range append(grid3(5, 4), far3()...) {
				at(p)
			}
			for k := 0; k < n; k++ { // where each member is nearest
				b := f3[k].bb
				at(r3.Scale(0.5, r3.Add(b.Min, b.Max)))
			}
			c.States(4)
			c.Trans(n)
			c.Trace(1)
		})
	})
	t.Case("nil arguments", func(c *Case) {
		a3, a2 := l3[0].s, l2[0].s
		for i, f := range []func(){
			func() { sdf.Union3D(a3, nil) }, func() { sdf.Union3D(nil, a3) }, func() { sdf.Union3D() },
			func() { sdf.Difference3D(a3, nil) }, func() { sdf.Difference3D(nil, a3) },
			func() { sdf.Intersect3D(a3, nil) }, func() { sdf.Intersect3D(nil, a3) },
			func() { sdf.Union2D(a2, nil) }, func() { sdf.Union2D(a2, a2, nil) },
			func() { sdf.Difference2D(a2, nil) }, func() { sdf.Difference2D(nil, a2) },
			func() { sdf.Intersect2D(a2, nil) }, func() { sdf.Intersect2D(nil, a2) },
		} {
			if !panics(f) {
				c.Fail("construction %d with a nil argument does not panic", i)
			}
			c.States(1)
			c.Trans(1)
			c.Trace(1)
		}
		c.Obs("nil")
	})
}

func panics(f func()) (did bool) {
	defer func() {
		if recover() != nil {
			did = true
		}
	}()
	f()
	return false
}

// placed2 are shapes of all kinds on a lattice of places. Each is at least as far
// from a point as its bounds are, which is what makes skipping a member sound.
func placed2(places []r2.Vec) (out []expr2) {
	small := []struct {
		name string
		s    sdf.SDF2
	}{
		{"disc", must2.Circle(0.7)},
		{"dot", must2.Circle(0)},
		{"rect", must2.Box(v2(1.5, 0.5), 0)},
		{"roundrect", must2.Box(v2(0.6, 1.8), 0.2)},
		{"line", must2.Line(2, 0.1)},
		{"triangle", must2.Polygon([]r2.Vec{v2(0, 0), v2(1.2, 0.2), v2(0.3, 1)})},
		{"ring", sdf.Difference2D(must2.Circle(1.1), must2.Circle(0.8))},
		{"lens", sdf.Intersect2D(must2.Circle(1), sdf.Transform2D(must2.Circle(1), sdf.Translate2D(v2(1.4, 0))))},
		{"nothing left", sdf.Difference2D(must2.Box(v2(2, 2), 0), must2.Circle(3))},
		{"disjoint intersection", sdf.Intersect2D(must2.Circle(0.5), sdf.Transform2D(must2.Circle(0.5), sdf.Translate2D(v2(3, 0))))},
		{"half cut away", sdf.Cut2D(must2.Box(v2(2, 2), 0), v2(0.8, 0), v2(0, 1))},
		{"empty array", sdf.Array2D(must2.Circle(1), sdf.V2i{0, 1}, v2(1, 1))},
		{"array", sdf.Array2D(must2.Circle(0.2), sdf.V2i{3, 2}, v2(0.7, 0.9))},
		{"rotated copies", sdf.RotateUnion2D(sdf.Transform2D(must2.Box(v2(0.4, 0.2), 0), sdf.Translate2D(v2(0.9, 0))), 3, sdf.Rotate2D(2*math.Pi/3))},
		{"inflated", sdf.Offset2D(must2.Box(v2(0.5, 0.5), 0), 0.4)},
		{"scaled", sdf.ScaleUniform2D(must2.Circle(1), 0.4)},
		{"elongated", sdf.Elongate2D(must2.Circle(0.3), v2(1, 0.4))},
		{"pair", sdf.Union2D(must2.Circle(0.3), sdf.Transform2D(must2.Circle(0.3), sdf.Translate2D(v2(1.2, 0.9))))},
		{"slice", sdf.Slice2D(mSphere(v3(0, 0, 0), 1), v3(0, 0, 0.6), v3(0, 0, 1))},
	}
	for _, s := range small {
		for _, at := range places {
			x := s.s
			if at != (r2.Vec{}) {
				x = sdf.Transform2D(x, sdf.Translate2D(at))
			}
			out = append(out, expr2{fmt.Sprintf("%s@%v,%v", s.name, at.X, at.Y), x, x.Evaluate})
		}
	}
	return out
}

func runC11(t *T) {
	places := []r2.Vec{}
	n := t.N(10, 24)
	for i := 0; i < n; i++ {
		places = append(places, v2(float64(i*7%5)-2, float64(i*3%7)*0.75-2))
	}
	all := placed2(places)
	// far away, large and small members
	for _, at := range []r2.Vec{v2(1e3, -2e3), v2(-1e6, 3), v2(0, 60)} {
		for _, s := range []struct {
			name string
			s    sdf.SDF2
		}{{"dot", must2.Circle(0)}, {"disc", must2.Circle(0.7)}, {"big", must2.Circle(58)}, {"wide", must2.Box(v2(1990, 1), 0)}, {"speck", must2.Box(v2(1e-6, 1e-5), 0)}} {
			x := sdf.Transform2D(s.s, sdf.Translate2D(at))
			all = append(all, expr2{fmt.Sprintf("%s@%v,%v", s.name, at.X, at.Y), x, x.Evaluate})
		}
	}
	few := placed2(places[:t.N(2, 4)])
	pts := append(grid2(t.N(17, 29), 4.25), far2()...)
	for _, k := range []float64{50, 1e3, 2e6} {
		for i := 0; i < 16; i++ {
			sn, cs := math.Sincos(float64(i) * math.Pi / 8)
			pts = append(pts, v2(k*cs, k*sn))
		}
	}
	vals := func(es []expr2) [][]float64 {
		v := make([][]float64, len(es))
		for i, e := range es {
			v[i] = make([]float64, len(pts))
			for k, p := range pts {
				v[i][k] = e.s.Evaluate(p)
			}
		}
		return v
	}
	va, vf := vals(all), vals(few)
	check := func(c *Case, vs [][]float64, es ...expr2) {
		var ss []sdf.SDF2
		for _, e := range es {
			ss = append(ss, e.s)
		}
		u := sdf.Union2D(ss...)
		for k, p := range pts {
			want := math.Inf(1)
			for _, v := range vs {
				want = math.Min(want, v[k])
			}
			got := u.Evaluate(p)
			if !near(got, want, 1e-12) {
				var names []string
				for i, e := range es {
					names = append(names, fmt.Sprintf("%s (%v)", e.name, vs[i][k]))
				}
				c.Fail("union of %v at %v: %v, want %v", names, p, got, want)
			}
			c.ObsF(got)
		}
		c.Eval(len(pts))
	}
	t.Par(len(all), func(i int) {
		t.Case("pairs with "+all[i].name, func(c *Case) {
			for j := range all {
				check(c, [][]float64{va[i], va[j]}, all[i], all[j])
			}
		})
	})
	t.Par(len(few), func(i int) {
		t.Case("triples with "+few[i].name, func(c *Case) {
			for j := range few {
				if t.stopped() {
					return
				}
				for k := range few {
					check(c, [][]float64{vf[i], vf[j], vf[k]}, few[i], few[j], few[k])
				}
			}
		})
	})
	// Many members at once, and a union blended by the caller, which folds its members in order.
	t.Par(len(places), func(i int) {
		t.Case(fmt.Sprintf("rows from %d", i), func(c *Case) {
			for size := 4; size <= 40 && size <= len(all); size += 3 {
				var es []expr2
				var vs [][]float64
				for k := 0; k < size; k++ {
					q := (i*17 + k*11) % len(all)
					es = append(es, all[q])
					vs = append(vs, va[q])
				}
				check(c, vs, es...)
			}
			blends := map[string]func(a, b float64) float64{
				"asymmetric": func(x, y float64) float64 { return 0.75*math.Min(x, y) + 0.125*x - 0.25*y - 0.1 },
				"round":      sdf.MinRound(0.6), "poly": sdf.MinPoly(2, 0.8), "min": math.Min,
			}
			for name, f := range blends {
				for n := 2; n <= 5; n++ {
					var ss []sdf.SDF2
					for k := 0; k < n; k++ {
						ss = append(ss, all[(i*19+k*23)%len(all)].s)
					}
					u := sdf.Union2D(ss...)
					u.SetMin(f)
					for _, p := range pts {
						want := ss[0].Evaluate(p)
						for _, s := range ss[1:] {
							want = f(want, s.Evaluate(p))
						}
						if got := u.Evaluate(p); !near(got, want, 1e-12) {
							c.Fail("%s blend at %v: %v, want %v", name, p, got, want)
						}
					}
				}
				c.Eval(len(pts))
			}
		})
	})
}
