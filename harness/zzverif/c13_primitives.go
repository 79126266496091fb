package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C13", "exploration",
		"spheres, boxes, cylinders, capsules, truncated cones and chamfered cylinders over a lattice of dimensions (sizes 0.02..70, roundings from none to the largest that fits), on lattices of 17x17x17 (25x25x25) points of 2 extents and coarser ones of up to 40 times the size; points within 1e-10, 1e-7 and 1e-4 of the size of the planes of the faces",
		"a case is a primitive and its dimensions, compared with an independent distance function and the dimensions of its bounds; distinct by the values", runC13)
	register("C14", "exploration",
		"circles, boxes, lines and regular polygons over a lattice of dimensions, on lattices of 61x61 (101x101) points of 2 extents and coarser ones of up to 50 times the size; points within 1e-10, 1e-7 and 1e-4 of the size of the lines of the sides",
		"a case is a primitive and its dimensions, compared with an independent distance function and the dimensions of its bounds; distinct by the values", runC14)
}

// polyDist is the signed distance to a simple polygon: even-odd inside, nearest edge outside.
func polyDist(v []r2.Vec, p r2.Vec) float64 {
	d := math.Inf(1)
	in := false
	for i := range v {
		a, b := v[i], v[(i+1)%len(v)]
		d = math.Min(d, segDist(a, b, p))
		if (a.Y > p.Y) != (b.Y > p.Y) && p.X < a.X+(p.Y-a.Y)*(b.X-a.X)/(b.Y-a.Y) {
			in = !in
		}
	}
	if in {
		return -d
	}
	return d
}

func segDist(a, b, p r2.Vec) float64 {
	dx, dy := b.X-a.X, b.Y-a.Y
	l := dx*dx + dy*dy
	t := 0.0
	if l > 0 {
		t = math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
	}
	return math.Hypot(p.X-a.X-t*dx, p.Y-a.Y-t*dy)
}

// cmp3 compares a shape with its model on two lattices.
func cmp3(c *Case, n int, s sdf.SDF3, want func(r3.Vec) float64, bb r3.Box) {
	if s == nil {
		c.Fail("no shape")
	}
	got := s.Bounds()
	const tol = 1e-9
	if !inside3(got, bb.Min, tol) || !inside3(got, bb.Max, tol) || !inside3(bb, got.Min, tol) || !inside3(bb, got.Max, tol) {
		c.Fail("bounds %v, want %v", got, bb)
	}
	sz := r3.Sub(bb.Max, bb.Min)
	m := math.Max(sz.X, math.Max(sz.Y, sz.Z))
	for _, e := range []struct {
		n   int
		ext float64
		sz  r3.Vec
	}{{n, 0.5, sz}, {n, 1.3, sz}, {9, 2, v3(m, m, m)}, {5, 40, v3(m, m, m)}, {5, 2e4, v3(m, m, m)}, {5, 3e7, v3(m, m, m)}} {
		for _, q := range grid3(e.n, e.ext) {
			p := v3(q.X*e.sz.X, q.Y*e.sz.Y, q.Z*e.sz.Z)
			a, b := s.Evaluate(p), want(p)
			c.ObsF(a)
			if !(math.Abs(a-b) <= tol*(m+math.Abs(b))) {
				c.Fail("value %v at %v, want %v", a, p, b)
			}
		}
		c.Eval(e.n * e.n * e.n)
	}
}

func cmp2(c *Case, n int, s sdf.SDF2, want func(r2.Vec) float64, bb r2.Box) {
	if s == nil {
		c.Fail("no shape")
	}
	got := s.Bounds()
	const tol = 1e-9
	for _, d := range []float64{got.Min.X - bb.Min.X, got.Min.Y - bb.Min.Y, got.Max.X - bb.Max.X, got.Max.Y - bb.Max.Y} {
		if !(math.Abs(d) <= tol) {
			c.Fail("bounds %v, want %v", got, bb)
		}
	}
	sz := r2.Sub(bb.Max, bb.Min)
	m := math.Max(sz.X, sz.Y)
	for _, e := range []struct {
		n   int
		ext float64
		sz  r2.Vec
	}{{n, 0.5, sz}, {n, 1.3, sz}, {41, 3, v2(m, m)}, {9, 50, v2(m, m)}, {9, 2e4, v2(m, m)}, {9, 3e7, v2(m, m)}} {
		for _, q := range grid2(e.n, e.ext) {
			p := v2(q.X*e.sz.X, q.Y*e.sz.Y)
			a, b := s.Evaluate(p), want(p)
			c.ObsF(a)
			if !(math.Abs(a-b) <= tol*(m+math.Abs(b))) {
				c.Fail("value %v at %v, want %v", a, p, b)
			}
		}
		c.Eval(e.n * e.n)
	}
}

// marks returns the coordinates of some surfaces along an axis, points close to them, and points between and beyond.
func marks(m float64, surfaces ...float64) []float64 {
	out := []float64{0, 0.3 * surfaces[0], 1.4 * surfaces[0], 3 * m}
	for _, h := range surfaces {
		for _, e := range []float64{0, 1e-10, -1e-10, 1e-7, -1e-7, 1e-4, -1e-4} {
			out = append(out, h+e*m)
		}
	}
	return out
}

// near3 compares a shape with its model at all combinations of marks, with alternating signs.
func near3(c *Case, s sdf.SDF3, want func(r3.Vec) float64, m float64, xs, ys, zs []float64) {
	for i, x := range xs {
		for j, y := range ys {
			for k, z := range zs {
				p := v3(x, y, z)
				if (i+j)%2 == 0 {
					p.X = -x
				}
				if (j+k)%3 == 0 {
					p.Y = -y
				}
				if (i+2*j+k)%2 == 0 {
					p.Z = -z
				}
				a, b := s.Evaluate(p), want(p)
				c.ObsF(a)
				if !(math.Abs(a-b) <= 1e-9*(m+math.Abs(b))) {
					c.Fail("value %v at %v, want %v", a, p, b)
				}
			}
		}
	}
	c.Eval(len(xs) * len(ys) * len(zs))
}

func near2(c *Case, s sdf.SDF2, want func(r2.Vec) float64, m float64, xs, ys []float64) {
	for i, x := range xs {
		for j, y := range ys {
			for k := 0; k < 4; k++ {
				p := v2(x, y)
				if k&1 != 0 {
					p.X = -x
				}
				if k&2 != 0 {
					p.Y = -y
				}
				a, b := s.Evaluate(p), want(p)
				c.ObsF(a)
				if !(math.Abs(a-b) <= 1e-9*(m+math.Abs(b))) {
					c.Fail("value %v at %v (%d,%d), want %v", a, p, i, j, b)
				}
			}
		}
	}
	c.Eval(4 * len(xs) * len(ys))
}

func ctr3(h r3.Vec) r3.Box { return box3(v3(0, 0, 0), h.X, h.Y, h.Z) }

// frustum is the distance to a truncated cone with rounded edges.
func frustum(height, r0, r1, round float64) func(p r3.Vec) float64 {
	// the trapezoid of the cone, inset by the rounding
	l := math.Hypot(height, r0-r1)
	nx, ny := height/l, (r0-r1)/l // outward normal of the slope
	h := height/2 - round
	// points of the inset slope line nx*x+ny*y=c at y=-h and y=h
	k := nx*r0 - ny*height/2 - round
	q0, q1 := (k+ny*h)/nx, (k-ny*h)/nx
	if math.Abs(q0) < 1e-12 { // a point
		q0 = 0
	}
	if math.Abs(q1) < 1e-12 {
		q1 = 0
	}
	v := []r2.Vec{v2(-q0, -h), v2(q0, -h), v2(q1, h), v2(-q1, h)}
	return func(p r3.Vec) float64 {
		q := v2(math.Sqrt(p.X*p.X+p.Y*p.Y), p.Z)
		d := math.Inf(1)
		for i := range v {
			d = math.Min(d, segDist(v[i], v[(i+1)%4], q))
		}
		if math.Abs(q.Y) < h && q.X*nx+q.Y*ny < k {
			d = -d
		}
		return d - round
	}
}

func runC13(t *T) {
	n := t.N(17, 25)
	type job struct {
		name string
		run  func(c *Case)
	}
	var jobs []job
	add := func(name string, run func(c *Case)) { jobs = append(jobs, job{name, run}) }
	both := func(name string, must func() sdf.SDF3, form func() (sdf.SDF3, error), want func(r3.Vec) float64, bb r3.Box, xyz ...[]float64) {
		m := math.Max(bb.Max.X, math.Max(bb.Max.Y, bb.Max.Z))
		add("must3."+name, func(c *Case) {
			cmp3(c, n, must(), want, bb)
			if xyz != nil {
				near3(c, must(), want, m, marks(m, xyz[0]...), marks(m, xyz[1]...), marks(m, xyz[2]...))
			}
		})
		add("form3."+name, func(c *Case) {
			s, err := form()
			if err != nil {
				c.Fail("%v", err)
			}
			cmp3(c, n, s, want, bb)
		})
	}
	for _, r := range []float64{1e-3, 0.1, 0.5, 1, 1.7, 40} {
		r := r
		both(fmt.Sprintf("Sphere(%v)", r), func() sdf.SDF3 { return must3.Sphere(r) }, func() (sdf.SDF3, error) { return form3.Sphere(r) },
			mSphere(v3(0, 0, 0), r).f, ctr3(v3(r, r, r)))
	}
	sides := []float64{0.02, 0.5, 1, 3, 60}
	for _, x := range sides {
		for _, y := range sides {
			for _, z := range sides {
				m := math.Min(x, math.Min(y, z))
				for _, q := range []float64{0, 0.1, 0.3, 0.5} {
					size, round := v3(x, y, z), q*m
					h := r3.Scale(0.5, size)
					both(fmt.Sprintf("Box(%v,%v)", size, round),
						func() sdf.SDF3 { return must3.Box(size, round) }, func() (sdf.SDF3, error) { return form3.Box(size, round) },
						func(p r3.Vec) float64 {
							return boxDist([]float64{p.X, p.Y, p.Z}, []float64{h.X - round, h.Y - round, h.Z - round}) - round
						}, ctr3(h), []float64{h.X, h.X - round}, []float64{h.Y, h.Y - round}, []float64{h.Z, h.Z - round})
				}
			}
		}
	}
	for _, h := range []float64{0.02, 0.5, 1, 2, 4, 70} {
		for _, r := range []float64{0.01, 0.25, 0.5, 1, 3, 35} {
			for _, q := range []float64{0, 0.1, 0.5, 1} {
				h, r, round := h, r, q*math.Min(r, h/2)
				both(fmt.Sprintf("Cylinder(%v,%v,%v)", h, r, round),
					func() sdf.SDF3 { return must3.Cylinder(h, r, round) }, func() (sdf.SDF3, error) { return form3.Cylinder(h, r, round) },
					func(p r3.Vec) float64 {
						return boxDist([]float64{math.Sqrt(p.X*p.X + p.Y*p.Y), p.Z}, []float64{r - round, h/2 - round}) - round
					}, ctr3(v3(r, r, h/2)), []float64{r, r - round}, []float64{0}, []float64{h / 2, h/2 - round})
			}
			if h >= 2*r {
				h, r := h, r
				add(fmt.Sprintf("form3.Capsule(%v,%v)", h, r), func(c *Case) {
					s, err := form3.Capsule(h, r)
					if err != nil {
						c.Fail("%v", err)
					}
					cmp3(c, n, s, func(p r3.Vec) float64 {
						z := math.Max(0, math.Abs(p.Z)-(h/2-r))
						return math.Sqrt(p.X*p.X+p.Y*p.Y+z*z) - r
					}, ctr3(v3(r, r, h/2)))
				})
			}
		}
	}
	radii := []float64{0, 0.25, 0.5, 1, 2.5, 30}
	for _, h := range []float64{0.05, 0.5, 1, 2, 4, 50} {
		for _, r0 := range radii {
			for _, r1 := range radii {
				if r0 == 0 && r1 == 0 {
					continue
				}
				for _, q := range []float64{0, 0.1, 0.25, 0.5} {
					h, r0, r1, round := h, r0, r1, q*h/2
					l := math.Hypot(h, r0-r1)
					nx, ny := h/l, (r0-r1)/l
					i0, i1 := r0-(1+ny)*round/nx, r1-(1-ny)*round/nx
					if i0 < 0 || i1 < 0 {
						continue // the rounding is larger than the cone
					}
					r := math.Max(i0, i1) + round
					both(fmt.Sprintf("Cone(%v,%v,%v,%v)", h, r0, r1, round),
						func() sdf.SDF3 { return must3.Cone(h, r0, r1, round) }, func() (sdf.SDF3, error) { return form3.Cone(h, r0, r1, round) },
						frustum(h, r0, r1, round), ctr3(v3(r, r, h/2)), []float64{r0, r1, i0, i1}, []float64{0}, []float64{h / 2, h/2 - round})
				}
			}
		}
	}
	// A chamfered cylinder is the intersection of a shape with a cylinder of its size with cut edges.
	for _, l := range []float64{1, 2.5} {
		for _, r := range []float64{0.5, 1, 1.5} {
			for _, kb := range []float64{0, 0.1, 0.3, 0.6, 1, 1.3} {
				for _, kt := range []float64{0, 0.1, 0.3, 0.6, 1, 1.3} {
					l, r, kb, kt := l, r, kb, kt
					if r*(kb+kt)*math.Sqrt2/2 > 1.99*l {
						continue // the cuts meet
					}
					shapes := []fn3{
						{func(p r3.Vec) float64 { return boxDist([]float64{p.X, p.Y, p.Z}, []float64{r, r, l}) }, ctr3(v3(r, r, l))},
						{func(p r3.Vec) float64 { return math.Sqrt(p.X*p.X+p.Y*p.Y) - r*(1-0.1*math.Cos(5*p.Z)) }, ctr3(v3(r, r, l))},
					}
					// the size of the cut is the length of the legs of the cut corner
					// times sqrt(1/2) measured from the corner to the ends of the cut
					cb, ct := r*kb*math.Sqrt2/2, r*kt*math.Sqrt2/2
					v := []r2.Vec{v2(0, -l), v2(r-cb, -l), v2(r, -l+cb), v2(r, l-ct), v2(r-ct, l), v2(0, l)}
					for i, s := range shapes {
						s := s
						want := func(p r3.Vec) float64 {
							return math.Max(s.f(p), polyDist(v, v2(math.Sqrt(p.X*p.X+p.Y*p.Y), p.Z)))
						}
						both(fmt.Sprintf("ChamferedCylinder(shape %d of radius %v half length %v,%v,%v)", i, r, l, kb, kt),
							func() sdf.SDF3 { return must3.ChamferedCylinder(s, kb, kt) }, func() (sdf.SDF3, error) { return form3.ChamferedCylinder(s, kb, kt) },
							func(p r3.Vec) float64 {
								return want(p)
							}, s.bb)
					}
				}
			}
		}
	}
	t.Par(len(jobs), func(i int) { t.Case(jobs[i].name, jobs[i].run) })
}

func runC14(t *T) {
	n := t.N(61, 101)
	type job struct {
		name string
		run  func(c *Case)
	}
	var jobs []job
	both := func(name string, must func() sdf.SDF2, form func() (sdf.SDF2, error), want func(r2.Vec) float64, h r2.Vec, xy ...[]float64) {
		bb := r2.Box{Min: v2(-h.X, -h.Y), Max: h}
		m := math.Max(h.X, h.Y)
		jobs = append(jobs, job{"must2." + name, func(c *Case) {
			cmp2(c, n, must(), want, bb)
			if xy != nil {
				near2(c, must(), want, m, marks(m, xy[0]...), marks(m, xy[1]...))
			}
		}}, job{"form2." + name, func(c *Case) {
			s, err := form()
			if err != nil {
				c.Fail("%v", err)
			}
			cmp2(c, n, s, want, bb)
		}})
	}
	for _, r := range []float64{1e-3, 0.1, 0.5, 1, 1.7, 40} {
		r := r
		both(fmt.Sprintf("Circle(%v)", r), func() sdf.SDF2 { return must2.Circle(r) }, func() (sdf.SDF2, error) { return form2.Circle(r) },
			mDisc(v2(0, 0), r).f, v2(r, r))
	}
	sides := []float64{0.01, 0.3, 0.5, 1, 2, 3, 10, 200}
	for _, x := range sides {
		for _, y := range sides {
			for _, q := range []float64{0, 0.1, 0.25, 0.4, 0.5} {
				size, round := v2(x, y), q*math.Min(x, y)
				h := r2.Scale(0.5, size)
				both(fmt.Sprintf("Box(%v,%v)", size, round), func() sdf.SDF2 { return must2.Box(size, round) }, func() (sdf.SDF2, error) { return form2.Box(size, round) },
					func(p r2.Vec) float64 {
						return boxDist([]float64{p.X, p.Y}, []float64{h.X - round, h.Y - round}) - round
					}, h, []float64{h.X, h.X - round}, []float64{h.Y, h.Y - round})
			}
		}
		for _, round := range []float64{0, 0.1, 0.5, 2} {
			l, round := x, round
			both(fmt.Sprintf("Line(%v,%v)", l, round), func() sdf.SDF2 { return must2.Line(l, round) }, func() (sdf.SDF2, error) { return form2.Line(l, round) },
				func(p r2.Vec) float64 { return segDist(v2(-l/2, 0), v2(l/2, 0), p) - round }, v2(l/2+round, round), []float64{l / 2, l/2 + round}, []float64{round, 0})
		}
	}
	var counts []int
	for k := 3; k <= t.N(24, 64); k++ {
		counts = append(counts, k)
	}
	for _, k := range append(counts, 96, 100, 127, 128, 129, 180, 256, 360, 365, 1000, 4096) {
		for _, r := range []float64{0.3, 1, 7} {
			k, r := k, r
			jobs = append(jobs, job{fmt.Sprintf("Nagon(%d,%v)", k, r), func(c *Case) {
				want := make([]r2.Vec, k)
				for i := range want {
					s, cs := math.Sincos(2 * math.Pi * float64(i) / float64(k))
					want[i] = v2(r*cs, r*s)
				}
				b, err := form2.Nagon(k, r)
				if err != nil {
					c.Fail("%v", err)
				}
				a := must2.Nagon(k, r)
				if len(a) != k || len(b) != k {
					c.Fail("%d and %d vertices", len(a), len(b))
				}
				for i := range want {
					if r2.Norm(r2.Sub(a[i], want[i])) > 1e-9*r || r2.Norm(r2.Sub(b[i], want[i])) > 1e-9*r {
						c.Fail("vertex %d is %v and %v, want %v", i, a[i], b[i], want[i])
					}
				}
				c.Obs(a)
				// what is returned belongs to the caller
				for i := range a {
					a[i], b[i] = v2(0, 0), v2(1e9, 0)
				}
				a = must2.Nagon(k, r)
				if b, err = form2.Nagon(k, r); err != nil || len(a) != k || len(b) != k {
					c.Fail("%d and %d vertices the second time, error %v", len(a), len(b), err)
				}
				for i := range want {
					if r2.Norm(r2.Sub(a[i], want[i])) > 1e-9*r || r2.Norm(r2.Sub(b[i], want[i])) > 1e-9*r {
						c.Fail("vertex %d is %v and %v the second time, want %v", i, a[i], b[i], want[i])
					}
				}
				c.Eval(2)
			}})
		}
	}
	t.Par(len(jobs), func(i int) { t.Case(jobs[i].name, jobs[i].run) })
}
