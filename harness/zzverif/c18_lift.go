package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C18", "exploration",
		"8 2D shapes, 6 heights from 0.1 to 300, 11 twists, 8x8 scales, roundings of 0..1/2 of the height, all pairs of the shapes for lofts; lattices of 15x15x17 (25x25x33) points reaching outside of the height",
		"a case is an extrusion with its arguments, compared with the section of the 2D shape it stands for at each height; distinct by the values", runC18)
	register("C19", "exploration",
		"8 2D shapes, on both sides of the axis and off it, 45 (125) angles around the circle including every right angle, their neighbours, angles of up to four turns, and angles that are not positive; lattices of 25x25x13 (41x41x21) points",
		"a case is a shape and an angle, compared with the full revolution cut by the wedge of the angle; distinct by the values", runC19)
	register("C20", "exploration",
		"degrees 0..12, 15..17, 20, 32, 33, 50, 64 and 101 and 12 radii of the blending functions, all pairs of 41 (81) values in [-4,4] and pairs of values up to 1e6 apart or from 0",
		"a case is a blending function; distinct by the values", runC20)
}

func flats() []named2 {
	return []named2{
		{"asym", asym2()},
		{"disc", mDisc(v2(0.5, 0.25), 1)},
		{"rect", mRect(v2(0, 0), v2(1, 0.5))},
		{"offrect", mRect(v2(1.5, -0.5), v2(0.25, 1))},
		{"circle", must2.Circle(0.75)},
		{"roundbox", must2.Box(v2(2, 1), 0.2)},
		{"ell", must2.Polygon(ell())},
		{"line", sdf.Transform2D(must2.Line(1, 0.2), sdf.Rotate2D(0.5))},
	}
}

// grow is the distance to a slab of half height h over a section, both distances exact.
func slabDist(a, b float64) float64 {
	return math.Min(math.Max(a, b), 0) + math.Hypot(math.Max(a, 0), math.Max(b, 0))
}

func runC18(t *T) {
	shapes := flats()
	nxy, nz := t.N(15, 25), t.N(17, 33)
	// compare a 3D shape with a model
	cmp := func(c *Case, s sdf.SDF3, h float64, want func(p r3.Vec) float64) {
		for _, q := range append(grid2(nxy, 2.5), far2()...) {
			for k := 0; k < nz; k++ {
				p := v3(q.X+0.01, q.Y-0.02, 0.8*h*(2*float64(k)/float64(nz-1)-1))
				a, b := s.Evaluate(p), want(p)
				c.ObsF(a)
				if !near(a, b, 1e-8) {
					c.Fail("value %v at %v, want %v", a, p, b)
				}
			}
		}
		c.Eval(nxy * nxy * nz)
	}
	rot := func(q r2.Vec, a float64) r2.Vec {
		sn, cs := math.Sincos(a)
		return v2(cs*q.X-sn*q.Y, sn*q.X+cs*q.Y)
	}
	heights := []float64{0.1, 1, 1.5, 4, 10, 300}
	twists := []float64{0, 1e-3, 0.5, -0.5, math.Pi / 2, math.Pi, -2, 2 * math.Pi, 7, -20, 4 * math.Pi}
	scales := []float64{0.25, 0.5, 1, 1.25, 2, 3.5, 0.9, 1.001}
	t.Par(len(shapes), func(i int) {
		sh := shapes[i]
		f := func(x, y float64) float64 { return sh.s.Evaluate(v2(x, y)) }
		for _, h := range heights {
			h := h
			t.Case(fmt.Sprintf("Extrude3D(%s,%v)", sh.name, h), func(c *Case) {
				want := func(p r3.Vec) float64 { return math.Max(f(p.X, p.Y), math.Abs(p.Z)-h/2) }
				cmp(c, sdf.Extrude3D(sh.s, h), h, want)
				cmp(c, sdf.ExtrudeRounded3D(sh.s, h, 0), h, want)
				q := sdf.NormalExtrude(v3(1, 2, 3))
				if q != v2(1, 2) {
					c.Fail("NormalExtrude %v", q)
				}
				if e, ok := sdf.Extrude3D(sh.s, h).(interface {
					sdf.SDF3
					SetExtrude(sdf.ExtrudeFunc)
				}); ok {
					e.SetExtrude(func(p r3.Vec) r2.Vec { return v2(p.Y-p.Z, 2*p.X) })
					cmp(c, e, h, func(p r3.Vec) float64 { return math.Max(f(p.Y-p.Z, 2*p.X), math.Abs(p.Z)-h/2) })
				}
			})
			for _, tw := range twists {
				tw := tw
				t.Case(fmt.Sprintf("TwistExtrude3D(%s,%v,%v)", sh.name, h, tw), func(c *Case) {
					if e, ok := sdf.Extrude3D(sh.s, h).(interface {
						sdf.SDF3
						SetExtrude(sdf.ExtrudeFunc)
					}); ok { // the functions by themselves
						sc := v2(2, 0.75)
						scaled := func(p r3.Vec) r2.Vec {
							return v2(p.X*lerp(1, 1/sc.X, p.Z/h+0.5), p.Y*lerp(1, 1/sc.Y, p.Z/h+0.5))
						}
						for i, fn := range []sdf.ExtrudeFunc{sdf.TwistExtrude(h, tw), sdf.ScaleExtrude(h, sc), sdf.ScaleTwistExtrude(h, tw, sc), sdf.NormalExtrude} {
							i := i
							e.SetExtrude(fn)
							cmp(c, e, h, func(p r3.Vec) float64 {
								q := v2(p.X, p.Y)
								if i == 1 || i == 2 {
									q = scaled(p)
								}
								if i == 0 || i == 2 {
									q = rot(q, tw*p.Z/h)
								}
								return math.Max(f(q.X, q.Y), math.Abs(p.Z)-h/2)
							})
						}
					}
					cmp(c, sdf.TwistExtrude3D(sh.s, h, tw), h, func(p r3.Vec) float64 {
						q := rot(v2(p.X, p.Y), tw*p.Z/h)
						return math.Max(f(q.X, q.Y), math.Abs(p.Z)-h/2)
					})
				})
			}
			for _, sx := range scales {
				for _, sy := range scales {
					sc := v2(sx, sy)
					inv := func(p r3.Vec) r2.Vec {
						k := p.Z/h + 0.5
						return v2(p.X*lerp(1, 1/sc.X, k), p.Y*lerp(1, 1/sc.Y, k))
					}
					t.Case(fmt.Sprintf("ScaleExtrude3D(%s,%v,%v)", sh.name, h, sc), func(c *Case) {
						cmp(c, sdf.ScaleExtrude3D(sh.s, h, sc), h, func(p r3.Vec) float64 {
							q := inv(p)
							return math.Max(f(q.X, q.Y), math.Abs(p.Z)-h/2)
						})
						for _, tw := range []float64{0, 1.3, -4} {
							cmp(c, sdf.ScaleTwistExtrude3D(sh.s, h, tw, sc), h, func(p r3.Vec) float64 {
								q := rot(inv(p), tw*p.Z/h)
								return math.Max(f(q.X, q.Y), math.Abs(p.Z)-h/2)
							})
						}
					})
				}
			}
			for _, k := range []float64{0, 0.01, 0.125, 0.25, 0.4, 0.499, 0.5} {
				r := k * h
				if k > 0 {
					t.Case(fmt.Sprintf("ExtrudeRounded3D(%s,%v,%v)", sh.name, h, r), func(c *Case) {
						cmp(c, sdf.ExtrudeRounded3D(sh.s, h, r), h, func(p r3.Vec) float64 {
							return slabDist(f(p.X, p.Y), math.Abs(p.Z)-(h/2-r)) - r
						})
					})
				}
				for j := range shapes {
					s2 := shapes[j]
					t.Case(fmt.Sprintf("Loft3D(%s,%s,%v,%v)", sh.name, s2.name, h, r), func(c *Case) {
						cmp(c, sdf.Loft3D(sh.s, s2.s, h, r), h, func(p r3.Vec) float64 {
							g := h/2 - r // half height of the straight part
							m := 0.5
							switch {
							case p.Z >= g && (p.Z > 0 || g > 0):
								m = 1
							case p.Z <= -g && (p.Z < 0 || g > 0):
								m = 0
							case g > 0:
								m = (p.Z/g + 1) / 2
							}
							return slabDist(lerp(f(p.X, p.Y), s2.s.Evaluate(v2(p.X, p.Y)), m), math.Abs(p.Z)-g) - r
						})
					})
				}
			}
		}
	})
}

func runC19(t *T) {
	shapes := flats()
	var angles []float64
	n := t.N(16, 96)
	for i := 1; i < n; i++ {
		angles = append(angles, 2*math.Pi*float64(i)/float64(n))
	}
	for i := 1; i <= 4; i++ {
		a := math.Pi / 2 * float64(i)
		angles = append(angles, a, a-0.01)
		if i < 4 {
			angles = append(angles, a+0.01)
		}
	}
	angles = append(angles, 0, -1, -2*math.Pi, 1e-3, 4*math.Pi, 6.2)
	// more than a turn counts modulo full turns
	for _, a := range []float64{1e-3, 0.7, 0.5 * math.Pi, 2, 3, 4, 1.5 * math.Pi, 6} {
		angles = append(angles, 2*math.Pi+a, 6*math.Pi+a)
	}
	angles = append(angles, 6*math.Pi, 5*math.Pi+0.01, 1e-6, 2*math.Pi-1e-6)
	for k := 7; k <= 30; k++ {
		angles = append(angles, 2*math.Pi*float64(k))
	}
	for _, d := range []float64{0.1, 5e-3, 1e-4} {
		angles = append(angles, math.Pi-d, math.Pi+d, 2*math.Pi-d, 2*math.Pi+d, 26*math.Pi+d, 0.5*math.Pi-d, 1.5*math.Pi+d)
	}
	nxy, nz := t.N(25, 41), t.N(13, 21)
	t.Par(len(shapes), func(i int) {
		sh := shapes[i]
		for _, th := range angles {
			th := th
			t.Case(fmt.Sprintf("Revolve3D(%s,%v)", sh.name, th), func(c *Case) {
				s := sdf.Revolve3D(sh.s, th)
				if s == nil {
					c.Fail("nil")
				}
				sn, cs := math.Sincos(th)
				full := math.Abs(math.Remainder(th, 2*math.Pi)) < 1e-9
				at := func(p r3.Vec) {
					d := s.Evaluate(p)
					c.ObsF(d)
					if th <= 0 {
						if !(d > 0) {
							c.Fail("value %v at %v of nothing", d, p)
						}
						return
					}
					want := sh.s.Evaluate(v2(math.Hypot(p.X, p.Y), p.Z))
					if !full {
						// before the start and after the end of the wedge
						a, b := -p.Y, cs*p.Y-sn*p.X
						if math.Mod(th, 2*math.Pi) < math.Pi {
							want = math.Max(want, math.Max(a, b))
						} else {
							want = math.Max(want, math.Min(a, b))
						}
					}
					if !near(d, want, 1e-8) {
						c.Fail("value %v at %v, want %v", d, p, want)
					}
				}
				for _, q := range append(grid2(nxy, 2.5), far2()...) {
					for k := 0; k < nz; k++ {
						p := v3(q.X+0.01, q.Y-0.02, 4*float64(k)/float64(nz-1)-2)
						at(p)
					}
				}
				// on the axis, the coordinate planes and the ends of the wedge
				zero := math.Copysign(0, -1)
				for _, x := range []float64{0, zero, 0.4, -0.4, 1.7, -1.7} {
					for _, y := range []float64{0, zero, 0.6, -0.6, 2.1, -2.1} {
						for _, z := range []float64{zero, 0.3, -1} {
							at(v3(x, y, z))
							at(v3(x*cs, x*sn, y))
						}
					}
				}
				c.Eval(nxy*nxy*nz + 216)
			})
		}
	})
}

func runC20(t *T) {
	type fn struct {
		name string
		f    func(a, b float64) float64
		k    float64
		// slack is the largest distance below the minimum
		slack float64
		below func(diff float64) float64 // how far below the minimum if the arguments differ by diff
		local bool                       // equal to the minimum if |a-b| >= k
		round bool
	}
	var fns []fn
	ks := []float64{1e-3, 0.01, 0.1, 0.3, 0.5, 1, 1.5, 2, 4, 32, 100, 1500}
	for _, k := range ks {
		k := k
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 32, 33, 50, 64, 101} {
			n := n
			sl := k / (2 * float64(n))
			if n == 1 {
				sl = 0
			}
			below := func(diff float64) float64 { return sl * math.Pow(math.Max(0, 1-diff/k), float64(n)) }
			fns = append(fns, fn{fmt.Sprintf("MinPoly(%d,%v)", n, k), sdf.MinPoly(n, k), k, sl, below, true, false})
			mx := sdf.MaxPoly(n, k)
			fns = append(fns, fn{fmt.Sprintf("-MaxPoly(%d,%v)(-)", n, k), func(a, b float64) float64 { return -mx(-a, -b) }, k, sl, below, true, false})
		}
		fns = append(fns, fn{fmt.Sprintf("MinRound(%v)", k), sdf.MinRound(k), k, math.Inf(1), nil, false, true})
		fns = append(fns, fn{fmt.Sprintf("MinExp(%v)", k), sdf.MinExp(k), k, math.Ln2 / k, func(diff float64) float64 { return math.Log1p(math.Exp(-k*diff)) / k }, false, false})
	}
	var vals []float64
	m := t.N(41, 81)
	for i := 0; i < m; i++ {
		vals = append(vals, 8*float64(i)/float64(m-1)-4)
	}
	vals = append(vals, 1e-3, -1e-3, 2e-4, 7e-3, 50, -50, 90, 700, 1e3, -1e3, 1e6, -1e6)
	t.Par(len(fns), func(i int) {
		fc := fns[i]
		t.Case(fc.name, func(c *Case) {
			for _, a := range vals {
				for _, b := range vals {
					d := fc.f(a, b)
					c.ObsF(d)
					c.Eval(1)
					mn := math.Min(a, b)
					e := 1e-9 * (1 + math.Abs(a) + math.Abs(b))
					if math.IsNaN(d) || math.IsInf(d, 0) {
						c.Fail("(%v,%v) is %v", a, b, d)
					}
					if d > mn+e {
						c.Fail("(%v,%v) is %v, more than the minimum", a, b, d)
					}
					if r := fc.f(b, a); !near(r, d, 1e-9) {
						c.Fail("(%v,%v) is %v, (%v,%v) is %v", a, b, d, b, a, r)
					}
					if fc.below != nil && !near(d, mn-fc.below(math.Abs(a-b)), 1e-9) {
						c.Fail("(%v,%v) is %v, want %v", a, b, d, mn-fc.below(math.Abs(a-b)))
					}
					if d < mn-fc.slack-e {
						c.Fail("(%v,%v) is %v, more than %v below the minimum", a, b, d, fc.slack)
					}
					if fc.local && math.Abs(a-b) >= fc.k && d < mn-e {
						c.Fail("(%v,%v) is %v, want the minimum", a, b, d)
					}
					if fc.round && math.Max(a, b) >= fc.k && d < mn-e {
						c.Fail("(%v,%v) is %v, want the minimum", a, b, d)
					}
					// monotone and no steeper than the values
					for _, x := range []float64{1e-3, 0.1, 1} {
						if r := fc.f(a+x, b); r < d-e {
							c.Fail("(%v,%v) is %v, (%v,%v) is %v: decreases", a, b, d, a+x, b, r)
						} else if r2 := fc.f(a+x, b+x); !fc.round && !near(r2, d+x, 1e-7) {
							c.Fail("(%v,%v) is %v, (%v,%v) is %v: differs by more than both values", a, b, d, a+x, b+x, r2)
						}
					}
				}
			}
			// the deepest blend is where both are equal
			if fc.local && fc.slack > 0 {
				for _, a := range []float64{-2, 0, 1} {
					if d := fc.f(a, a); !near(d, a-fc.slack, 1e-9) {
						c.Fail("(%v,%v) is %v, want %v", a, a, d, a-fc.slack)
					}
				}
			}
			if fc.round {
				// the zero contour is a quarter circle of radius k around (k,k)
				for j := 0; j <= 16; j++ {
					sn, cs := math.Sincos(math.Pi / 2 * float64(j) / 16)
					if d := fc.f(fc.k*(1-cs), fc.k*(1-sn)); !near(d, 0, 1e-9) {
						c.Fail("(%v,%v) is %v, want 0", fc.k*(1-cs), fc.k*(1-sn), d)
					}
				}
			}
		})
	})
	for _, k := range ks {
		k := k
		t.Case(fmt.Sprintf("chamfer %v", k), func(c *Case) {
			mn, mx := sdf.MinPoly(0, k), sdf.MaxPoly(0, k)
			for _, a := range vals {
				for _, b := range vals {
					want := math.Min(math.Min(a, b), (a+b-k)*math.Sqrt2/2)
					d := mn(a, b)
					c.ObsF(d)
					c.Eval(1)
					if !near(d, want, 1e-9) {
						c.Fail("(%v,%v) is %v, want %v", a, b, d, want)
					}
					if d := mx(a, b); !near(d, -mn(-a, -b), 1e-9) {
						c.Fail("maximum (%v,%v) is %v, minimum of the negatives is %v", a, b, d, mn(-a, -b))
					}
				}
			}
		})
	}
	// the power blend is for positive values
	wide := append([]float64{1e-100, 1e-30, 1e-8, 1e-3, 1e3, 1e10, 1e40, 1e200, math.MaxFloat64}, vals...)
	for _, k := range []float64{0.5, 1, 2, 3, 4, 8, 16, 33} {
		k := k
		t.Case(fmt.Sprintf("MinPow(%v)", k), func(c *Case) {
			f := sdf.MinPow(k)
			for _, a := range wide {
				for _, b := range wide {
					if a <= 0 || b <= 0 {
						continue
					}
					d := f(a, b)
					c.ObsF(d)
					c.Eval(1)
					mn, q := math.Min(a, b), math.Min(a, b)/math.Max(a, b)
					if want := mn / math.Pow(1+math.Pow(q, k), 1/k); !near(d, want, 1e-9) {
						c.Fail("(%v,%v) is %v, want %v", a, b, d, want)
					}
				}
			}
		})
	}
}
