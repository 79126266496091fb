//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C17", "model_checking",
		"arrays of 0..3 copies along each axis and of up to 65 along one, with 6 steps; rotated unions of 0..13 and up to 100 copies of 6 steps, rotated copies 1..12 and up to 360, all line patterns of up to 5 characters over {x, ., space}, position lists of up to 3 of 8 positions and of 5 to 129, direction lists of up to 3 of 6 and of 6 to 65; 4 shapes, 7x7x7 and 25x25 points around the origin, and 5x5x5 and 13x13 all over the bounds; with the default and 2 blending minimum functions",
		"a state is a combinator with its arguments; the model is the list of copies, each an affine map of the shape, folded by the minimum function; distinct by the values", runC17)
}

// copies3 is the model of a union of copies: fold over the shape evaluated at the inverse maps.
type copies3 []affine

// expFold is order independent, so that it does not matter in which order the copies are visited.
func expFold(k float64, v []float64) float64 {
	m := math.Inf(1)
	for _, x := range v {
		m = math.Min(m, x)
	}
	s := 0.0
	for _, x := range v {
		s += math.Exp(-k * (x - m))
	}
	return m - math.Log(s)/k
}

// powFold is the value of MinPow(k) folded over positive values, in any order.
func powFold(k float64, v []float64) float64 {
	s := 0.0
	for _, x := range v {
		if x < 1e-3 {
			return math.NaN() // undefined
		}
		s += math.Pow(x, -k)
	}
	return math.Pow(s, -1/k)
}

func pow4(v []float64) float64 { return powFold(4, v) }

func minFold(v []float64) float64 {
	m := math.Inf(1)
	for _, x := range v {
		m = math.Min(m, x)
	}
	return m
}

func testShapes3() []named3 {
	return []named3{
		{"asym", asym3()}, {"sphere", mSphere(v3(0.7, 0.2, -0.3), 0.5)}, {"box", must3.Box(v3(1, 2, 0.5), 0.1)},
		{"offcone", sdf.Transform3D(must3.Cone(1, 0.5, 0.1, 0), sdf.Translate3D(v3(1.5, 0, 0.5)))},
	}
}

type named2 struct {
	name string
	s    sdf.SDF2
}

func testShapes2() []named2 {
	a, b := mDisc(v2(0.7, 0.2), 0.5), mRect(v2(-0.5, 0.9), v2(0.2, 0.7))
	return []named2{
		{"pair", fn2{func(p r2.Vec) float64 { return math.Min(a.f(p), b.f(p)) }, r2.Box{Min: v2(-0.7, -0.3), Max: v2(1.2, 1.6)}}}, {"disc", mDisc(v2(0.7, 0.2), 0.5)}, {"box", must2.Box(v2(1, 2), 0.1)},
		{"ell", sdf.Transform2D(must2.Polygon(ell()), sdf.Translate2D(v2(2, 0)))},
	}
}

// inverse maps as translations, see callers

func checkCopies3(c *Case, name string, s, got sdf.SDF3, inv []func(r3.Vec) r3.Vec, fold func([]float64) float64) {
	if got == nil {
		c.Fail("%s: nil", name)
	}
	v := make([]float64, len(inv))
	pts := append(grid3(7, 4), far3()...)
	if b := got.Bounds(); len(inv) > 0 {
		// all of the copies, however far they reach
		m, e := r3.Scale(0.5, r3.Add(b.Min, b.Max)), r3.Sub(b.Max, b.Min)
		for _, g := range grid3(5, 0.55) {
			pts = append(pts, v3(m.X+g.X*e.X, m.Y+g.Y*e.Y, m.Z+g.Z*e.Z))
		}
	}
	for _, p := range pts {
		d := got.Evaluate(p)
		if len(inv) == 0 {
			if !(d > 0) {
				c.Fail("%s: no copies, but %v at %v", name, d, p)
			}
			continue
		}
		for i, f := range inv {
			v[i] = s.Evaluate(f(p))
		}
		if want := fold(v); !math.IsNaN(want) && !near(d, want, 1e-8) {
			c.Fail("%s: %v at %v, want %v", name, d, p, want)
		}
		c.ObsF(d)
	}
	c.Obs(name)
	c.States(1)
	c.Trans(len(inv))
	c.Trace(1)
}

func checkCopies2(c *Case, name string, s, got sdf.SDF2, inv []func(r2.Vec) r2.Vec, fold func([]float64) float64) {
	if got == nil {
		c.Fail("%s: nil", name)
	}
	v := make([]float64, len(inv))
	pts := append(grid2(25, 4), far2()...)
	if b := got.Bounds(); len(inv) > 0 {
		m, e := r2.Scale(0.5, r2.Add(b.Min, b.Max)), r2.Sub(b.Max, b.Min)
		for _, g := range grid2(13, 0.55) {
			pts = append(pts, v2(m.X+g.X*e.X, m.Y+g.Y*e.Y))
		}
	}
	for _, p := range pts {
		d := got.Evaluate(p)
		if len(inv) == 0 {
			if !(d > 0) {
				c.Fail("%s: no copies, but %v at %v", name, d, p)
			}
			continue
		}
		for i, f := range inv {
			v[i] = s.Evaluate(f(p))
		}
		if want := fold(v); !math.IsNaN(want) && !near(d, want, 1e-8) {
			c.Fail("%s: %v at %v, want %v", name, d, p, want)
		}
		c.ObsF(d)
	}
	c.Obs(name)
	c.States(1)
	c.Trans(len(inv))
	c.Trace(1)
}

func at3(o r3.Vec) func(r3.Vec) r3.Vec {
	return func(p r3.Vec) r3.Vec { return v3(p.X-o.X, p.Y-o.Y, p.Z-o.Z) }
}
func at2(o r2.Vec) func(r2.Vec) r2.Vec {
	return func(p r2.Vec) r2.Vec { return v2(p.X-o.X, p.Y-o.Y) }
}

type setMin interface{ SetMin(sdf.MinFunc) }

// rigidInv is the inverse of a rotation and translation.
func rigidInv(m affine) func(r3.Vec) r3.Vec {
	return func(p r3.Vec) r3.Vec {
		q := v3(p.X-m.t[0], p.Y-m.t[1], p.Z-m.t[2])
		a := m.a
		return v3(a[0][0]*q.X+a[1][0]*q.Y+a[2][0]*q.Z, a[0][1]*q.X+a[1][1]*q.Y+a[2][1]*q.Z, a[0][2]*q.X+a[1][2]*q.Y+a[2][2]*q.Z)
	}
}

func flat(f func(r3.Vec) r3.Vec) func(r2.Vec) r2.Vec {
	return func(p r2.Vec) r2.Vec { q := f(v3(p.X, p.Y, 0)); return v2(q.X, q.Y) }
}

func patterns(max int) (out []string) {
	out = []string{""}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < max {
			for _, ch := range "x. " {
				out = append(out, out[i]+string(ch))
			}
		}
	}
	return append(out, strings.Repeat("x", 40), strings.Repeat(".x ", 33), "xxxxxxxxxxxx", "x.x.x.x.x.x.x.x.", "...........x", "x..........", "X", "xX", "Xx.X", "o*x-_+x1", "xx........xx....xx")
}

// counts are the integers from lo to hi and some more.
func counts(lo, hi int, more ...int) (out []int) {
	for ; lo <= hi; lo++ {
		out = append(out, lo)
	}
	for _, n := range more {
		if n > hi {
			out = append(out, n)
		}
	}
	return out
}

// lists returns all lists of up to max of n indices.
func lists(n, max int) (out [][]int) {
	out = [][]int{nil}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < max {
			for k := 0; k < n; k++ {
				out = append(out, append(append([]int(nil), out[i]...), k))
			}
		}
	}
	return out
}

// long is a list of k indices below n in which no period of n is repeated at once.
func long(n, k int) (out []int) {
	for i := 0; i < k; i++ {
		out = append(out, (i*i+i/3)%n)
	}
	return out
}

// spiral is the k-th of places further and further out.
func spiral(k int, z float64) r3.Vec {
	sn, cs := math.Sincos(2.4 * float64(k))
	r := 0.8 * math.Sqrt(float64(k))
	return v3(r*cs, r*sn, z)
}

func rotUnions3[M any](t *T, sh named3, steps []gen[M], union func(sdf.SDF3, int, M) sdf.SDF3Union) {
	for _, n := range counts(-1, t.N(13, 24), 20, 33, 64, 100) {
		for _, st := range steps {
			t.Case(fmt.Sprintf("RotateUnion3D(%s,%d,%s)", sh.name, n, st.name), func(c *Case) {
				var inv []func(r3.Vec) r3.Vec
				m := affId()
				for i := 0; i < n; i++ {
					inv = append(inv, rigidInv(m))
					m = st.a.after(m)
				}
				u := union(sh.s, n, st.m)
				checkCopies3(c, "min", sh.s, u, inv, minFold)
				u.SetMin(sdf.MinExp(2))
				checkCopies3(c, "exp", sh.s, u, inv, func(v []float64) float64 { return expFold(2, v) })
				u.SetMin(sdf.MinPow(4))
				checkCopies3(c, "pow", sh.s, u, inv, pow4)
			})
		}
	}
}

func rotUnions2[M any](t *T, sh named2, steps []gen[M], union func(sdf.SDF2, int, M) sdf.SDF2) {
	for _, n := range counts(-1, t.N(13, 24), 20, 33, 64, 100) {
		for _, st := range steps {
			t.Case(fmt.Sprintf("RotateUnion2D(%s,%d,%s)", sh.name, n, st.name), func(c *Case) {
				var inv []func(r2.Vec) r2.Vec
				m := affId()
				for i := 0; i < n; i++ {
					inv = append(inv, flat(rigidInv(m)))
					m = st.a.after(m)
				}
				u := union(sh.s, n, st.m)
				checkCopies2(c, "min", sh.s, u, inv, minFold)
				if u, ok := u.(interface {
					sdf.SDF2
					SetMin(sdf.MinFunc)
				}); ok {
					u.SetMin(sdf.MinExp(2))
					checkCopies2(c, "exp", sh.s, u, inv, func(v []float64) float64 { return expFold(2, v) })
					u.SetMin(sdf.MinPow(4))
					checkCopies2(c, "pow", sh.s, u, inv, pow4)
				}
			})
		}
	}
}

func runC17(t *T) {
	exp2 := func(v []float64) float64 { return expFold(2, v) }
	z := v3(0, 0, 1)
	s3, s2 := testShapes3(), testShapes2()
	steps3 := []r3.Vec{v3(1, 1, 1), v3(2.5, -1.5, 0.7), v3(-0.3, 0.2, -4), v3(0, 1, 2), v3(1, 0, 0), v3(0.1, 3, -0.5)}
	m3 := list(
		mk("rz.7", sdf.RotateZ(0.7), affRot(z, 0.7)),
		mk("rz180", sdf.RotateZ(math.Pi), affRot(z, math.Pi)),
		mk("rz-2", sdf.RotateZ(-2), affRot(z, -2)),
		mk("screw", sdf.Translate3D(v3(0.1, 0, 0.5)).Mul(sdf.RotateZ(1.1)), affTrans(0.1, 0, 0.5).after(affRot(z, 1.1))),
		mk("crew", sdf.RotateZ(1.1).Mul(sdf.Translate3D(v3(0.7, -0.2, 0.5))), affRot(z, 1.1).after(affTrans(0.7, -0.2, 0.5))),
		mk("rv", sdf.Rotate3D(v3(1, 2, 3), 0.9), affRot(v3(1, 2, 3), 0.9)),
	)
	m2 := list(
		mk("r.7", sdf.Rotate2D(0.7), affRot(z, 0.7)),
		mk("r180", sdf.Rotate2D(math.Pi), affRot(z, math.Pi)),
		mk("r-2", sdf.Rotate2D(-2), affRot(z, -2)),
		mk("tr", sdf.Translate2D(v2(0.1, 0.5)).Mul(sdf.Rotate2D(1.1)), affTrans(0.1, 0.5, 0).after(affRot(z, 1.1))),
		mk("rt", sdf.Rotate2D(1.1).Mul(sdf.Translate2D(v2(0.7, 0.5))), affRot(z, 1.1).after(affTrans(0.7, 0.5, 0))),
		mk("mr", sdf.MirrorX().Mul(sdf.Rotate2D(0.4)), affScale(1, -1, 1).after(affRot(z, 0.4))),
	)
	dvec := []r3.Vec{v3(0, 0, 1), v3(1, 0, 0), v3(0, -1, 0), v3(0, 0, -1), v3(1, 1, 1), v3(-2, 0.5, 0)}
	pos := []r3.Vec{v3(0, 0, 0), v3(2, 0, 0), v3(-1, 2, 0.5), v3(0.5, -3, 1), v3(0.1, 0.1, 0.1), v3(500, -3, 20), v3(2, 0, 1.5), v3(-1, 0.7, 0)}
	nmax := t.N(3, 4)
	t.Par(len(s3), func(si int) {
		sh := s3[si]
		var nums [][3]int
		for nx := 0; nx <= nmax; nx++ {
			for ny := -1; ny <= nmax; ny++ {
				for nz := 0; nz <= nmax; nz++ {
					nums = append(nums, [3]int{nx, ny, nz})
				}
			}
		}
		for _, k := range []int{7, 11, 17, 33, 65} {
			nums = append(nums, [3]int{k, 1, 1}, [3]int{1, k, 1}, [3]int{1, 1, k}, [3]int{k, 2, 1}, [3]int{1, k, 3}, [3]int{2, 1, k})
		}
		nums = append(nums, [3]int{5, 6, 7}, [3]int{9, 8, 2}, [3]int{3, 10, 9})
		for _, step := range steps3 {
			{
				{
					for _, num := range nums {
						nx, ny, nz := num[0], num[1], num[2]
						t.Case(fmt.Sprintf("Array3D(%s,%d,%d,%d,%v)", sh.name, nx, ny, nz, step), func(c *Case) {
							var inv []func(r3.Vec) r3.Vec
							for i := 0; i < nx; i++ {
								for j := 0; j < ny; j++ {
									for k := 0; k < nz; k++ {
										inv = append(inv, at3(v3(float64(i)*step.X, float64(j)*step.Y, float64(k)*step.Z)))
									}
								}
							}
							u := sdf.Array3D(sh.s, sdf.V3i{nx, ny, nz}, step)
							checkCopies3(c, "min", sh.s, u, inv, minFold)
							u.SetMin(sdf.MinExp(2))
							checkCopies3(c, "exp", sh.s, u, inv, exp2)
							u.SetMin(sdf.MinPow(4))
							checkCopies3(c, "pow", sh.s, u, inv, pow4)
						})
					}
				}
			}
		}
		rotUnions3(t, sh, m3, sdf.RotateUnion3D)
		for _, n := range counts(-1, t.N(9, 17), 12, 16, 25, 33, 36, 45, 60, 64, 99, 100, 127, 360, 720, 1000, 4097) {
			t.Case(fmt.Sprintf("RotateCopy3D(%s,%d)", sh.name, n), func(c *Case) {
				u := sdf.RotateCopy3D(sh.s, n)
				for _, p := range append(grid3(9, 3.3), far3()...) {
					d := u.Evaluate(p)
					if n <= 0 {
						if !(d > 0) {
							c.Fail("no copies, but %v at %v", d, p)
						}
						continue
					}
					q, ok := sector(v2(p.X, p.Y), n)
					if want := sh.s.Evaluate(v3(q.X, q.Y, p.Z)); ok && !near(d, want, 1e-8) {
						c.Fail("%v at %v, want %v", d, p, want)
					}
					c.ObsF(d)
				}
				c.Obs(n)
				c.States(1)
				c.Trans(1)
				c.Trace(1)
			})
		}
		for _, pat := range patterns(t.N(5, 7)) {
			for ei, ends := range [][2]r3.Vec{{v3(-2, 1, 0), v3(3, 2, 1)}, {v3(1, 1, 1), v3(1, -4, 1)}} {
				t.Case(fmt.Sprintf("LineOf3D(%s,%q,%d)", sh.name, pat, ei), func(c *Case) {
					var inv []func(r3.Vec) r3.Vec
					for i := range pat {
						if pat[i] == 'x' {
							k := float64(i) / float64(len(pat))
							a, b := ends[0], ends[1]
							inv = append(inv, at3(v3(lerp(a.X, b.X, k), lerp(a.Y, b.Y, k), lerp(a.Z, b.Z, k))))
						}
					}
					checkCopies3(c, pat, sh.s, sdf.LineOf3D(sh.s, ends[0], ends[1], pat), inv, minFold)
				})
			}
		}
		for _, l := range append(lists(len(pos), 3), long(len(pos), 5), long(len(pos), 8), long(len(pos), 13), long(len(pos), 34), long(len(pos), 129), long(len(pos), 520)) {
			t.Case(fmt.Sprintf("Multi3D(%s,%v)", sh.name, l), func(c *Case) {
				var inv []func(r3.Vec) r3.Vec
				var ps []r3.Vec
				for k, i := range l {
					at := pos[i]
					if k >= 8 { // a position of its own
						at = spiral(k, at.Z)
					}
					ps = append(ps, at)
					inv = append(inv, at3(at))
				}
				checkCopies3(c, fmt.Sprint(l), sh.s, sdf.Multi3D(sh.s, ps), inv, minFold)
			})
		}
		for bi, base := range []r3.Vec{v3(0, 0, 1), v3(1, 0.5, -1)} {
			// one copy per direction: C16 decides that each of them is a rotation
			var single []func(r3.Vec) r3.Vec
			for _, d := range dvec {
				single = append(single, probe(func(s sdf.SDF3) sdf.SDF3 { return sdf.Orient3D(s, base, []r3.Vec{d}) }))
			}
			for _, l := range append(lists(len(dvec), 3), long(len(dvec), 6), long(len(dvec), 9), long(len(dvec), 17), long(len(dvec), 65)) {
				t.Case(fmt.Sprintf("Orient3D(%s,%d,%v)", sh.name, bi, l), func(c *Case) {
					var inv []func(r3.Vec) r3.Vec
					var ps []r3.Vec
					for _, i := range l {
						ps = append(ps, dvec[i])
						inv = append(inv, single[i])
					}
					checkCopies3(c, fmt.Sprint(l), sh.s, sdf.Orient3D(sh.s, base, ps), inv, minFold)
				})
			}
		}
	})
	t.Par(len(s2), func(si int) {
		sh := s2[si]
		for _, st := range steps3 {
			step := v2(st.X, st.Y)
			var nums [][2]int
			for nx := 0; nx <= t.N(4, 6); nx++ {
				for ny := -1; ny <= t.N(4, 6); ny++ {
					nums = append(nums, [2]int{nx, ny})
				}
			}
			for _, k := range []int{7, 11, 17, 33, 65} {
				nums = append(nums, [2]int{k, 1}, [2]int{1, k}, [2]int{k, 3}, [2]int{2, k})
			}
			{
				for _, num := range nums {
					nx, ny := num[0], num[1]
					t.Case(fmt.Sprintf("Array2D(%s,%d,%d,%v)", sh.name, nx, ny, step), func(c *Case) {
						var inv []func(r2.Vec) r2.Vec
						for i := 0; i < nx; i++ {
							for j := 0; j < ny; j++ {
								inv = append(inv, at2(v2(float64(i)*step.X, float64(j)*step.Y)))
							}
						}
						u := sdf.Array2D(sh.s, sdf.V2i{nx, ny}, step)
						checkCopies2(c, "min", sh.s, u, inv, minFold)
						u.SetMin(sdf.MinExp(2))
						checkCopies2(c, "exp", sh.s, u, inv, exp2)
						u.SetMin(sdf.MinPow(4))
						checkCopies2(c, "pow", sh.s, u, inv, pow4)
					})
				}
			}
		}
		rotUnions2(t, sh, m2, sdf.RotateUnion2D)
		for _, n := range counts(1, t.N(12, 30), 16, 25, 33, 36, 45, 60, 64, 99, 100, 127, 360, 720, 1000, 4097) {
			t.Case(fmt.Sprintf("RotateCopy2D(%s,%d)", sh.name, n), func(c *Case) {
				u := sdf.RotateCopy2D(sh.s, n)
				for _, p := range append(grid2(35, 3.3), far2()...) {
					d := u.Evaluate(p)
					q, ok := sector(p, n)
					if want := sh.s.Evaluate(q); ok && !near(d, want, 1e-8) {
						c.Fail("%v at %v, want %v", d, p, want)
					}
					c.ObsF(d)
				}
				c.Obs(n)
				c.States(1)
				c.Trans(1)
				c.Trace(1)
			})
		}
		for _, pat := range patterns(t.N(5, 7)) {
			for ei, ends := range [][2]r2.Vec{{v2(-2, 1), v2(3, 2)}, {v2(1, 1), v2(1, -4)}} {
				t.Case(fmt.Sprintf("LineOf2D(%s,%q,%d)", sh.name, pat, ei), func(c *Case) {
					var inv []func(r2.Vec) r2.Vec
					for i := range pat {
						if pat[i] == 'x' {
							k := float64(i) / float64(len(pat))
							inv = append(inv, at2(v2(lerp(ends[0].X, ends[1].X, k), lerp(ends[0].Y, ends[1].Y, k))))
						}
					}
					checkCopies2(c, pat, sh.s, sdf.LineOf2D(sh.s, ends[0], ends[1], pat), inv, minFold)
				})
			}
		}
		for _, l := range append(lists(len(pos), 3), long(len(pos), 5), long(len(pos), 8), long(len(pos), 13), long(len(pos), 34), long(len(pos), 129), long(len(pos), 520)) {
			if len(l) == 0 {
				continue
			}
			t.Case(fmt.Sprintf("Multi2D(%s,%v)", sh.name, l), func(c *Case) {
				var inv []func(r2.Vec) r2.Vec
				var ps []r2.Vec
				for k, i := range l {
					at := v2(pos[i].X, pos[i].Y)
					if k >= 8 {
						at = v2(spiral(k, 0).X, spiral(k, 0).Y)
					}
					ps = append(ps, at)
					inv = append(inv, at2(at))
				}
				checkCopies2(c, fmt.Sprint(l), sh.s, sdf.Multi2D(sh.s, ps), inv, minFold)
			})
		}
	})
	t.note("%d line patterns", len(patterns(t.N(5, 7))))
}

// sector rotates p by a multiple of a full turn by n into the sector around the x axis.
// ok is false if p is on the border of two sectors.
func sector(p r2.Vec, n int) (q r2.Vec, ok bool) {
	best, second := math.Inf(1), math.Inf(1)
	for i := 0; i < n; i++ {
		s, c := math.Sincos(2 * math.Pi * float64(i) / float64(n))
		r := v2(c*p.X-s*p.Y, s*p.X+c*p.Y)
		a := math.Abs(math.Atan2(r.Y, r.X))
		if a < best {
			best, second, q = a, best, r
		} else if a < second {
			second = a
		}
	}
	return q, second-best > 1e-7
}
