//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C16", "model_checking",
		"all products of up to 4 (thorough 5) of 18 3D and 14 2D matrices, as one matrix and as nested transforms; single matrices of 22 angles about 35 axes, and of 10x10x10 scales and translations of 1e-3 to 90, and of scales of 1e-5 to 1e4, each before and after 3 others; all pairs of 26 directions, and of directions close to each other, to opposite directions and of different lengths for Orient3D",
		"a state is a product of matrices with its model, an affine map written independently, reached by multiplying with one more matrix; positions, inverse, determinant, boxes and values of transformed shapes are compared; distinct by the coefficients of the map", runC16)
}

// affine is an affine map of up to 3 dimensions, the harness model of a matrix.
type affine struct {
	a [3][3]float64
	t [3]float64
}

func affId() affine { return affine{a: [3][3]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}} }

func (m affine) apply(p r3.Vec) r3.Vec {
	var o [3]float64
	for i := range o {
		o[i] = m.a[i][0]*p.X + m.a[i][1]*p.Y + m.a[i][2]*p.Z + m.t[i]
	}
	return v3(o[0], o[1], o[2])
}

func (m affine) apply2(p r2.Vec) r2.Vec {
	q := m.apply(v3(p.X, p.Y, 0))
	return v2(q.X, q.Y)
}

// after is m after n.
func (m affine) after(n affine) (o affine) {
	for i := range o.a {
		o.t[i] = m.t[i]
		for k := range o.a {
			o.t[i] += m.a[i][k] * n.t[k]
			for j := range o.a {
				o.a[i][j] += m.a[i][k] * n.a[k][j]
			}
		}
	}
	return o
}

func (m affine) det() float64 {
	a := m.a
	return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
}

func affTrans(x, y, z float64) affine { m := affId(); m.t = [3]float64{x, y, z}; return m }
func affScale(x, y, z float64) affine {
	m := affId()
	m.a[0][0], m.a[1][1], m.a[2][2] = x, y, z
	return m
}

// affRot is the rotation by angle about an axis: cos t v + sin t (k x v) + (1-cos t) k (k.v)
func affRot(axis r3.Vec, t float64) (m affine) {
	l := math.Sqrt(axis.X*axis.X + axis.Y*axis.Y + axis.Z*axis.Z)
	k := [3]float64{axis.X / l, axis.Y / l, axis.Z / l}
	s, c := math.Sincos(t)
	cross := [3][3]float64{{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}}
	for i := range m.a {
		for j := range m.a {
			m.a[i][j] = s*cross[i][j] + (1-c)*k[i]*k[j]
			if i == j {
				m.a[i][j] += c
			}
		}
	}
	return m
}

type matrix3[M any] interface {
	Mul(M) M
	Inverse() M
	Determinant() float64
	MulPosition(r3.Vec) r3.Vec
	MulBox(r3.Box) r3.Box
}

type matrix2[M any] interface {
	Mul(M) M
	Inverse() M
	Determinant() float64
	MulPosition(r2.Vec) r2.Vec
	MulBox(r2.Box) r2.Box
}

type gen[M any] struct {
	name string
	m    M
	a    affine
}

func mk[M any](name string, m M, a affine) gen[M] { return gen[M]{name, m, a} }
func list[M any](m ...M) []M                      { return m }

func close3(a, b r3.Vec, tol float64) bool {
	return near(a.X, b.X, tol) && near(a.Y, b.Y, tol) && near(a.Z, b.Z, tol)
}
func close2(a, b r2.Vec, tol float64) bool { return near(a.X, b.X, tol) && near(a.Y, b.Y, tol) }

const tolM = 1e-8

func points3() []r3.Vec {
	return append(grid3(3, 1.5), v3(0.3, -2.1, 0.7), v3(4, 1, -3), v3(-0.01, 0.02, 0.5))
}

func asym3() fn3 {
	return fn3{func(p r3.Vec) float64 { return p.X + 3*p.Y*p.Y - 2*p.Z*p.X + 0.5*p.Z + 7*math.Abs(p.Y-0.3) },
		r3.Box{Min: v3(-1, 0.5, -2), Max: v3(2, 1, 3)}}
}

func asym2() fn2 {
	return fn2{func(p r2.Vec) float64 { return p.X + 3*p.Y*p.Y - 2*p.Y*p.X + 7*math.Abs(p.Y-0.3) },
		r2.Box{Min: v2(-1, 0.5), Max: v2(2, 1)}}
}

func boxOf3(b r3.Box, f func(r3.Vec) r3.Vec) r3.Box {
	lo, hi := v3(math.Inf(1), math.Inf(1), math.Inf(1)), v3(math.Inf(-1), math.Inf(-1), math.Inf(-1))
	for i := 0; i < 8; i++ {
		p := b.Min
		if i&1 != 0 {
			p.X = b.Max.X
		}
		if i&2 != 0 {
			p.Y = b.Max.Y
		}
		if i&4 != 0 {
			p.Z = b.Max.Z
		}
		p = f(p)
		lo = v3(math.Min(lo.X, p.X), math.Min(lo.Y, p.Y), math.Min(lo.Z, p.Z))
		hi = v3(math.Max(hi.X, p.X), math.Max(hi.Y, p.Y), math.Max(hi.Z, p.Z))
	}
	return r3.Box{Min: lo, Max: hi}
}

func boxOf2(b r2.Box, f func(r2.Vec) r2.Vec) r2.Box {
	o := boxOf3(r3.Box{Min: v3(b.Min.X, b.Min.Y, 0), Max: v3(b.Max.X, b.Max.Y, 0)}, func(p r3.Vec) r3.Vec {
		q := f(v2(p.X, p.Y))
		return v3(q.X, q.Y, 0)
	})
	return r2.Box{Min: v2(o.Min.X, o.Min.Y), Max: v2(o.Max.X, o.Max.Y)}
}

func same3(c *Case, what string, got, want r3.Box) {
	if !close3(got.Min, want.Min, tolM) || !close3(got.Max, want.Max, tolM) {
		c.Fail("%s: box %v, want %v", what, got, want)
	}
}

func same2(c *Case, what string, got, want r2.Box) {
	if !close2(got.Min, want.Min, tolM) || !close2(got.Max, want.Max, tolM) {
		c.Fail("%s: box %v, want %v", what, got, want)
	}
}

func check3[M matrix3[M]](c *Case, name string, m M, a affine, transform func(sdf.SDF3, M) sdf.SDF3) {
	inv := m.Inverse()
	s := asym3()
	ts := transform(s, m)
	for _, p := range points3() {
		q := a.apply(p)
		if got := m.MulPosition(p); !close3(got, q, tolM) {
			c.Fail("%s maps %v to %v, want %v", name, p, got, q)
		}
		if got := inv.MulPosition(q); !close3(got, p, tolM) {
			c.Fail("inverse of %s maps %v to %v, want %v", name, q, got, p)
		}
		if got, want := ts.Evaluate(q), s.f(p); !near(got, want, 1e-7) {
			c.Fail("shape transformed by %s has %v at %v, want %v", name, got, q, want)
		}
	}
	if got := m.Determinant(); !near(got, a.det(), tolM) {
		c.Fail("determinant of %s is %v, want %v", name, got, a.det())
	}
	for _, b := range []r3.Box{s.bb, {Min: v3(0, 0, 0), Max: v3(1, 2, 3)}, {Min: v3(-3, -2, -1), Max: v3(-1, -1, 4)}} {
		same3(c, name, m.MulBox(b), boxOf3(b, a.apply))
	}
	same3(c, name+" bounds", ts.Bounds(), boxOf3(s.bb, a.apply))
	c.States(1)
	c.Trace(1)
	c.Eval(1)
	c.Obs(a)
}

func check2[M matrix2[M]](c *Case, name string, m M, a affine, transform func(sdf.SDF2, M) sdf.SDF2) {
	inv := m.Inverse()
	s := asym2()
	ts := transform(s, m)
	for _, p := range append(grid2(5, 2), v2(0.3, -2.1), v2(5, 0.1)) {
		q := a.apply2(p)
		if got := m.MulPosition(p); !close2(got, q, tolM) {
			c.Fail("%s maps %v to %v, want %v", name, p, got, q)
		}
		if got := inv.MulPosition(q); !close2(got, p, tolM) {
			c.Fail("inverse of %s maps %v to %v, want %v", name, q, got, p)
		}
		if got, want := ts.Evaluate(q), s.f(p); !near(got, want, 1e-7) {
			c.Fail("shape transformed by %s has %v at %v, want %v", name, got, q, want)
		}
	}
	if got := m.Determinant(); !near(got, a.det(), tolM) {
		c.Fail("determinant of %s is %v, want %v", name, got, a.det())
	}
	for _, b := range []r2.Box{s.bb, {Min: v2(0, 0), Max: v2(1, 2)}, {Min: v2(-3, -2), Max: v2(-1, 4)}} {
		same2(c, name, m.MulBox(b), boxOf2(b, a.apply2))
	}
	same2(c, name+" bounds", ts.Bounds(), boxOf2(s.bb, a.apply2))
	c.States(1)
	c.Trace(1)
	c.Eval(1)
	c.Obs(a)
}

// words explores all products of up to depth generators, from first on.
func words[M interface{ Mul(M) M }](c *Case, gens []gen[M], first, depth int, visit func(name string, m M, a affine, word []int)) {
	var rec func(name string, m M, a affine, word []int)
	rec = func(name string, m M, a affine, word []int) {
		visit(name, m, a, word)
		if len(word) == depth {
			return
		}
		for i, g := range gens {
			c.Trans(1)
			rec(name+"*"+g.name, m.Mul(g.m), a.after(g.a), append(word[:len(word):len(word)], i))
		}
	}
	g := gens[first]
	rec(g.name, g.m, g.a, []int{first})
}

func explore3[M matrix3[M]](t *T, gens []gen[M], transform func(sdf.SDF3, M) sdf.SDF3) {
	depth := t.N(4, 5)
	t.Par(len(gens), func(i int) {
		t.Case("3D words from "+gens[i].name, func(c *Case) {
			words(c, gens, i, depth, func(name string, m M, a affine, word []int) {
				check3(c, name, m, a, transform)
				if len(word) > 1 && len(word) <= 3 { // the same as nested transforms, the innermost first
					s := asym3()
					var n sdf.SDF3 = s
					for k := len(word) - 1; k >= 0; k-- {
						n = transform(n, gens[word[k]].m)
					}
					for _, p := range points3() {
						if got, want := n.Evaluate(a.apply(p)), s.f(p); !near(got, want, 1e-7) {
							c.Fail("nested transforms %s: %v at %v, want %v", name, got, a.apply(p), want)
						}
					}
				}
			})
		})
	})
}

func explore2[M matrix2[M]](t *T, gens []gen[M], transform func(sdf.SDF2, M) sdf.SDF2) {
	depth := t.N(4, 5)
	t.Par(len(gens), func(i int) {
		t.Case("2D words from "+gens[i].name, func(c *Case) {
			words(c, gens, i, depth, func(name string, m M, a affine, word []int) {
				check2(c, name, m, a, transform)
				if len(word) > 1 && len(word) <= 3 {
					s := asym2()
					var n sdf.SDF2 = s
					for k := len(word) - 1; k >= 0; k-- {
						n = transform(n, gens[word[k]].m)
					}
					for _, p := range grid2(5, 2) {
						if got, want := n.Evaluate(a.apply2(p)), s.f(p); !near(got, want, 1e-7) {
							c.Fail("nested transforms %s: %v at %v, want %v", name, got, a.apply2(p), want)
						}
					}
				}
			})
		})
	})
}

// probe returns the map by which a single copy of a shape is evaluated.
func probe(build func(s sdf.SDF3) sdf.SDF3) func(p r3.Vec) r3.Vec {
	bb := box3(v3(0, 0, 0), 1, 1, 1)
	x := build(fn3{func(p r3.Vec) float64 { return p.X }, bb})
	y := build(fn3{func(p r3.Vec) float64 { return p.Y }, bb})
	z := build(fn3{func(p r3.Vec) float64 { return p.Z }, bb})
	return func(p r3.Vec) r3.Vec { return v3(x.Evaluate(p), y.Evaluate(p), z.Evaluate(p)) }
}

// sweep checks every generator by itself and between two others.
func sweep3[M matrix3[M]](t *T, name string, gens, around []gen[M], transform func(sdf.SDF3, M) sdf.SDF3) {
	t.Case(name, func(c *Case) {
		for _, g := range gens {
			for _, a := range around {
				c.Trans(2)
				check3(c, a.name+"*"+g.name, a.m.Mul(g.m), a.a.after(g.a), transform)
				check3(c, g.name+"*"+a.name, g.m.Mul(a.m), g.a.after(a.a), transform)
			}
		}
	})
}

func sweep2[M matrix2[M]](t *T, name string, gens, around []gen[M], transform func(sdf.SDF2, M) sdf.SDF2) {
	t.Case(name, func(c *Case) {
		for _, g := range gens {
			for _, a := range around {
				c.Trans(2)
				check2(c, a.name+"*"+g.name, a.m.Mul(g.m), a.a.after(g.a), transform)
				check2(c, g.name+"*"+a.name, g.m.Mul(a.m), g.a.after(a.a), transform)
			}
		}
	})
}

// sweep16 checks single matrices over many arguments.
func sweep16(t *T) {
	z := v3(0, 0, 1)
	angles := []float64{0, 1e-9, 1e-4, 0.3, math.Pi / 4, 1, math.Pi / 2, 2, 3, math.Pi, 3.5, 1.5 * math.Pi, 5.5, 2 * math.Pi, 7, 20, -1e-4, -0.5, -math.Pi / 2, -math.Pi, -4, -50}
	around3 := list(
		mk("id", sdf.Translate3D(v3(0, 0, 0)), affId()),
		mk("t", sdf.Translate3D(v3(3, -1, 2)), affTrans(3, -1, 2)),
		mk("r", sdf.Rotate3D(v3(2, -1, 0.5), 0.8), affRot(v3(2, -1, 0.5), 0.8)),
	)
	around2 := list(
		mk("id", sdf.Translate2D(v2(0, 0)), affId()),
		mk("t", sdf.Translate2D(v2(3, -1)), affTrans(3, -1, 0)),
		mk("r", sdf.Rotate2D(0.8), affRot(z, 0.8)),
	)
	axes := append(dirs(), v3(0.01, 0, 0), v3(0, 0, 100), v3(1, 1e-3, 0), v3(1e-6, 1, -1e-6), v3(-3, 0.5, 8), v3(1e-4, 2e-4, -3e-4))
	t.Par(len(angles), func(i int) {
		a := angles[i]
		g := list(
			mk("rx", sdf.RotateX(a), affRot(v3(1, 0, 0), a)),
			mk("ry", sdf.RotateY(a), affRot(v3(0, 1, 0), a)),
			mk("rz", sdf.RotateZ(a), affRot(z, a)),
		)
		for _, x := range axes {
			g = append(g, mk(fmt.Sprint(x), sdf.Rotate3D(x, a), affRot(x, a)))
		}
		sweep3(t, fmt.Sprintf("3D rotations by %v", a), g, around3, sdf.Transform3D)
		sweep2(t, fmt.Sprintf("2D rotation by %v", a), list(mk("r", sdf.Rotate2D(a), affRot(z, a))), around2, sdf.Transform2D)
	})
	ks := []float64{1, -1, 1e-3, -0.02, 0.5, 7, -3, 40, -90, 2}
	t.Par(len(ks), func(i int) {
		x := ks[i]
		g, f := around3[:0:0], around2[:0:0]
		for _, y := range ks {
			f = append(f, mk(fmt.Sprintf("s(%v,%v)", x, y), sdf.Scale2D(v2(x, y)), affScale(x, y, 1)),
				mk(fmt.Sprintf("t(%v,%v)", x, y), sdf.Translate2D(v2(x, y)), affTrans(x, y, 0)))
			for _, w := range ks {
				g = append(g, mk(fmt.Sprintf("s(%v,%v,%v)", x, y, w), sdf.Scale3D(v3(x, y, w)), affScale(x, y, w)),
					mk(fmt.Sprintf("t(%v,%v,%v)", x, y, w), sdf.Translate3D(v3(x, y, w)), affTrans(x, y, w)))
			}
		}
		for _, k := range []float64{1e-5, 1e-4, 1e4} { // small and large all over
			u := math.Copysign(k, x)
			f = append(f, mk(fmt.Sprintf("s(%v,%v)", u, 2*k), sdf.Scale2D(v2(u, 2*k)), affScale(u, 2*k, 1)))
			g = append(g, mk(fmt.Sprintf("s(%v,%v,%v)", u, k, 3*k), sdf.Scale3D(v3(u, k, 3*k)), affScale(u, k, 3*k)))
		}
		sweep3(t, fmt.Sprintf("3D scales and translations by %v", x), g, around3, sdf.Transform3D)
		sweep2(t, fmt.Sprintf("2D scales and translations by %v", x), f, around2, sdf.Transform2D)
	})
	// sums and multiples of 2D matrices are those of their coefficients
	t.Case("sums and multiples", func(c *Case) {
		a, b := sdf.Translate2D(v2(3, -1)).Mul(sdf.Rotate2D(0.8)), sdf.Scale2D(v2(2, 0.5)).Mul(sdf.Translate2D(v2(0.5, 7)))
		for _, k := range []float64{0, 1, -2.5, 100} {
			for _, p := range grid2(5, 2) {
				x, y := a.MulPosition(p), b.MulPosition(p)
				if got, want := a.Add(b).MulPosition(p), r2.Add(x, y); !close2(got, want, tolM) {
					c.Fail("sum maps %v to %v, want %v", p, got, want)
				}
				if got, want := a.MulScalar(k).MulPosition(p), r2.Scale(k, x); !close2(got, want, tolM) {
					c.Fail("multiple by %v maps %v to %v, want %v", k, p, got, want)
				}
			}
			if k != 0 {
				if got, want := a.MulScalar(k).Determinant(), k*k*k*a.Determinant(); !near(got, want, tolM) {
					c.Fail("determinant of the multiple by %v is %v, want %v", k, got, want)
				}
				s := a.Add(b).MulScalar(k)
				if got, want := s.Inverse().Mul(s).MulPosition(v2(1, 2)), v2(1, 2); !close2(got, want, tolM) {
					c.Fail("inverse of the sum: %v", got)
				}
			}
			c.States(1)
			c.Trans(2)
		}
		c.Obs(1)
	})
}

func runC16(t *T) {
	z := v3(0, 0, 1)
	swap := affId()
	swap.a = [3][3]float64{{0, 1, 0}, {1, 0, 0}, {0, 0, 1}}
	g3 := list(
		mk("tx", sdf.Translate3D(v3(1, 0, 0)), affTrans(1, 0, 0)),
		mk("tyz", sdf.Translate3D(v3(0, -2, 0.5)), affTrans(0, -2, 0.5)),
		mk("txyz", sdf.Translate3D(v3(-0.3, 4, -7)), affTrans(-0.3, 4, -7)),
		mk("rx", sdf.RotateX(math.Pi/2), affRot(v3(1, 0, 0), math.Pi/2)),
		mk("ry", sdf.RotateY(0.7), affRot(v3(0, 1, 0), 0.7)),
		mk("rz", sdf.RotateZ(-2.1), affRot(z, -2.1)),
		mk("rv", sdf.Rotate3D(v3(1, -2, 3), 1.3), affRot(v3(1, -2, 3), 1.3)),
		mk("rw", sdf.Rotate3D(v3(-0.2, 0.1, 0), 4), affRot(v3(-0.2, 0.1, 0), 4)),
		mk("rpi", sdf.Rotate3D(v3(1, 1, 0), math.Pi), affRot(v3(1, 1, 0), math.Pi)),
		mk("rcalm", sdf.Rotate3D(v3(0, 3, 1), 1e-3), affRot(v3(0, 3, 1), 1e-3)),
		mk("s", sdf.Scale3D(v3(2, 0.5, 3)), affScale(2, 0.5, 3)),
		mk("sneg", sdf.Scale3D(v3(-1, 0.7, -0.4)), affScale(-1, 0.7, -0.4)),
		mk("sneg1", sdf.Scale3D(v3(1, 1, -2)), affScale(1, 1, -2)),
		mk("mxy", sdf.MirrorXY(), affScale(1, 1, -1)),
		mk("mxz", sdf.MirrorXZ(), affScale(1, -1, 1)),
		mk("myz", sdf.MirrorYZ(), affScale(-1, 1, 1)),
		mk("mxey", sdf.MirrorXeqY(), swap),
		mk("id", sdf.Translate3D(v3(0, 0, 0)), affId()),
	)
	explore3(t, g3, sdf.Transform3D)
	g2 := list(
		mk("tx", sdf.Translate2D(v2(1, 0)), affTrans(1, 0, 0)),
		mk("ty", sdf.Translate2D(v2(0, -2)), affTrans(0, -2, 0)),
		mk("txy", sdf.Translate2D(v2(-0.3, 4)), affTrans(-0.3, 4, 0)),
		mk("r", sdf.Rotate2D(0.7), affRot(z, 0.7)),
		mk("r90", sdf.Rotate2D(math.Pi/2), affRot(z, math.Pi/2)),
		mk("rneg", sdf.Rotate2D(-2.1), affRot(z, -2.1)),
		mk("r4", sdf.Rotate2D(4), affRot(z, 4)),
		mk("s", sdf.Scale2D(v2(2, 0.5)), affScale(2, 0.5, 1)),
		mk("sneg", sdf.Scale2D(v2(-1, 0.7)), affScale(-1, 0.7, 1)),
		mk("sneg2", sdf.Scale2D(v2(-0.4, -3)), affScale(-0.4, -3, 1)),
		mk("mx", sdf.MirrorX(), affScale(1, -1, 1)),
		mk("my", sdf.MirrorY(), affScale(-1, 1, 1)),
		mk("id", sdf.Translate2D(v2(0, 0)), affId()),
		mk("rcalm", sdf.Rotate2D(1e-3), affRot(z, 1e-3)),
	)
	explore2(t, g2, sdf.Transform2D)
	sweep16(t)
	// 2x2 rotations
	angles := []float64{0, 0.3, math.Pi / 2, 1.9, math.Pi, -0.8, -2.7, 5, 7}
	for _, a := range angles {
		t.Case(fmt.Sprintf("2x2 rotation by %v", a), func(c *Case) {
			for _, b := range angles {
				for _, d := range angles {
					m := sdf.Rotate(a).Mul(sdf.Rotate(b)).Mul(sdf.Rotate(d))
					w := affRot(z, a).after(affRot(z, b)).after(affRot(z, d))
					inv := m.Inverse()
					for _, p := range grid2(3, 1.5) {
						if got := m.MulPosition(p); !close2(got, w.apply2(p), tolM) {
							c.Fail("rotations by %v, %v, %v map %v to %v", a, b, d, p, got)
						}
						if got := inv.MulPosition(w.apply2(p)); !close2(got, p, tolM) {
							c.Fail("inverse of rotations by %v, %v, %v maps %v to %v", a, b, d, w.apply2(p), got)
						}
					}
					if !near(m.Determinant(), 1, tolM) {
						c.Fail("determinant %v", m.Determinant())
					}
					c.States(1)
					c.Trans(2)
					c.Trace(1)
					c.Obs(w)
				}
			}
		})
	}
	// Orient3D: a rotation that takes the base to the direction
	var vecs []r3.Vec
	for _, d := range dirs() {
		vecs = append(vecs, d)
	}
	for _, k := range []float64{1e-2, 1e-3, 1e-6, 1e-9, 1e-13} {
		vecs = append(vecs, v3(k, 0, 1), v3(1, k, k), v3(-1, k, 0))
	}
	for k := 1e-12; k < 0.1; k *= 3.7 { // close to opposite directions
		vecs = append(vecs, v3(-1, 0.6*k, -0.8*k), v3(k, -1-k, -1+2*k))
	}
	vecs = append(vecs, v3(1e-4, 0, 0), v3(2e-6, 1e-6, -3e-6), v3(-1e7, 3e7, 0), v3(0.01, 0.02, -0.03), v3(100, 50, -20), v3(-1, -1, 1e-3))
	t.Par(len(vecs), func(i int) {
		base := vecs[i]
		t.Case(fmt.Sprintf("orient from %v", base), func(c *Case) {
			for _, d := range vecs {
				ub, ud := r3.Unit(base), r3.Unit(d)
				tol := 1e-8
				f := probe(func(s sdf.SDF3) sdf.SDF3 { return sdf.Orient3D(s, base, []r3.Vec{d}) })
				o := f(v3(0, 0, 0))
				if !close3(o, v3(0, 0, 0), tol) {
					c.Fail("to %v: the origin moves to %v", d, o)
				}
				if got := f(ud); !close3(got, ub, tol) {
					c.Fail("to %v: the point %v of the copy is the point %v of the shape, want %v", d, ud, got, ub)
				}
				x, y, w := f(v3(1, 0, 0)), f(v3(0, 1, 0)), f(v3(0, 0, 1))
				if !near(r3.Norm(x), 1, tol) || !near(r3.Norm(y), 1, tol) || !near(r3.Norm(w), 1, tol) ||
					!near(r3.Dot(x, y), 0, tol) || !near(r3.Dot(y, w), 0, tol) || !near(r3.Dot(w, x), 0, tol) || !close3(r3.Cross(x, y), w, tol) {
					c.Fail("to %v: not a rotation: %v %v %v", d, x, y, w)
				}
				p := v3(0.3, -1.7, 2.2)
				if got, want := f(p), r3.Add(r3.Add(r3.Scale(p.X, x), r3.Scale(p.Y, y)), r3.Scale(p.Z, w)); !close3(got, want, tol) {
					c.Fail("to %v: not linear", d)
				}
				c.States(1)
				c.Trans(1)
				c.Trace(1)
				c.Obs(x, y, w)
			}
		})
	})
	// shapes of the repository keep their values
	t.Case("primitives", func(c *Case) {
		m := sdf.Translate3D(v3(3, -1, 2)).Mul(sdf.Rotate3D(v3(1, 2, -1), 2)).Mul(sdf.MirrorXY())
		for _, s := range []sdf.SDF3{must3.Sphere(1), must3.Box(v3(1, 2, 3), 0.1), must3.Cylinder(2, 1, 0.2), must3.Cone(2, 1, 0.4, 0)} {
			ts := sdf.Transform3D(s, m)
			for _, p := range append(grid3(9, 2), far3()...) {
				if a, b := ts.Evaluate(m.MulPosition(p)), s.Evaluate(p); !near(a, b, tolM) {
					c.Fail("%v, want %v", a, b)
				}
			}
		}
		m2 := sdf.Translate2D(v2(3, -1)).Mul(sdf.Rotate2D(2)).Mul(sdf.MirrorX())
		for _, s := range []sdf.SDF2{must2.Circle(1), must2.Box(v2(1, 2), 0.1), must2.Line(2, 1), must2.Polygon(ell())} {
			ts := sdf.Transform2D(s, m2)
			for _, p := range append(grid2(21, 2), far2()...) {
				if a, b := ts.Evaluate(m2.MulPosition(p)), s.Evaluate(p); !near(a, b, tolM) {
					c.Fail("%v, want %v", a, b)
				}
			}
		}
		c.States(8)
		c.Obs(1)
	})
}
