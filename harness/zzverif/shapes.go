package main

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func v2(x, y float64) r2.Vec    { return r2.Vec{X: x, Y: y} }
func v3(x, y, z float64) r3.Vec { return r3.Vec{X: x, Y: y, Z: z} }

// fn3 is a harness-defined SDF3.
type fn3 struct {
	f  func(p r3.Vec) float64
	bb r3.Box
}

func (s fn3) Evaluate(p r3.Vec) float64 { return s.f(p) }
func (s fn3) Bounds() r3.Box            { return s.bb }

// fn2 is a harness-defined SDF2.
type fn2 struct {
	f  func(p r2.Vec) float64
	bb r2.Box
}

func (s fn2) Evaluate(p r2.Vec) float64 { return s.f(p) }
func (s fn2) Bounds() r2.Box            { return s.bb }

func box3(c r3.Vec, hx, hy, hz float64) r3.Box {
	return r3.Box{Min: v3(c.X-hx, c.Y-hy, c.Z-hz), Max: v3(c.X+hx, c.Y+hy, c.Z+hz)}
}

// Exact distance models written independently of the repository.

func mSphere(c r3.Vec, r float64) fn3 {
	return fn3{func(p r3.Vec) float64 {
		x, y, z := p.X-c.X, p.Y-c.Y, p.Z-c.Z
		return math.Sqrt(x*x+y*y+z*z) - r
	}, box3(c, r, r, r)}
}

// boxDist is the signed distance from p to the axis aligned box of half sides h centered on the origin.
func boxDist(p, h []float64) float64 {
	out, in := 0.0, math.Inf(-1)
	for i := range p {
		q := math.Abs(p[i]) - h[i]
		if q > 0 {
			out += q * q
		}
		in = math.Max(in, q)
	}
	if out > 0 {
		return math.Sqrt(out)
	}
	return in
}

func mBox(c, h r3.Vec) fn3 {
	return fn3{func(p r3.Vec) float64 {
		return boxDist([]float64{p.X - c.X, p.Y - c.Y, p.Z - c.Z}, []float64{h.X, h.Y, h.Z})
	}, box3(c, h.X, h.Y, h.Z)}
}

func mUnion(ss ...fn3) fn3 {
	bb := ss[0].bb
	for _, s := range ss {
		bb.Min = v3(math.Min(bb.Min.X, s.bb.Min.X), math.Min(bb.Min.Y, s.bb.Min.Y), math.Min(bb.Min.Z, s.bb.Min.Z))
		bb.Max = v3(math.Max(bb.Max.X, s.bb.Max.X), math.Max(bb.Max.Y, s.bb.Max.Y), math.Max(bb.Max.Z, s.bb.Max.Z))
	}
	return fn3{func(p r3.Vec) float64 {
		d := math.Inf(1)
		for _, s := range ss {
			d = math.Min(d, s.f(p))
		}
		return d
	}, bb}
}

type named3 struct {
	name string
	s    sdf.SDF3
}

// solids are 1-Lipschitz solids used to exercise the renderer. They are harness
// models so that a defect of a shape is not mistaken for one of the renderer.
func solids() []named3 {
	o := v3(0, 0, 0)
	diff := func(a, b fn3) fn3 {
		return fn3{func(p r3.Vec) float64 { return math.Max(a.f(p), -b.f(p)) }, a.bb}
	}
	return []named3{
		{"sphere1", mSphere(o, 1)},
		{"sphere.off", mSphere(v3(3.3, -2.1, 0.7), 1.3)},
		{"box", mBox(o, v3(1, 1, 1))},
		{"slab", mBox(v3(0.2, 0.1, -0.3), v3(2, 0.5, 0.9))},
		{"rod", mBox(v3(-5, 0, 1), v3(0.4, 0.3, 3))},
		{"twospheres", mUnion(mSphere(v3(-1.5, 0, 0), 1), mSphere(v3(1.5, 0.3, 0), 0.9))},
		{"corner", mUnion(mBox(o, v3(1, 1, 1)), mSphere(v3(1, 1, 1), 0.6))},
		{"shell", diff(mSphere(o, 2), mSphere(v3(0.2, 0, 0), 1.2))},
		{"drilled", diff(mBox(o, v3(1.5, 1, 0.8)), fn3{func(p r3.Vec) float64 { return math.Hypot(p.X, p.Y) - 0.5 }, r3.Box{}})},
		{"bulge", mUnion(mSphere(o, 0.8), mBox(v3(1, 0, 0), v3(1.2, 0.4, 0.4)))},
	}
}

// repoSolids are built with the repository's own constructors.
func repoSolids() []named3 {
	return []named3{
		{"must3.Sphere", must3.Sphere(1)},
		{"must3.Box", must3.Box(v3(2, 1, 3), 0.2)},
		{"must3.Cylinder", must3.Cylinder(2, 1, 0.1)},
		{"must3.Cone", must3.Cone(2, 1, 0.4, 0)},
		{"diff", sdf.Difference3D(must3.Box(v3(2, 2, 2), 0), must3.Sphere(1.2))},
		{"union", sdf.Union3D(must3.Box(v3(2, 1, 1), 0), sdf.Transform3D(must3.Sphere(0.7), sdf.Translate3D(v3(1, 0, 0.4))))},
		{"extrude", sdf.Extrude3D(sdf.Difference2D(must2.Box(v2(3, 2), 0.3), must2.Circle(0.6)), 1.5)},
		{"revolve", sdf.Revolve3D(sdf.Transform2D(must2.Circle(0.5), sdf.Translate2D(v2(1.4, 0))), 2*math.Pi)},
	}
}

// mesh reads a renderer to its end with the given buffer size.
func readMesh(r render.Renderer, buf int) ([]r3.Triangle, error) {
	var out []r3.Triangle
	b := make([]r3.Triangle, buf)
	for calls := 0; ; calls++ {
		if calls > 2_000_000 {
			return out, fmt.Errorf("no io.EOF after %d reads", calls)
		}
		n, err := r.ReadTriangles(b)
		if n < 0 || n > len(b) {
			return out, fmt.Errorf("read of %d returned n=%d", len(b), n)
		}
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func triLess(a, b r3.Triangle) bool {
	for i := range a {
		if a[i] != b[i] {
			if a[i].X != b[i].X {
				return a[i].X < b[i].X
			}
			if a[i].Y != b[i].Y {
				return a[i].Y < b[i].Y
			}
			return a[i].Z < b[i].Z
		}
	}
	return false
}

func sortedTris(t []r3.Triangle) []r3.Triangle {
	t = append([]r3.Triangle(nil), t...)
	sort.Slice(t, func(i, j int) bool { return triLess(t[i], t[j]) })
	return t
}

// sameTris reports the first difference of two multisets of triangles, both sorted.
func sameTris(got, want []r3.Triangle) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			if triLess(got[i], want[i]) {
				return fmt.Sprintf("got %d triangles, want %d; surplus triangle %v", len(got), len(want), got[i])
			}
			return fmt.Sprintf("got %d triangles, want %d; missing triangle %v", len(got), len(want), want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d triangles, want %d", len(got), len(want))
	}
	return ""
}
