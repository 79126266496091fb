package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C29", "exploration",
		"asymmetric fields and primitives with off-center bounds; all slice normals of {-2,-1,0,1,3,1e-3,-1e-5,500}^3 with 5 origins, elongations of {-1,0,0.5,2,60} per axis, 8 offsets, 7 shell thicknesses, 8 scales; lattices of 11^3 and 41^2 (17^3, 81^2) points around the shape",
		"a case is an operation with its arguments, compared at every lattice point with a formula on the values of the operand, and its bounds with a formula on the bounds; distinct by the values", runC29)
	register("C30", "model_checking",
		"6 (8) shapes with exact distances, 7 (12) positions relative to the lattice, 3 (5) resolutions; every tetrahedron of the body centered lattice, every node, and every point of a lattice of half the resolution deeper than 1.25 resolutions",
		"a case is a shape, its placement and a resolution; the tetrahedra are compared with an independent enumeration of the body centered cubic lattice; distinct by placement and numbers of nodes and tetrahedra", runC30)
	register("C31", "exploration",
		"all 12 standard NPT sizes with offsets of up to 1/33 in, sizes in between, 15 metric sizes, 40 dimensions of the materials",
		"a case is a nominal size or a material; distinct by the dimensions", runC31)
}

func comps(v r3.Vec) [3]float64 { return [3]float64{v.X, v.Y, v.Z} }

func same(a, b float64) bool { return near(a, b, 1e-9) }

// grown3 and grown2 are boxes with both sides of each axis moved outwards.
func grown3(b r3.Box, d r3.Vec) r3.Box {
	return r3.Box{Min: r3.Sub(b.Min, d), Max: r3.Add(b.Max, d)}
}
func grown2(b r2.Box, d r2.Vec) r2.Box {
	return r2.Box{Min: r2.Sub(b.Min, d), Max: r2.Add(b.Max, d)}
}

func runC29(t *T) {
	type s3 struct {
		n string
		s sdf.SDF3
	}
	type s2 struct {
		n string
		s sdf.SDF2
	}
	sh3 := []s3{
		{"field", asym3()}, {"box", mBox(v3(0.5, -1, 2), v3(1, 0.25, 0.5))}, {"sphere", mSphere(v3(-1, 0.5, 0), 1.5)},
		{"cyl", sdf.Transform3D(must3.Cylinder(2, 0.5, 0.1), sdf.RotateX(0.4))},
		{"farbox", mBox(v3(-40, 25, -60), v3(3, 2, 1))},
	}
	sh2 := []s2{{"field", asym2()}, {"disc", mDisc(v2(0.5, 0.25), 1)}, {"rect", mRect(v2(-1, 2), v2(1, 0.5))}, {"farrect", mRect(v2(-30, -50), v2(2, 3))}}
	n3, n2 := t.N(11, 17), t.N(41, 81)
	val3 := func(c *Case, s sdf.SDF3, want func(r3.Vec) float64) {
		for _, q := range append(grid3(n3, 4), far3()...) {
			p := v3(q.X+0.013, q.Y-0.021, q.Z+0.007)
			a, b := s.Evaluate(p), want(p)
			c.ObsF(a)
			if !same(a, b) {
				c.Fail("value %v at %v, want %v", a, p, b)
			}
		}
		c.Eval(n3 * n3 * n3)
	}
	val2 := func(c *Case, s sdf.SDF2, want func(r2.Vec) float64) {
		for _, q := range append(grid2(n2, 5), far2()...) {
			p := v2(q.X+0.013, q.Y-0.021)
			a, b := s.Evaluate(p), want(p)
			c.ObsF(a)
			if !same(a, b) {
				c.Fail("value %v at %v, want %v", a, p, b)
			}
		}
		c.Eval(n2 * n2)
	}
	mid := func(x, h float64) float64 { // the nearest point of [-h/2, h/2]
		h = math.Abs(h) / 2
		if x > h {
			return h
		}
		if x < -h {
			return -h
		}
		return x
	}
	t.Par(len(sh3), func(i int) {
		sh := sh3[i]
		bb := sh.s.Bounds()
		// slices
		g5 := []float64{-2, -1, 0, 1, 3, 1e-3, -1e-5, 500}
		for _, nx := range g5 {
			for _, ny := range g5 {
				for _, nz := range g5 {
					n := v3(nx, ny, nz)
					if n == (r3.Vec{}) {
						continue
					}
					for _, a := range []r3.Vec{v3(0, 0, 0), v3(0.3, -0.2, 0.7), v3(-2, 1, 0), v3(5, 0, -1), v3(-300, 800, 0.01)} {
						a := a
						t.Case(fmt.Sprintf("Slice2D(%s,%v,%v)", sh.n, a, n), func(c *Case) {
							var u r3.Vec
							switch {
							case n.X == 0:
								u = v3(1, 0, 0)
							case n.Y == 0:
								u = v3(0, 1, 0)
							case n.Z == 0:
								u = v3(0, 0, 1)
							default:
								l := math.Hypot(n.X, n.Y)
								u = v3(n.Y/l, -n.X/l, 0)
							}
							v := v3(n.Y*u.Z-n.Z*u.Y, n.Z*u.X-n.X*u.Z, n.X*u.Y-n.Y*u.X)
							l := math.Sqrt(v.X*v.X + v.Y*v.Y + v.Z*v.Z)
							v = v3(v.X/l, v.Y/l, v.Z/l)
							s := sdf.Slice2D(sh.s, a, n)
							val2(c, s, func(p r2.Vec) float64 {
								return sh.s.Evaluate(v3(a.X+p.X*u.X+p.Y*v.X, a.Y+p.X*u.Y+p.Y*v.Y, a.Z+p.X*u.Z+p.Y*v.Z))
							})
							// the bounds contain the slice of the box: every point of the slice whose 3D point is in the box
							got := s.Bounds()
							for _, p := range grid2(n2, 6) {
								q := v3(a.X+p.X*u.X+p.Y*v.X, a.Y+p.X*u.Y+p.Y*v.Y, a.Z+p.X*u.Z+p.Y*v.Z)
								if inside3(bb, q, 0) && !(p.X >= got.Min.X-1e-9 && p.X <= got.Max.X+1e-9 && p.Y >= got.Min.Y-1e-9 && p.Y <= got.Max.Y+1e-9) {
									c.Fail("bounds %v miss %v, which is in the bounds %v of the operand", got, p, bb)
								}
							}
							// and are no larger than its shadow
							sh := boxOf3(bb, func(q r3.Vec) r3.Vec {
								d := r3.Sub(q, a)
								return v3(d.X*u.X+d.Y*u.Y+d.Z*u.Z, d.X*v.X+d.Y*v.Y+d.Z*v.Z, 0)
							})
							if got.Min.X < sh.Min.X-1e-9 || got.Min.Y < sh.Min.Y-1e-9 || got.Max.X > sh.Max.X+1e-9 || got.Max.Y > sh.Max.Y+1e-9 {
								c.Fail("bounds %v are larger than the projection %v", got, sh)
							}
						})
					}
				}
			}
		}
		hs := []float64{-1, 0, 0.5, 2, 60}
		for _, hx := range hs {
			for _, hy := range hs {
				for _, hz := range hs {
					h := v3(hx, hy, hz)
					t.Case(fmt.Sprintf("Elongate3D(%s,%v)", sh.n, h), func(c *Case) {
						s := sdf.Elongate3D(sh.s, h)
						val3(c, s, func(p r3.Vec) float64 {
							return sh.s.Evaluate(v3(p.X-mid(p.X, h.X), p.Y-mid(p.Y, h.Y), p.Z-mid(p.Z, h.Z)))
						})
						same3(c, "elongation", s.Bounds(), grown3(bb, v3(math.Abs(h.X)/2, math.Abs(h.Y)/2, math.Abs(h.Z)/2)))
					})
				}
			}
		}
		for _, d := range []float64{-0.2, -0.1, 0, 0.1, 0.5, 1, 3, 1e4} {
			d := d
			t.Case(fmt.Sprintf("Offset3D(%s,%v)", sh.n, d), func(c *Case) {
				s := sdf.Offset3D(sh.s, d)
				val3(c, s, func(p r3.Vec) float64 { return sh.s.Evaluate(p) - d })
				same3(c, "offset", s.Bounds(), grown3(bb, v3(d, d, d)))
			})
		}
		for _, th := range []float64{-1, 0, 1e-7, 0.05, 0.1, 1, 3} {
			th := th
			t.Case(fmt.Sprintf("Shell3D(%s,%v)", sh.n, th), func(c *Case) {
				s := sdf.Shell3D(sh.s, th)
				if th <= 0 {
					for _, p := range grid3(n3, 4) {
						if v := s.Evaluate(p); !(v > 0) {
							c.Fail("a shell without thickness has value %v at %v", v, p)
						}
					}
					c.Obs("empty")
					return
				}
				val3(c, s, func(p r3.Vec) float64 { return math.Abs(sh.s.Evaluate(p)) - th/2 })
				same3(c, "shell", s.Bounds(), grown3(bb, v3(th/2, th/2, th/2)))
			})
		}
		for _, k := range []float64{1e-4, 0.01, 0.3, 1, 1.5, 2, 40, 1e5} {
			k := k
			t.Case(fmt.Sprintf("ScaleUniform3D(%s,%v)", sh.n, k), func(c *Case) {
				s := sdf.ScaleUniform3D(sh.s, k)
				val3(c, s, func(p r3.Vec) float64 { return k * sh.s.Evaluate(v3(p.X/k, p.Y/k, p.Z/k)) })
				same3(c, "scale", s.Bounds(), boxOf3(bb, func(p r3.Vec) r3.Vec { return v3(k*p.X, k*p.Y, k*p.Z) }))
			})
		}
	})
	t.Par(len(sh2), func(i int) {
		sh := sh2[i]
		bb := sh.s.Bounds()
		hs := []float64{-1, 0, 0.5, 2, 60}
		for _, hx := range hs {
			for _, hy := range hs {
				h := v2(hx, hy)
				t.Case(fmt.Sprintf("Elongate2D(%s,%v)", sh.n, h), func(c *Case) {
					s := sdf.Elongate2D(sh.s, h)
					val2(c, s, func(p r2.Vec) float64 { return sh.s.Evaluate(v2(p.X-mid(p.X, h.X), p.Y-mid(p.Y, h.Y))) })
					same2(c, "elongation", s.Bounds(), grown2(bb, v2(math.Abs(h.X)/2, math.Abs(h.Y)/2)))
				})
			}
		}
		for _, d := range []float64{-0.2, -0.1, 0, 0.1, 0.5, 1, 3, 1e4} {
			d := d
			t.Case(fmt.Sprintf("Offset2D(%s,%v)", sh.n, d), func(c *Case) {
				s := sdf.Offset2D(sh.s, d)
				val2(c, s, func(p r2.Vec) float64 { return sh.s.Evaluate(p) - d })
				same2(c, "offset", s.Bounds(), grown2(bb, v2(d, d)))
			})
		}
		ctr := v2((bb.Min.X+bb.Max.X)/2, (bb.Min.Y+bb.Max.Y)/2)
		for _, k := range []float64{1e-4, 0.01, 0.3, 1, 1.5, 2, 40, 1e5} {
			k := k
			t.Case(fmt.Sprintf("ScaleUniform2D(%s,%v)", sh.n, k), func(c *Case) {
				s := sdf.ScaleUniform2D(sh.s, k)
				val2(c, s, func(p r2.Vec) float64 { return k * sh.s.Evaluate(v2(p.X/k, p.Y/k)) })
				same2(c, "scale", s.Bounds(), boxOf2(bb, func(p r2.Vec) r2.Vec { return v2(k*p.X, k*p.Y) }))
				s = sdf.CenterAndScale2D(sh.s, k)
				val2(c, s, func(p r2.Vec) float64 { return k * sh.s.Evaluate(v2(p.X/k+ctr.X, p.Y/k+ctr.Y)) })
				same2(c, "center and scale", s.Bounds(), boxOf2(bb, func(p r2.Vec) r2.Vec { return v2(k*(p.X-ctr.X), k*(p.Y-ctr.Y)) }))
			})
		}
		t.Case(fmt.Sprintf("Center2D(%s)", sh.n), func(c *Case) {
			s := sdf.Center2D(sh.s)
			val2(c, s, func(p r2.Vec) float64 { return sh.s.Evaluate(v2(p.X+ctr.X, p.Y+ctr.Y)) })
			same2(c, "center", s.Bounds(), boxOf2(bb, func(p r2.Vec) r2.Vec { return v2(p.X-ctr.X, p.Y-ctr.Y) }))
		})
	})
}

// tetVol is six times the signed volume of a tetrahedron.
func tetVol(a, b, c, d r3.Vec) float64 {
	return r3.Dot(r3.Sub(b, a), r3.Cross(r3.Sub(c, a), r3.Sub(d, a)))
}

// bccCount enumerates the tetrahedra of a body centered cubic lattice of n cells: two adjacent
// centers and an edge of the face between them, with some corner inside of the solid.
func bccCount(s sdf.SDF3, lo r3.Vec, res float64, n [3]int) int {
	at := func(i [3]int, half float64) r3.Vec {
		return v3(lo.X+res*(float64(i[0])+half), lo.Y+res*(float64(i[1])+half), lo.Z+res*(float64(i[2])+half))
	}
	in := func(p r3.Vec) bool { return s.Evaluate(p) < 0 }
	count := 0
	var i [3]int
	for i[0] = 0; i[0] < n[0]; i[0]++ {
		for i[1] = 0; i[1] < n[1]; i[1]++ {
			for i[2] = 0; i[2] < n[2]; i[2]++ {
				for ax := 0; ax < 3; ax++ {
					if i[ax] == 0 {
						continue
					}
					j := i
					j[ax]--
					both := in(at(i, 0.5)) || in(at(j, 0.5))
					var face [4]bool
					for k := 0; k < 4; k++ {
						q := i
						if k == 1 || k == 2 {
							q[(ax+1)%3]++
						}
						if k >= 2 {
							q[(ax+2)%3]++
						}
						face[k] = in(at(q, 0))
					}
					for k := 0; k < 4; k++ {
						if both || face[k] || face[(k+1)%4] {
							count++
						}
					}
				}
			}
		}
	}
	return count
}

func runC30(t *T) {
	type sh struct {
		n string
		s sdf.SDF3
	}
	shapes := []sh{
		{"sphere", mSphere(v3(0, 0, 0), 1)},
		{"ball", must3.Sphere(0.8)},
		{"box", must3.Box(v3(2, 1.6, 1.8), 0.4)},
		{"cylinder", must3.Cylinder(2, 0.9, 0.3)},
		{"capsule", must3.Cylinder(3, 0.8, 0.8)},
		{"slab", mBox(v3(0.1, 0, 0), v3(1.2, 0.9, 0.9))},
	}
	if !t.quick {
		shapes = append(shapes, sh{"cone", must3.Cone(2, 1, 0.7, 0.2)}, sh{"turned", sdf.Transform3D(must3.Box(v3(2, 1.6, 1.8), 0.4), sdf.Rotate3D(v3(1, 2, 3), 0.7))})
	}
	places := []r3.Vec{v3(0, 0, 0), v3(0.031, 0.017, 0.043), v3(5, 0, 0), v3(0, -7, 3), v3(-3, -3, -3), v3(0.5, 0.25, 0.125), v3(10, 20, 30)}
	if !t.quick {
		places = append(places, v3(0.1, 0, 0), v3(0, 0.11, 0), v3(0, 0, 0.13), v3(-0.07, 0.05, 0.02), v3(1.5, 1.5, -1.5))
	}
	ress := []float64{0.3, 0.23, 0.19}
	if !t.quick {
		ress = append(ress, 0.15, 0.11)
	}
	n := len(shapes) * len(places) * len(ress)
	scales := []float64{1, 0.01, 50}
	t.Par(n*len(scales), func(i int) {
		sc := scales[i/n]
		i %= n
		sh, place, res := shapes[i%len(shapes)], r3.Scale(sc, places[i/len(shapes)%len(places)]), sc*ress[i/len(shapes)/len(places)]
		t.Case(fmt.Sprintf("tetra(%s,%v,%v,scale %v)", sh.n, place, res, sc), func(c *Case) {
			f := func(p r3.Vec) float64 { return sc * sh.s.Evaluate(r3.Scale(1/sc, r3.Sub(p, place))) }
			bb := sh.s.Bounds()
			bb.Min, bb.Max = r3.Scale(sc, bb.Min), r3.Scale(sc, bb.Max)
			m := 1.1 * res
			bb = r3.Box{Min: r3.Add(r3.Sub(bb.Min, v3(m, m, m)), place), Max: r3.Add(r3.Add(bb.Max, v3(m, m, m)), place)}
			s := fn3{f, bb}
			nodes, tets := sdfexp.UniformTetrahedronMesh(res, s)
			var dim [3]int
			lo, hi := comps(bb.Min), comps(bb.Max)
			for k := range dim {
				dim[k] = int(math.Ceil((hi[k] - lo[k]) / res))
			}
			want := bccCount(s, bb.Min, res, dim)
			if len(tets) != want {
				c.Fail("%d tetrahedra, the lattice has %d with a corner inside", len(tets), want)
			}
			c.Obs(place, len(nodes), len(tets))
			for i, p := range nodes {
				if !(math.Abs(p.X) < 1e6 && math.Abs(p.Y) < 1e6 && math.Abs(p.Z) < 1e6) {
					c.Fail("node %d is %v", i, p)
				}
			}
			// points well inside are in one tetrahedron
			step := res / 2
			type cell [3]int
			cover := map[cell]int{}
			at := func(q cell) r3.Vec {
				return v3(bb.Min.X+step*(float64(q[0])+0.3717), bb.Min.Y+step*(float64(q[1])+0.4191), bb.Min.Z+step*(float64(q[2])+0.4639))
			}
			seen := map[[4]int]bool{}
			for _, tt := range tets {
				key := tt
				for a := 0; a < 4; a++ {
					for b := a + 1; b < 4; b++ {
						if key[a] > key[b] {
							key[a], key[b] = key[b], key[a]
						}
					}
				}
				if key[0] < 0 || key[3] >= len(nodes) || key[0] == key[1] || key[1] == key[2] || key[2] == key[3] {
					c.Fail("tetrahedron %v of %d nodes", tt, len(nodes))
				}
				if seen[key] {
					c.Fail("tetrahedron %v twice", tt)
				}
				seen[key] = true
				p := [4]r3.Vec{nodes[tt[0]], nodes[tt[1]], nodes[tt[2]], nodes[tt[3]]}
				var tl, th [3]float64
				for k := 0; k < 3; k++ {
					tl[k], th[k] = math.Inf(1), math.Inf(-1)
				}
				deep := true
				for _, q := range p {
					d := f(q)
					if !(d < 1e-6*math.Max(1, sc)) { // gradients are taken in steps of 1e-6
						c.Fail("node %v is %v outside", q, d)
					}
					deep = deep && d < -1.01*res
					for k, x := range comps(q) {
						tl[k], th[k] = math.Min(tl[k], x), math.Max(th[k], x)
					}
				}
				v := tetVol(p[0], p[1], p[2], p[3])
				if deep && !near(math.Abs(v)*12, 6*res*res*res, 1e-6*res*res*res) {
					c.Fail("volume %v of the tetrahedron %v inside, want %v", v/6, p, -res*res*res/12)
				}
				var a, b cell
				for k := 0; k < 3; k++ {
					a[k] = int(math.Floor((tl[k]-lo[k])/step - 1))
					b[k] = int(math.Ceil((th[k]-lo[k])/step + 1))
				}
				for x := a[0]; x <= b[0]; x++ {
					for y := a[1]; y <= b[1]; y++ {
						for z := a[2]; z <= b[2]; z++ {
							q := at(cell{x, y, z})
							neg, pos := 0, 0
							for k := 0; k < 4; k++ {
								r := p
								r[k] = q
								w := tetVol(r[0], r[1], r[2], r[3])
								if w < 0 {
									neg++
								} else if w > 0 {
									pos++
								}
							}
							if neg == 0 || pos == 0 {
								cover[cell{x, y, z}]++
							}
						}
					}
				}
			}
			deep := 0
			for x := 0; x <= 2*dim[0]; x++ {
				for y := 0; y <= 2*dim[1]; y++ {
					for z := 0; z <= 2*dim[2]; z++ {
						q := at(cell{x, y, z})
						if f(q) < -1.25*res {
							deep++
							if n := cover[cell{x, y, z}]; n != 1 {
								c.Fail("%d tetrahedra at %v, which is %v inside", n, q, -f(q))
							}
						}
					}
				}
			}
			c.Obs(deep)
			c.States(len(nodes))
			c.Trans(len(tets))
			c.Trace(1)
			c.Eval(deep)
		})
	})
}

func runC31(t *T) {
	// ASME B1.20.1: outer diameter and threads per inch; hexagons of ASME B16.11 plugs in mm
	std := []struct{ n, d, tpi, hex float64 }{
		{0.125, 0.405, 27, 11.2}, {0.25, 0.54, 18, 15.7}, {0.375, 0.675, 18, 17.5}, {0.5, 0.84, 14, 22.4},
		{0.75, 1.05, 14, 26.9}, {1, 1.315, 11.5, 35.1}, {1.25, 1.66, 11.5, 44.5}, {1.5, 1.9, 11.5, 50.8},
		{2, 2.375, 11.5, 63.5}, {2.5, 2.875, 8, 76.2}, {3, 3.5, 8, 88.9}, {4, 4.5, 8, 117.3},
	}
	for _, st := range std {
		st := st
		t.Case(fmt.Sprintf("NPT %v", st.n), func(c *Case) {
			for _, d := range []float64{0, 1. / 33, -1. / 33, 0.01, -0.01, 1e-9} {
				var n thread.NPT
				if err := n.SetFromNominal(st.n + d); err != nil {
					c.Fail("SetFromNominal(%v): %v", st.n+d, err)
				}
				if n.D != st.d || n.TPI != st.tpi || !same(n.F2F, st.hex/25.4) {
					c.Fail("SetFromNominal(%v) is %+v, want D %v, TPI %v, F2F %v/25.4", st.n+d, n, st.d, st.tpi, st.hex)
				}
				p := n.ThreadParams()
				if !same(p.HexF2F, st.hex/25.4) || !same(p.Radius, st.d/2) || !same(p.Pitch, 1/st.tpi) || !same(p.HexRadius(), st.hex/25.4/math.Sqrt(3)) || !same(p.HexHeight(), st.hex/25.4/math.Sqrt(3)*10/12) {
					c.Fail("parameters of %v: %+v, hex radius %v height %v", st.n, p, p.HexRadius(), p.HexHeight())
				}
				c.Obs(n, p)
				c.Eval(1)
			}
		})
	}
	t.Case("NPT other", func(c *Case) {
		for i := -20; i <= 200; i++ {
			x := float64(i) / 40
			for _, x := range []float64{x, x + 1./32/2} {
				ok := false
				tie := false
				for _, st := range std {
					d := math.Abs(st.n - x)
					ok = ok || d < 1./32
					tie = tie || math.Abs(d-1./32) < 1e-9
				}
				if tie {
					continue
				}
				n := thread.NPT{D: 7, TPI: 8, F2F: 9}
				err := n.SetFromNominal(x)
				if (err == nil) != ok {
					c.Fail("SetFromNominal(%v): %v", x, err)
				}
				if err != nil && n != (thread.NPT{D: 7, TPI: 8, F2F: 9}) {
					c.Fail("SetFromNominal(%v) failed and left %+v", x, n)
				}
				c.Obs(n)
				c.Eval(1)
			}
		}
	})
	// ISO 272 (DIN for M10, M12) widths across flats
	for _, m := range [][2]float64{{1.6, 3.2}, {2, 4}, {2.5, 5}, {4, 7}, {5, 8}, {6, 10}, {8, 13}, {10, 17}, {12, 19}, {16, 24}, {20, 30}, {24, 36}, {30, 46}, {36, 55}, {42, 65}, {48, 75}, {56, 85}, {64, 95}} {
		m := m
		t.Case(fmt.Sprintf("M%v", m[0]), func(c *Case) {
			for _, p := range []thread.Parameters{thread.ISO{D: m[0], P: 1}.ThreadParams(), thread.ISO{D: m[0], P: 0.5, Ext: true}.ThreadParams(),
				thread.Acme{D: m[0], P: 1}.ThreadParams()} {
				if p.HexF2F != m[1] || !same(p.HexRadius(), m[1]/math.Sqrt(3)) || !same(p.HexHeight(), m[1]/math.Sqrt(3)*10/12) {
					c.Fail("hexagon of M%v: %v wide, radius %v, height %v; want %v", m[0], p.HexF2F, p.HexRadius(), p.HexHeight(), m[1])
				}
				c.Obs(p)
				c.Eval(1)
			}
		})
	}
	t.Case("materials", func(c *Case) {
		s := asym3()
		pla, id := matter.PLA.Scale(s), matter.Ideal{}.Scale(s)
		for _, p := range append(grid3(11, 3), far3()...) {
			if a, b := pla.Evaluate(p), 1.003*s.Evaluate(r3.Scale(1/1.003, p)); !same(a, b) {
				c.Fail("PLA value %v at %v, want %v", a, p, b)
			}
			if a, b := id.Evaluate(p), s.Evaluate(p); a != b {
				c.Fail("ideal value %v at %v, want %v", a, p, b)
			}
		}
		same3(c, "PLA", pla.Bounds(), boxOf3(s.bb, func(p r3.Vec) r3.Vec { return r3.Scale(1.003, p) }))
		for i := 1; i <= 40; i++ {
			x := float64(i*i) / 16
			if a := matter.PLA.InternalDimScale(x); !same(a, x*1.003+0.45) {
				c.Fail("PLA dimension %v is %v", x, a)
			}
			if a := (matter.Ideal{}).InternalDimScale(x); a != x {
				c.Fail("ideal dimension %v is %v", x, a)
			}
			c.Eval(1)
		}
		c.Obs("ok")
	})
}
