package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C04", "exploration",
		"26 placements of a small ball at every corner of the sampling lattice for 2..6 (thorough 2..11) cells per side and 5 box proportions, and at 27 corners of it for 2..132 (516) cells, and along bounds of 255 to 70000 cells in each direction; 18 solids at 27 lattice offsets and 2..12 (thorough 2..24) cells, up to 47 (65) cells, scaled by 1e-4 and 1e4, and moved by 1e5",
		"a case is a model and a resolution; every cell of the sampling lattice is enumerated, and a cell with corners on both sides of the surface must hold triangles; a case is non-trivial if its mesh is not empty, distinct by its set of crossed cells",
		runC04)
	register("C05", "exploration",
		"every assignment of inside, outside and on-surface to a 2x2x2 block of lattice corners (3^8, with corners inside by rounding only 4^8), of inside and outside to 2x2x3 (thorough also 2x3x3), with 3 fields of values; 3 solids cut in 10 ways through lattice corners and turned by 6 angles about 4 axes; 18 solids at 27 offsets, 2..12 (24) cells, scaled by 1e-4 and 1e4, and moved by 1e5",
		"a case is a slice of the enumeration; the mesh of each field must be closed and consistently oriented with a positive volume; distinct by number of triangles and volume",
		runC05)
	register("C06", "exploration",
		"18 solids, 27 lattice offsets, 2..12 (thorough 2..24) cells, scaled by 1e-4 and 1e4, and moved by 1e5; planes in 26 directions; balls up to 40 cells",
		"a case is a model and a resolution; every vertex of the mesh is checked against the distance function, the mesh against the size of a cell and the volume of the model; distinct by triangle count and volume",
		runC06)
}

// lattice is the sampling lattice of the octree renderer: its first corner is the
// lower corner of the bounds enlarged by a hundredth, its cell the longest side over the cells.
type lattice struct {
	o    r3.Vec
	cell float64
	n    [3]int // cells that cover the enlarged bounds
}

func latticeOf(bb r3.Box, cells int) lattice {
	size := []float64{bb.Max.X - bb.Min.X, bb.Max.Y - bb.Min.Y, bb.Max.Z - bb.Min.Z}
	mid := []float64{(bb.Max.X + bb.Min.X) / 2, (bb.Max.Y + bb.Min.Y) / 2, (bb.Max.Z + bb.Min.Z) / 2}
	l := lattice{cell: 1.01 * math.Max(size[0], math.Max(size[1], size[2])) / float64(cells)}
	l.o = v3(mid[0]-0.505*size[0], mid[1]-0.505*size[1], mid[2]-0.505*size[2])
	for i := range l.n {
		l.n[i] = int(math.Ceil(1.01*size[i]/l.cell - 1e-9))
	}
	return l
}

func (l lattice) corner(i, j, k int) r3.Vec {
	return v3(l.o.X+float64(i)*l.cell, l.o.Y+float64(j)*l.cell, l.o.Z+float64(k)*l.cell)
}

func (l lattice) cellOf(p r3.Vec) [3]int {
	return [3]int{int(math.Floor((p.X - l.o.X) / l.cell)), int(math.Floor((p.Y - l.o.Y) / l.cell)), int(math.Floor((p.Z - l.o.Z) / l.cell))}
}

func centroid(t r3.Triangle) r3.Vec {
	return r3.Scale(1.0/3, r3.Add(t[0], r3.Add(t[1], t[2])))
}

func volume(m []r3.Triangle) (v float64) {
	for _, t := range m {
		// from a vertex of the mesh, as differences of large products cancel
		a, b, c := r3.Sub(t[0], m[0][0]), r3.Sub(t[1], m[0][0]), r3.Sub(t[2], m[0][0])
		v += r3.Dot(a, r3.Cross(b, c)) / 6
	}
	return v
}

// sdf3 is what the renderer needs.
type sdf3 interface {
	Evaluate(r3.Vec) float64
	Bounds() r3.Box
}

// crossed checks that every lattice cell with corners on both sides holds triangles.
func crossed(c *Case, s sdf3, mesh []r3.Triangle, cells int) int {
	return crossedIn(c, s, mesh, cells, [3]int{}, latticeOf(s.Bounds(), cells).n)
}

// crossedIn is crossed for the lattice cells from lo to below hi.
func crossedIn(c *Case, s sdf3, mesh []r3.Triangle, cells int, lo, hi [3]int) int {
	l := latticeOf(s.Bounds(), cells)
	var n [3]int
	for i := range n {
		lo[i] = imax(lo[i], 0)
		hi[i] = imin(hi[i], l.n[i])
		n[i] = hi[i] - lo[i]
	}
	have := map[[3]int]int{}
	for _, t := range mesh {
		have[l.cellOf(centroid(t))]++
	}
	val := make([]float64, (n[0]+1)*(n[1]+1)*(n[2]+1))
	at := func(i, j, k int) int { return (i*(n[1]+1)+j)*(n[2]+1) + k }
	for i := 0; i <= n[0]; i++ {
		for j := 0; j <= n[1]; j++ {
			for k := 0; k <= n[2]; k++ {
				val[at(i, j, k)] = s.Evaluate(l.corner(lo[0]+i, lo[1]+j, lo[2]+k))
			}
		}
	}
	eps := 1e-6 * l.cell
	count := 0
	for i := 0; i < n[0]; i++ {
		for j := 0; j < n[1]; j++ {
			for k := 0; k < n[2]; k++ {
				in, out := false, false
				for q := 0; q < 8; q++ {
					d := val[at(i+q&1, j+q>>1&1, k+q>>2)]
					in = in || d < -eps
					out = out || d > eps
				}
				if in && out {
					count++
					x, y, z := lo[0]+i, lo[1]+j, lo[2]+k
					if have[[3]int{x, y, z}] == 0 {
						c.Fail("cells=%d: the surface crosses cell %d,%d,%d at %v (side %v) but it has no triangles", cells, x, y, z, l.corner(x, y, z), l.cell)
					}
					c.h = (c.h ^ uint64(at(i, j, k))) * 1099511628211
				}
			}
		}
	}
	c.Eval(n[0] * n[1] * n[2])
	if count > 0 {
		c.nontr = true
	}
	return count
}

// dirs are the 26 directions to the neighbours of a cell.
func dirs() (d []r3.Vec) {
	for i := -1; i <= 1; i++ {
		for j := -1; j <= 1; j++ {
			for k := -1; k <= 1; k++ {
				if i != 0 || j != 0 || k != 0 {
					d = append(d, v3(float64(i), float64(j), float64(k)))
				}
			}
		}
	}
	return d
}

func octree(c *Case, s sdf3, cells int) []r3.Triangle {
	m, err := readMesh(render.NewOctreeRenderer(s, cells), 1<<13)
	if err != nil {
		c.Fail("cells=%d: %v", cells, err)
	}
	return m
}

// placed is a solid whose bounds are shifted by a fraction of a cell with respect to it.
func placed(s named3, cells int, d r3.Vec) fn3 {
	bb := s.s.Bounds()
	sz := math.Max(bb.Max.X-bb.Min.X, math.Max(bb.Max.Y-bb.Min.Y, bb.Max.Z-bb.Min.Z)) / float64(cells)
	// Bounds enclose the solid, they need not be tight.
	sh := r3.Scale(0.37*sz, d)
	g := fn3{s.s.Evaluate, r3.Box{
		Min: v3(bb.Min.X-math.Max(0, sh.X), bb.Min.Y-math.Max(0, sh.Y), bb.Min.Z-math.Max(0, sh.Z)),
		Max: v3(bb.Max.X-math.Min(0, sh.X), bb.Max.Y-math.Min(0, sh.Y), bb.Max.Z-math.Min(0, sh.Z)),
	}}
	return g
}

func placements() []r3.Vec { return append([]r3.Vec{{}}, dirs()...) }

// moved is a solid moved by d.
func moved(s named3, d r3.Vec) named3 {
	b := s.s.Bounds()
	return named3{fmt.Sprintf("%s moved by %v", s.name, d), fn3{func(p r3.Vec) float64 { return s.s.Evaluate(r3.Sub(p, d)) },
		r3.Box{Min: r3.Add(b.Min, d), Max: r3.Add(b.Max, d)}}}
}

// eachMesh enumerates solids, offsets and resolutions.
func eachMesh(t *T, f func(c *Case, s named3, m fn3, cells int, mesh []r3.Triangle)) {
	all := append(solids(), repoSolids()...)
	pl := placements()
	// very small and very large solids, and ones far away
	scales := []float64{1e-4, 1e4, 0}
	t.Par(len(all)*len(scales), func(i int) {
		s, k := all[i/len(scales)], scales[i%len(scales)]
		b := s.s.Bounds()
		if k == 0 {
			s = moved(s, v3(1e5, -3e4, 7e4))
		} else {
			s = named3{fmt.Sprintf("%s scaled by %v", s.name, k), fn3{func(p r3.Vec) float64 { return k * all[i/len(scales)].s.Evaluate(r3.Scale(1/k, p)) },
				r3.Box{Min: r3.Scale(k, b.Min), Max: r3.Scale(k, b.Max)}}}
		}
		t.Case("solid="+s.name, func(c *Case) {
			for _, cells := range []int{3, 4, 9, 16, 21} {
				for _, d := range pl[:5] {
					m := placed(s, cells, d)
					f(c, s, m, cells, octree(c, m, cells))
				}
			}
		})
	})
	t.Par(len(all)*len(pl), func(i int) {
		s, d := all[i/len(pl)], pl[i%len(pl)]
		t.Case(fmt.Sprintf("solid=%s offset=%v", s.name, d), func(c *Case) {
			list := []int{}
			for cells := 2; cells <= t.N(12, 24); cells++ {
				list = append(list, cells)
			}
			if d == (r3.Vec{}) {
				list = append(list, 31, 32, 33, 40, t.N(47, 65))
			}
			for _, cells := range list {
				m := placed(s, cells, d)
				f(c, s, m, cells, octree(c, m, cells))
			}
		})
	})
}

func runC04(t *T) {
	boxes := []r3.Vec{v3(1, 1, 1), v3(2, 1, 1), v3(1, 3, 2), v3(0.5, 0.7, 4), v3(5, 5, 1)}
	max := t.N(6, 8)
	t.Par(len(boxes)*(max-1), func(i int) {
		h, cells := boxes[i%len(boxes)], 2+i/len(boxes)
		t.Case(fmt.Sprintf("ball at every corner of the lattice, bounds %v, cells=%d", h, cells), func(c *Case) {
			bb := box3(v3(0.3, -0.2, 0.1), h.X, h.Y, h.Z)
			l := latticeOf(bb, cells)
			ds := append(dirs(), v3(0, 0, 0))
			for a := 0; a <= l.n[0]; a++ {
				for b := 0; b <= l.n[1]; b++ {
					for e := 0; e <= l.n[2]; e++ {
						if t.stopped() {
							return
						}
						for _, d := range ds {
							// The corner is barely within the ball, on all sides of its center.
							ctr := r3.Add(l.corner(a, b, e), r3.Scale(0.02*l.cell, d))
							s := mSphere(ctr, 0.05*l.cell)
							s.bb = bb
							if crossed(c, s, octree(c, s, cells), cells) == 0 {
								c.Fail("harness: no crossed cell")
							}
						}
						// A ball which hardly reaches out of the corner.
						for _, r := range []float64{1e-5, 1e-3} {
							s := mSphere(l.corner(a, b, e), r*l.cell)
							s.bb = bb
							if crossed(c, s, octree(c, s, cells), cells) == 0 {
								c.Fail("harness: no crossed cell")
							}
						}
					}
				}
			}
		})
	})
	top := t.N(132, 258)
	t.Par(top-1, func(i int) {
		cells := top - i
		t.Case(fmt.Sprintf("ball at the corners, sides and middle of the bounds, cells=%d", cells), func(c *Case) {
			for _, h := range boxes[:t.N(3, 5)] {
				bb := box3(v3(0.3, -0.2, 0.1), h.X, h.Y, h.Z)
				l := latticeOf(bb, cells)
				for _, at := range placements() {
					// 0, the middle, and the last corner in each direction
					var k [3]int
					for q, f := range []float64{at.X, at.Y, at.Z} {
						k[q] = [3]int{0, l.n[q] / 2, l.n[q]}[int(f)+1]
					}
					for _, d := range placements() {
						s := mSphere(r3.Add(l.corner(k[0], k[1], k[2]), r3.Scale(0.02*l.cell, d)), 0.05*l.cell)
						s.bb = bb
						if crossedIn(c, s, octree(c, s, cells), cells, [3]int{k[0] - 1, k[1] - 1, k[2] - 1}, [3]int{k[0] + 1, k[1] + 1, k[2] + 1}) == 0 {
							c.Fail("harness: no crossed cell")
						}
					}
				}
			}
		})
	})
	// long thin bounds of many cells
	long := []int{255, 256, 257, 511, 512, 513, 516, 1023, 1024, 1025, 1030, 2047, 2048, 2049, 2050, 4097, 10000, 32768, 40000, 65537, 70000}
	rods := []r3.Vec{v3(1, 0.5, 0.5), v3(0.3, 1, 0.7), v3(0.6, 0.2, 1)}
	t.Par(len(long)*len(rods), func(i int) {
		cells, rod := long[len(long)-1-i/len(rods)], i%len(rods)
		t.Case(fmt.Sprintf("ball in thin bounds along %d, cells=%d", rod, cells), func(c *Case) {
			q := 7 / float64(cells) // a few cells across
			h := [3]float64{q * rods[rod].X, q * rods[rod].Y, q * rods[rod].Z}
			h[rod] = 1
			bb := box3(v3(0.3, -0.2, 0.1), h[0], h[1], h[2])
			l := latticeOf(bb, cells)
			for f := 0; f <= 8; f++ {
				k := [3]int{l.n[0] / 2, l.n[1] / 2, l.n[2] / 2}
				k[rod] = l.n[rod] * f / 8
				for _, d := range placements() {
					s := mSphere(r3.Add(l.corner(k[0], k[1], k[2]), r3.Scale(0.02*l.cell, d)), 0.05*l.cell)
					s.bb = bb
					if crossedIn(c, s, octree(c, s, cells), cells, [3]int{k[0] - 1, k[1] - 1, k[2] - 1}, [3]int{k[0] + 1, k[1] + 1, k[2] + 1}) == 0 {
						c.Fail("harness: no crossed cell")
					}
				}
			}
		})
	})
	eachMesh(t, func(c *Case, s named3, m fn3, cells int, mesh []r3.Triangle) {
		crossed(c, m, mesh, cells)
		// Without any possible pruning the surface is the same.
		slow := fn3{func(p r3.Vec) float64 { return m.f(p) / 256 }, m.bb}
		ref := octree(c, slow, cells)
		if len(ref) != len(mesh) {
			c.Fail("cells=%d: %d triangles, %d without skipping of empty cells", cells, len(mesh), len(ref))
		}
		if a, b := volume(mesh), volume(ref); !near(a, b, 1e-9) {
			c.Fail("cells=%d: volume %v, %v without skipping of empty cells", cells, a, b)
		}
	})
}

// weld numbers vertices which coincide within tol.
type weld struct {
	tol float64
	m   map[[3]int64][]int
	pos []r3.Vec
}

func newWeld(tol float64) *weld { return &weld{tol: tol, m: map[[3]int64][]int{}} }

func (w *weld) id(p r3.Vec) int {
	h := 4 * w.tol
	k := [3]int64{int64(math.Floor(p.X / h)), int64(math.Floor(p.Y / h)), int64(math.Floor(p.Z / h))}
	near := func(f float64) (lo, hi int64) {
		f -= math.Floor(f)
		if f < 0.3 {
			lo = -1
		}
		if f > 0.7 {
			hi = 1
		}
		return
	}
	x0, x1 := near(p.X / h)
	y0, y1 := near(p.Y / h)
	z0, z1 := near(p.Z / h)
	for x := x0; x <= x1; x++ {
		for y := y0; y <= y1; y++ {
			for z := z0; z <= z1; z++ {
				for _, id := range w.m[[3]int64{k[0] + x, k[1] + y, k[2] + z}] {
					q := w.pos[id]
					if math.Abs(q.X-p.X) <= w.tol && math.Abs(q.Y-p.Y) <= w.tol && math.Abs(q.Z-p.Z) <= w.tol {
						return id
					}
				}
			}
		}
	}
	w.pos = append(w.pos, p)
	w.m[k] = append(w.m[k], len(w.pos)-1)
	return len(w.pos) - 1
}

// closed reports why a mesh is not a closed, consistently oriented surface.
func closed(m []r3.Triangle, cell float64) string {
	w := newWeld(1e-7 * cell)
	edges := map[[2]int]int{}
	for i, t := range m {
		var id [3]int
		for j, p := range t {
			if math.IsNaN(p.X+p.Y+p.Z) || math.IsInf(p.X+p.Y+p.Z, 0) {
				return fmt.Sprintf("triangle %d is %v", i, t)
			}
			id[j] = w.id(p)
		}
		if id[0] == id[1] || id[1] == id[2] || id[2] == id[0] {
			continue
		}
		for j := range id {
			a, b := id[j], id[(j+1)%3]
			if a < b {
				edges[[2]int{a, b}]++
			} else {
				edges[[2]int{b, a}]--
			}
		}
	}
	for e, n := range edges {
		if n != 0 {
			return fmt.Sprintf("edge %v-%v is not shared by triangles of opposite directions (balance %d)", w.pos[e[0]], w.pos[e[1]], n)
		}
	}
	return ""
}

// cornerField is a field given by its values at lattice corners. It is within half a
// cell of zero everywhere, so that no part of it may be skipped.
func cornerField(cells int, value func(i, j, k int) float64) (fn3, lattice) {
	bb := box3(v3(0, 0, 0), 1, 1, 1)
	l := latticeOf(bb, cells)
	return fn3{func(p r3.Vec) float64 {
		i, j, k := math.Round((p.X-l.o.X)/l.cell), math.Round((p.Y-l.o.Y)/l.cell), math.Round((p.Z-l.o.Z)/l.cell)
		return l.cell * value(int(i), int(j), int(k))
	}, bb}, l
}

func runC05(t *T) {
	type blk struct{ x, y, z, base int }
	blocks := []blk{{2, 2, 2, 3}, {2, 2, 3, 2}, {3, 2, 2, 2}, {2, 3, 2, 2}, {2, 2, 2, 4}}
	if !t.quick {
		blocks = append(blocks, blk{2, 3, 3, 2})
	}
	mags := []func(i, j, k int) float64{
		func(i, j, k int) float64 { return 0.1 },
		func(i, j, k int) float64 { return 0.02 + 0.4*math.Mod(float64(i*7+j*13+k*29)*0.618, 1) },
		func(i, j, k int) float64 { return 0.3 - 0.29*float64((i+j+k)%2) },
	}
	const slices = 64
	for _, b := range blocks {
		nc := b.x * b.y * b.z
		nm := len(mags)
		if b.base == 4 {
			nm = t.N(1, 3)
		}
		total := 1
		for i := 0; i < nc; i++ {
			total *= b.base
		}
		b := b
		t.Par(slices, func(sl int) {
			t.Case(fmt.Sprintf("corner block %dx%dx%d of %d values, configurations %d mod %d", b.x, b.y, b.z, b.base, sl, slices), func(c *Case) {
				st := make([]int, nc)
				for code := sl; code < total; code += slices {
					if t.stopped() {
						return
					}
					anyIn, barely := false, false
					for i, q := 0, code; i < nc; i++ {
						st[i] = q % b.base
						q /= b.base
						anyIn = anyIn || st[i] == 1
						barely = barely || st[i] == 3
					}
					if b.base == 4 && !barely {
						continue // as with base 3
					}
					for mi, mag := range mags[:nm] {
						s, l := cornerField(5, func(i, j, k int) float64 {
							v := mag(i, j, k)
							x, y, z := i-2, j-1, k-2
							if x < 0 || y < 0 || z < 0 || x >= b.x || y >= b.y || z >= b.z {
								return v
							}
							switch st[(x*b.y+y)*b.z+z] {
							case 1:
								return -v
							case 2:
								return 0
							case 3: // inside by rounding only
								return -1e-14
							}
							return v
						})
						m := octree(c, s, 5)
						if p := closed(m, l.cell); p != "" {
							c.Fail("configuration %v values %d: %s", st, mi, p)
						}
						v := volume(m)
						if anyIn != (v > 0) && !(barely && !anyIn) || v < -1e-12 {
							c.Fail("configuration %v values %d: volume %v", st, mi, v)
						}
						c.Eval(1)
						c.ObsF(v)
					}
				}
			})
		})
	}
	// Solids cut along the lattice and turned, so that the values on the
	// cuts are zero up to rounding of either sign.
	bases := []named3{
		{"ball", mSphere(v3(0, 0, 0), 1)}, {"box", mBox(v3(0, 0, 0), v3(1, 1, 1))}, {"slab", mBox(v3(0, 0, 0), v3(1, 0.5, 1))},
	}
	angles := []float64{math.Pi / 2, math.Pi, -math.Pi / 2, 3 * math.Pi / 2, math.Pi / 6, math.Pi / 4}
	cuts := [][]r3.Vec{
		{v3(1, 0, 0)}, {v3(0, 1, 0)}, {v3(0, 0, 1)}, {v3(1, 1, 0)}, {v3(0, 1, -1)}, {v3(1, 1, 1)},
		{v3(1, 0, 0), v3(0, 1, 0)}, {v3(0, -1, 0), v3(0, 0, 1)}, {v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1)}, {v3(1, 1, 0), v3(0, 0, 1)},
	}
	axes := []r3.Vec{v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1), r3.Unit(v3(1, 1, 1))}
	t.Par(len(bases)*len(angles)*len(cuts), func(i int) {
		b, th, cut := bases[i%len(bases)], angles[i/len(bases)%len(angles)], cuts[i/len(bases)/len(angles)]
		t.Case(fmt.Sprintf("%s cut along %v and turned by %.4f", b.name, cut, th), func(c *Case) {
			for _, ax := range axes {
				sin, cos := math.Sincos(th)
				var ns []r3.Vec
				for _, n := range cut {
					n = r3.Unit(n)
					// Rodrigues
					ns = append(ns, r3.Add(r3.Add(r3.Scale(cos, n), r3.Scale(sin, r3.Cross(ax, n))), r3.Scale(r3.Dot(ax, n)*(1-cos), ax)))
				}
				for _, keep := range []float64{1, -1} {
					s := fn3{func(p r3.Vec) float64 {
						q := math.Inf(-1)
						for _, n := range ns {
							q = math.Max(q, r3.Dot(n, p))
						}
						return math.Max(b.s.Evaluate(p), keep*q)
					}, b.s.Bounds()}
					for cells := 4; cells <= t.N(13, 32); cells++ {
						m := octree(c, s, cells)
						if p := closed(m, latticeOf(s.bb, cells).cell); p != "" {
							c.Fail("axis %v keep %v cells=%d: %s", ax, keep, cells, p)
						}
						v := volume(m)
						if v < -1e-12 || cells >= 8 && !(v > 0) {
							c.Fail("axis %v keep %v cells=%d: volume %v", ax, keep, cells, v)
						}
						c.Eval(1)
						c.ObsF(v)
					}
				}
			}
		})
	})
	eachMesh(t, func(c *Case, s named3, m fn3, cells int, mesh []r3.Triangle) {
		l := latticeOf(m.bb, cells)
		if p := closed(mesh, l.cell); p != "" {
			c.Fail("cells=%d: %s", cells, p)
		}
		v := volume(mesh)
		if len(mesh) > 0 && !(v > 0) {
			c.Fail("cells=%d: volume %v", cells, v)
		}
		for _, tr := range mesh {
			n := r3.Cross(r3.Sub(tr[1], tr[0]), r3.Sub(tr[2], tr[0]))
			if r3.Norm(n) < 0.1*l.cell*l.cell || cells < 8 {
				continue // slivers, coarse meshes
			}
			if s.name != "sphere1" && s.name != "sphere.off" && s.name != "must3.Sphere" && s.name != "box" {
				continue
			}
			u := r3.Scale(0.3*l.cell, r3.Unit(n))
			p := centroid(tr)
			if m.f(r3.Add(p, u)) <= m.f(r3.Sub(p, u)) {
				c.Fail("cells=%d: triangle %v faces the inside", cells, tr)
			}
		}
		c.Eval(1)
		c.ObsF(v)
	})
}

func runC06(t *T) {
	eachMesh(t, func(c *Case, s named3, m fn3, cells int, mesh []r3.Triangle) {
		l := latticeOf(m.bb, cells)
		check := func(bound float64, f func(r3.Vec) float64, what string) {
			for _, tr := range mesh {
				for _, p := range tr {
					if d := f(p); !(math.Abs(d) <= bound) {
						c.Fail("cells=%d: vertex %v is at distance %v of the %s (cell %v)", cells, p, d, what, l.cell)
					}
				}
			}
		}
		check(l.cell*(0.5+1e-9), m.f, "surface")
		if r, ok := map[string]float64{"sphere1": 1, "sphere.off": 1.3, "must3.Sphere": 1}[s.name]; ok && r > 2*l.cell {
			check(l.cell*l.cell/(4*(r-l.cell))+1e-9, m.f, "sphere")
			v0 := 4 * math.Pi / 3 * r * r * r
			if v := volume(mesh); math.Abs(v-v0) > 4*math.Pi*r*r*l.cell*l.cell/(2*(r-l.cell)) {
				c.Fail("cells=%d: volume %v, want %v", cells, v, v0)
			}
		}
		for _, tr := range mesh {
			q := l.cellOf(centroid(tr))
			lo, hi := l.corner(q[0], q[1], q[2]), l.corner(q[0]+1, q[1]+1, q[2]+1)
			e := 1e-9 * (1 + l.cell)
			for _, p := range tr {
				if p.X < lo.X-e || p.Y < lo.Y-e || p.Z < lo.Z-e || p.X > hi.X+e || p.Y > hi.Y+e || p.Z > hi.Z+e {
					c.Fail("cells=%d: triangle %v reaches out of one cell of side %v", cells, tr, l.cell)
				}
			}
		}
		c.Eval(len(mesh))
		c.ObsF(volume(mesh))
	})
	// Planes are reproduced exactly.
	ds := dirs()
	t.Par(len(ds), func(i int) {
		t.Case(fmt.Sprintf("half space %v", ds[i]), func(c *Case) {
			u := r3.Unit(ds[i])
			for cells := 2; cells <= t.N(10, 20); cells++ {
				for _, k := range []float64{1, 1e-6, 1e-3, 1e3, 1e9} {
					for _, off := range []float64{-0.613, -0.25, 0, 0.1, 0.377, 0.7} {
						off := off * k
						s := fn3{func(p r3.Vec) float64 { return r3.Dot(p, u) - off }, box3(v3(0, 0, 0), k, 1.2*k, 0.8*k)}
						mesh := octree(c, s, cells)
						for _, tr := range mesh {
							for _, p := range tr {
								if d := s.f(p); math.Abs(d) > 1e-9*k+2e-12 {
									c.Fail("cells=%d offset=%v scale=%v: vertex %v is at distance %v of the plane", cells, off, k, p, d)
								}
							}
							if n := tr.Normal(); k >= 1e-3 && r3.Norm(n) > 1e-6*k*k && r3.Dot(r3.Unit(n), u) < 1-1e-6 {
								c.Fail("cells=%d offset=%v scale=%v: triangle %v does not face %v", cells, off, k, tr, u)
							}
						}
						c.Eval(1)
						c.Obs(len(mesh))
					}
				}
			}
		})
	})
	t.Par(16, func(i int) {
		cells := []int{16, 24, 33, 40}[i%4]
		k := []float64{1, 1e-6, 1e-3, 1e6}[i/4]
		t.Case(fmt.Sprintf("ball of %d cells and radius %v", cells, k), func(c *Case) {
			s := mSphere(r3.Scale(k, v3(0.1, 0.2, -0.3)), k)
			m := octree(c, s, cells)
			h := latticeOf(s.bb, cells).cell / k
			for _, tr := range m {
				for _, p := range tr {
					if d := s.f(p) / k; math.Abs(d) > h*h/(4*(1-h))+1e-5 {
						c.Fail("vertex %v is at distance %v radii of the sphere", p, d)
					}
				}
			}
			if v, v0 := volume(m)/k/k/k, 4*math.Pi/3; math.Abs(v-v0) > 4*math.Pi*h*h {
				c.Fail("volume %v, want %v", v, v0)
			}
			area := 0.0
			for _, tr := range m {
				area += tr.Area() / k / k
			}
			if math.Abs(area-4*math.Pi) > 40*h*h {
				c.Fail("area %v, want %v", area, 4*math.Pi)
			}
			c.ObsF(area)
		})
	})
}
