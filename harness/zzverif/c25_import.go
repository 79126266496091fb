package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	const bound = "all polycubes of a 2x2x2 block and of a 3x3x1 block (thorough: 3x2x2), those of cubes which touch at edges or vertices only included, some of a 3x3x3 block with cavities and tunnels, with faces split along either diagonal or in four, 6 placements (rotations, negative coordinates, scales from 1/1000 to 1000, 1e7 away), 4 vertex tolerances; ellipsoids, stars and tori of 12 to 5040 triangles; all tetrahedra on a lattice of 12 points and pairs of them which share an edge or a vertex; 11^3 (15^3) points around the mesh, and 39 up to 3e5 times its size away"
	const rule = "a case is a closed mesh, the imported shape is compared at every point with the exact signed distance computed from the faces and the cells; distinct by the values"
	register("C25", "exploration", bound, rule, func(t *T) {
		runImport(t, func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModel(m, tol) })
	})
	register("C26", "exploration", bound, rule, func(t *T) {
		runImport(t, func(m []r3.Triangle, tol float64) (sdf.SDF3, error) {
			s, err := sdfexp.ImportModelV2(m, tol)
			if err != nil {
				return nil, err
			}
			return s, nil
		})
	})
}

// cells is a set of unit cells of a block, by bits.
type cells struct {
	n    [3]int
	bits uint
}

func (b cells) has(i, j, k int) bool {
	if i < 0 || j < 0 || k < 0 || i >= b.n[0] || j >= b.n[1] || k >= b.n[2] {
		return false
	}
	return b.bits>>uint(i+b.n[0]*(j+b.n[1]*k))&1 != 0
}

// each calls f for every cell in the set.
func (b cells) each(f func(c [3]int)) {
	for k := 0; k < b.n[2]; k++ {
		for j := 0; j < b.n[1]; j++ {
			for i := 0; i < b.n[0]; i++ {
				if b.has(i, j, k) {
					f([3]int{i, j, k})
				}
			}
		}
	}
}

// faces lists the boundary squares by their corners, counterclockwise from outside.
func (b cells) faces() (out [][4][3]int) {
	b.each(func(c [3]int) {
		for ax := 0; ax < 3; ax++ {
			for s := 0; s < 2; s++ {
				d := c
				d[ax] += 2*s - 1
				if b.has(d[0], d[1], d[2]) {
					continue
				}
				u, v := (ax+1)%3, (ax+2)%3
				o := c
				o[ax] += s
				var q [4][3]int
				for i, st := range [4][2]int{{0, 0}, {1, 0}, {1, 1}, {0, 1}} {
					if s == 0 {
						st[0], st[1] = st[1], st[0]
					}
					q[i] = o
					q[i][u] += st[0]
					q[i][v] += st[1]
				}
				out = append(out, q)
			}
		}
	})
	return out
}

// triangulate splits the faces: along one diagonal (0), the other (1), alternating (2), around the center (3).
func triangulate(faces [][4][3]int, how int) (out []r3.Triangle) {
	p := func(c [3]int) r3.Vec { return v3(float64(c[0]), float64(c[1]), float64(c[2])) }
	for i, q := range faces {
		a, b, c, d := p(q[0]), p(q[1]), p(q[2]), p(q[3])
		switch {
		case how == 3:
			m := r3.Scale(0.5, r3.Add(a, c))
			out = append(out, r3.Triangle{a, b, m}, r3.Triangle{b, c, m}, r3.Triangle{m, c, d}, r3.Triangle{d, a, m})
		case how == 0 || (how == 2 && i%2 == 0):
			out = append(out, r3.Triangle{a, b, c}, r3.Triangle{c, d, a})
		default:
			out = append(out, r3.Triangle{d, a, b}, r3.Triangle{b, c, d})
		}
	}
	return out
}

// dist is the exact signed distance to the cells.
func (b cells) dist(faces [][4][3]int, p r3.Vec) float64 {
	best := math.Inf(1)
	x := [3]float64{p.X, p.Y, p.Z}
	for _, q := range faces {
		d := 0.0
		for k := 0; k < 3; k++ {
			lo, hi := float64(q[0][k]), float64(q[0][k])
			for i := 1; i < 4; i++ {
				lo, hi = math.Min(lo, float64(q[i][k])), math.Max(hi, float64(q[i][k]))
			}
			e := math.Max(math.Max(lo-x[k], x[k]-hi), 0)
			d += e * e
		}
		best = math.Min(best, d)
	}
	best = math.Sqrt(best)
	in := false
	b.each(func(c [3]int) {
		if x[0] > float64(c[0]) && x[0] < float64(c[0]+1) && x[1] > float64(c[1]) && x[1] < float64(c[1]+1) && x[2] > float64(c[2]) && x[2] < float64(c[2]+1) {
			in = true
		}
	})
	// a face between two cells of the set is not on the boundary
	if !in && best > 1e-9 {
		in = true
		for k := 0; k < 8 && in; k++ {
			e := [3]float64{1e-10, 1e-10, 1e-10}
			for j := range e {
				if k>>uint(j)&1 != 0 {
					e[j] = -e[j]
				}
			}
			in = b.has(int(math.Floor(x[0]+e[0])), int(math.Floor(x[1]+e[1])), int(math.Floor(x[2]+e[2])))
		}
	}
	if in {
		return -best
	}
	return best
}

// triDist is the distance to a triangle: to its plane over its inside, to its nearest edge elsewhere.
func triDist(t r3.Triangle, p r3.Vec) float64 {
	n := r3.Unit(r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])))
	over, best := true, math.Inf(1)
	for i := range t {
		a, b := t[i], t[(i+1)%3]
		e := r3.Sub(b, a)
		if r3.Dot(r3.Cross(e, r3.Sub(p, a)), n) < 0 {
			over = false
		}
		s := math.Max(0, math.Min(1, r3.Dot(e, r3.Sub(p, a))/r3.Dot(e, e)))
		best = math.Min(best, r3.Norm(r3.Sub(p, r3.Add(a, r3.Scale(s, e)))))
	}
	if over {
		return math.Abs(r3.Dot(n, r3.Sub(p, t[0])))
	}
	return best
}

type placement struct {
	scale float64
	m     affine // rigid
}

func (pl placement) at(p r3.Vec) r3.Vec { return r3.Scale(pl.scale, pl.m.apply(p)) }

func placementsOf() []placement {
	rot := affRot(v3(1, 2, 3), 0.7)
	return []placement{
		{1, affId()},
		{1, affTrans(-1.3, -0.6, -2.1)},
		{2.5, rot},
		{1e-3, affTrans(-0.5, 0.25, -3).after(affRot(v3(0, 0, 1), 0.3))},
		{1e3, affTrans(5, -7, 11).after(affRot(v3(-1, 0.2, 0.5), 2))},
		{1, affTrans(3.3e6, -7.7e6, 5.1e6).after(rot)}, // far away
	}
}

// insideMesh sums the solid angles of the triangles seen from p.
func insideMesh(m []r3.Triangle, p r3.Vec) bool {
	sum := 0.0
	for _, t := range m {
		a, b, c := r3.Sub(t[0], p), r3.Sub(t[1], p), r3.Sub(t[2], p)
		x, y, z := r3.Norm(a), r3.Norm(b), r3.Norm(c)
		sum += 2 * math.Atan2(r3.Dot(a, r3.Cross(b, c)), x*y*z+r3.Dot(a, b)*z+r3.Dot(b, c)*x+r3.Dot(c, a)*y)
	}
	return sum > 2*math.Pi
}

// grid closes an n by m grid of points in the second direction, and in the first too (torus),
// or with fans to the poles.
func gridMesh(n, m int, at func(i, j int) r3.Vec, poles []r3.Vec) (out []r3.Triangle) {
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			i1, j1 := (i+1)%n, (j+1)%m
			if poles == nil || i+1 < n {
				a, b, c, d := at(i, j), at(i, j1), at(i1, j1), at(i1, j)
				if (i+j)%2 == 0 {
					out = append(out, r3.Triangle{a, b, c}, r3.Triangle{c, d, a})
				} else {
					out = append(out, r3.Triangle{a, b, d}, r3.Triangle{b, c, d})
				}
			}
			if poles != nil && i == 0 {
				out = append(out, r3.Triangle{poles[0], at(0, j1), at(0, j)})
			}
			if poles != nil && i == n-1 {
				out = append(out, r3.Triangle{poles[1], at(i, j), at(i, j1)})
			}
		}
	}
	return out
}

type namedMesh struct {
	name   string
	m      []r3.Triangle
	lo, hi r3.Vec
}

// largeMeshes are closed surfaces of more triangles, smooth, slender and sharp.
func largeMeshes(deep bool) (out []namedMesh) {
	add := func(name string, m []r3.Triangle) {
		lo, hi := m[0][0], m[0][0]
		vol := 0.0
		for _, t := range m {
			vol += r3.Dot(t[0], r3.Cross(t[1], t[2]))
			for _, p := range t {
				lo = v3(math.Min(lo.X, p.X), math.Min(lo.Y, p.Y), math.Min(lo.Z, p.Z))
				hi = v3(math.Max(hi.X, p.X), math.Max(hi.Y, p.Y), math.Max(hi.Z, p.Z))
			}
		}
		if !(vol > 0) {
			panic("harness: " + name + " is inside out")
		}
		out = append(out, namedMesh{name, m, lo, hi})
	}
	sizes := [][2]int{{2, 3}, {3, 7}, {5, 8}, {11, 16}, {15, 36}}
	if deep {
		sizes = append(sizes, [2]int{31, 64}, [2]int{40, 20})
	}
	torus := func(n, m int) {
		add(fmt.Sprintf("torus of %dx%d", n, m), gridMesh(m, n, func(j, i int) r3.Vec {
			a, b := 2*math.Pi*float64(i)/float64(n), 2*math.Pi*float64(j)/float64(m)
			r := 1 + 0.4*math.Cos(a)
			return v3(r*math.Cos(-b), r*math.Sin(-b), 0.4*math.Sin(a))
		}, nil))
	}
	torus(30, 84)
	for _, nm := range sizes {
		n, m := nm[0], nm[1]
		for _, r := range []r3.Vec{v3(1, 1, 1), v3(1, 0.7, 0.4), v3(0.02, 1, 0.03), v3(3, 0.1, 3)} {
			add(fmt.Sprintf("ellipsoid %v of %dx%d", r, n, m), gridMesh(n, m, func(i, j int) r3.Vec {
				a, b := math.Pi*float64(i+1)/float64(n+1)-math.Pi/2, 2*math.Pi*float64(j)/float64(m)
				return v3(r.X*math.Cos(a)*math.Cos(b), r.Y*math.Cos(a)*math.Sin(b), r.Z*math.Sin(a))
			}, []r3.Vec{v3(0, 0, -r.Z), v3(0, 0, r.Z)}))
		}
		// a star with sharp edges all around
		add(fmt.Sprintf("star of %dx%d", n, m), gridMesh(n, 2*m, func(i, j int) r3.Vec {
			b := math.Pi * float64(j) / float64(m)
			r := 1 - 0.6*float64(j%2) + 0.1*float64(i%2)
			return v3(r*math.Cos(b), r*math.Sin(b), float64(i)-1)
		}, []r3.Vec{v3(0, 0, -1.5), v3(0, 0, float64(n)+0.5)}))
		if n > 2 {
			torus(n, m)
		}
	}
	// needles: bipyramids on convex and reentrant polygons, two vertices of which nearly coincide
	for _, eps := range []float64{1e-3, 1e-5, 1e-7, 2e-8, 1e-8, 6e-9, 3e-9} {
		for rot := 0; rot < 16; rot++ {
			for _, in := range []float64{1, 0.3} {
				var ring []r3.Vec
				for i := 0; i < 6; i++ {
					r, a := 1.0, 0.37*float64(rot)+float64(i)*math.Pi/3
					if i%2 == 1 {
						r = in
					}
					ring = append(ring, v3(r*math.Cos(a), r*math.Sin(a), 0))
					if i == rot%3 {
						ring = append(ring, v3(r*math.Cos(a+eps), r*math.Sin(a+eps), 0))
					}
				}
				top, bot := v3(0.1, 0.07, 1), v3(0.1, 0.05, -1)
				if rot%8 >= 3 {
					top.Z, bot.Z = -1.2, -4
				}
				var m []r3.Triangle
				for i, p := range ring {
					q := ring[(i+1)%len(ring)]
					m = append(m, r3.Triangle{p, q, top}, r3.Triangle{q, p, bot})
				}
				add(fmt.Sprintf("bipyramid with vertices %v apart, rot=%d, inner radius %v", eps, rot, in), m)
			}
		}
	}
	return out
}

type importer func(m []r3.Triangle, tol float64) (sdf.SDF3, error)

func checkImport(c *Case, load importer, local []r3.Triangle, pl placement, tol float64, lo, hi r3.Vec, n int, want func(p r3.Vec) float64) {
	mesh := make([]r3.Triangle, len(local))
	var bb r3.Box
	for i := range local {
		for j := range local[i] {
			mesh[i][j] = pl.at(local[i][j])
			v := mesh[i][j]
			if i+j == 0 {
				bb = r3.Box{Min: v, Max: v}
			}
			bb.Min = v3(math.Min(bb.Min.X, v.X), math.Min(bb.Min.Y, v.Y), math.Min(bb.Min.Z, v.Z))
			bb.Max = v3(math.Max(bb.Max.X, v.X), math.Max(bb.Max.Y, v.Y), math.Max(bb.Max.Z, v.Z))
		}
	}
	arg := append([]r3.Triangle(nil), mesh...)
	s, err := load(arg, tol*pl.scale)
	if err != nil {
		c.Fail("%v", err)
	}
	for i := range mesh {
		if arg[i] != mesh[i] {
			c.Fail("the triangles passed were changed")
		}
	}
	if b := s.Bounds(); b != bb {
		c.Fail("bounds %v, want %v", b, bb)
	}
	sz := r3.Sub(hi, lo)
	var pts []r3.Vec
	for _, g := range grid3(n, 1) {
		pts = append(pts, v3(lo.X+sz.X*(0.5+0.9*g.X), lo.Y+sz.Y*(0.5+0.9*g.Y), lo.Z+sz.Z*(0.5+0.9*g.Z)))
	}
	m, e := r3.Scale(0.5, r3.Add(lo, hi)), math.Max(sz.X, math.Max(sz.Y, sz.Z))
	for _, q := range far3() {
		pts = append(pts, r3.Add(m, r3.Scale(e, q)))
	}
	if len(local) < 40 {
		// all around every vertex
		for _, t := range local {
			for _, v := range t {
				for _, g := range grid3(3, 0.07) {
					pts = append(pts, r3.Add(v, g))
				}
			}
		}
	}
	if len(local) >= 300 {
		// close to a vertex, an edge or the middle of every triangle
		for i, t := range local {
			e := r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0]))
			e = r3.Scale(0.05/math.Sqrt(r3.Norm(e)), e)
			on := t[i%7%3]
			if i%7 == 6 {
				on = r3.Scale(1./3, r3.Add(t[0], r3.Add(t[1], t[2])))
			} else if i%7 > 2 {
				on = r3.Scale(0.5, r3.Add(on, t[(i%7+1)%3]))
			}
			pts = append(pts, r3.Add(on, e), r3.Sub(on, e))
		}
	}
	for _, p := range pts {
		got, w := s.Evaluate(pl.at(p))/pl.scale, want(p)
		c.ObsF(math.Round(got * 1e6))
		if !near(math.Abs(got), math.Abs(w), 1e-7) || (math.Abs(w) > 1e-6 && (got < 0) != (w < 0)) {
			c.Fail("value %v at %v (%v in the mesh), want %v", got*pl.scale, pl.at(p), p, w*pl.scale)
		}
	}
	c.Eval(len(pts))
}

// tetFaces are the faces of a tetrahedron.
func tetFaces(q [4]r3.Vec, rot int) (m []r3.Triangle) {
	for _, f := range [4][3]int{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}} {
		m = append(m, r3.Triangle{q[f[rot]], q[f[(rot+1)%3]], q[f[(rot+2)%3]]})
	}
	return m
}

// apart tells whether some plane separates the tetrahedra and has nothing of either but their common vertices.
func apart(a, b [4]r3.Vec, common int) bool {
	side := func(n r3.Vec) bool {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, p := range a {
			hi = math.Max(hi, r3.Dot(n, p))
		}
		for _, p := range b {
			lo = math.Min(lo, r3.Dot(n, p))
		}
		if lo < hi-1e-9 {
			return false
		}
		on := 0
		for _, p := range append(append([]r3.Vec(nil), a[:]...), b[:]...) {
			if math.Abs(r3.Dot(n, p)-hi) < 1e-9 {
				on++
			}
		}
		return on == 2*common
	}
	for _, x := range grid3(9, 1) {
		if r3.Norm(x) > 0 && side(x) {
			return true
		}
	}
	return false
}

func runImport(t *T, load importer) {
	n := t.N(11, 15)
	var sets []cells
	blocks := [][3]int{{2, 2, 2}, {3, 3, 1}}
	if !t.quick {
		blocks = append(blocks, [3]int{3, 2, 2})
	}
	for _, b := range blocks {
		for bits := uint(1); bits < 1<<uint(b[0]*b[1]*b[2]); bits++ {
			s := cells{b, bits}
			if len(s.faces()) > 0 {
				sets = append(sets, s)
			}
		}
	}
	for _, f := range []func(i, j, k int) bool{
		func(i, j, k int) bool { return i != 1 || j != 1 || k != 1 },                   // a cavity
		func(i, j, k int) bool { return i != 1 || j != 1 },                             // a tunnel
		func(i, j, k int) bool { return (i+j+k)%2 == 0 },                               // a chessboard
		func(i, j, k int) bool { return (i == 1) == (j == 1) || (i == 1) == (k == 1) }, // tunnels which meet
		func(i, j, k int) bool { return i == j && j == k },                             // a chain
		func(i, j, k int) bool { return (i != 1 || j != 1 || k != 1) && i+j+k != 0 },
	} {
		s := cells{n: [3]int{3, 3, 3}}
		for b := 0; b < 27; b++ {
			if f(b%3, b/3%3, b/9) {
				s.bits |= 1 << uint(b)
			}
		}
		sets = append(sets, s)
	}
	t.note("%d polycubes", len(sets))
	pls := placementsOf()
	tols := []float64{0, 1e-3, 1e-2, 0.2}
	t.Par(len(sets)*len(pls), func(i int) {
		s, pl := sets[i/len(pls)], i%len(pls)
		faces := s.faces()
		for how := 0; how < 4; how++ {
			// all tolerances in turn
			tol := tols[(i+how+i/len(pls))%4]
			t.Case(fmt.Sprintf("cells %v %x split=%d placement=%d tol=%v", s.n, s.bits, how, pl, tol), func(c *Case) {
				checkImport(c, load, triangulate(faces, how), pls[pl], tol, v3(0, 0, 0), v3(float64(s.n[0]), float64(s.n[1]), float64(s.n[2])), n,
					func(p r3.Vec) float64 { return s.dist(faces, p) })
			})
		}
	})
	large := largeMeshes(!t.quick)
	t.Par(len(large)*len(pls), func(i int) {
		l, pl := large[i/len(pls)], i%len(pls)
		if len(l.m) > 3000 && t.quick && pl != 2 {
			return
		}
		if pl == 5 && strings.HasPrefix(l.name, "bipyramid") && !strings.Contains(l.name, "0.001 apart") {
			return // rounding moves the vertices by more than they are apart
		}
		t.Case(fmt.Sprintf("%s placement=%d", l.name, pl), func(c *Case) {
			k := 9
			if len(l.m) > 400 {
				k = t.N(5, 7)
			}
			e := v3(0.21, 0.2, 0.19)
			checkImport(c, load, l.m, pls[pl], 0, r3.Sub(l.lo, e), r3.Add(l.hi, e), k, func(p r3.Vec) float64 {
				d := math.Inf(1)
				for _, tri := range l.m {
					d = math.Min(d, triDist(tri, p))
				}
				if insideMesh(l.m, p) {
					return -d
				}
				return d
			})
		})
	})
	// tetrahedra, with acute and obtuse edges
	var pts []r3.Vec
	for _, z := range []float64{0, 1, 1.5} {
		pts = append(pts, v3(0, 0, z), v3(1, 0, z), v3(0, 1, -z), v3(2, 2, z))
	}
	var tets [][4]r3.Vec
	for a := range pts {
		for b := a + 1; b < len(pts); b++ {
			for cc := b + 1; cc < len(pts); cc++ {
				for d := cc + 1; d < len(pts); d++ {
					q := [4]r3.Vec{pts[a], pts[b], pts[cc], pts[d]}
					vol := r3.Dot(r3.Cross(r3.Sub(q[1], q[0]), r3.Sub(q[2], q[0])), r3.Sub(q[3], q[0]))
					if math.Abs(vol) < 0.1 {
						continue
					}
					if vol < 0 {
						q[0], q[1] = q[1], q[0]
					}
					tets = append(tets, q)
				}
			}
		}
	}
	t.note("%d tetrahedra", len(tets))
	// pairs of tetrahedra which share an edge or a vertex and nothing else
	shared := func(a, b [4]r3.Vec) (n int) {
		for _, p := range a {
			for _, q := range b {
				if p == q {
					n++
				}
			}
		}
		return n
	}
	var pairs [][2][4]r3.Vec
	for i, a := range tets {
		for _, b := range tets[:i] {
			if n := shared(a, b); (n == 1 || n == 2) && apart(a, b, n) {
				pairs = append(pairs, [2][4]r3.Vec{a, b})
			}
		}
	}
	t.note("%d pairs of tetrahedra", len(pairs))
	t.Par(len(pairs), func(i int) {
		pl, rot := i%len(pls), i/len(pls)%6
		t.Case(fmt.Sprintf("tetrahedra %v rot=%d placement=%d", pairs[i], rot, pl), func(c *Case) {
			var m []r3.Triangle
			for k := 0; k < 2; k++ {
				m = append(m, tetFaces(pairs[i][(k+rot)%2], rot%3)...)
			}
			checkImport(c, load, m, pls[pl], 0, v3(-0.5, -0.5, -1.5), v3(2, 2, 1.5), t.N(5, 9), func(p r3.Vec) float64 {
				d, in := math.Inf(1), false
				for k := 0; k < 8; k += 4 {
					inside := true
					for _, tri := range m[k : k+4] {
						d = math.Min(d, triDist(tri, p))
						if r3.Dot(r3.Cross(r3.Sub(tri[1], tri[0]), r3.Sub(tri[2], tri[0])), r3.Sub(p, tri[0])) > 0 {
							inside = false
						}
					}
					in = in || inside
				}
				if in {
					return -d
				}
				return d
			})
		})
	})
	t.Par(len(tets), func(i int) {
		q := tets[i]
		for rot := 0; rot < 3; rot++ {
			pl := (i + rot) % len(pls)
			t.Case(fmt.Sprintf("tetrahedron %v rot=%d placement=%d", q, rot, pl), func(c *Case) {
				m := tetFaces(q, rot)
				checkImport(c, load, m, pls[pl], 0, v3(-0.5, -0.5, -1.5), v3(2, 2, 1.5), n, func(p r3.Vec) float64 {
					d, in := math.Inf(1), true
					for _, tri := range m {
						d = math.Min(d, triDist(tri, p))
						if r3.Dot(r3.Cross(r3.Sub(tri[1], tri[0]), r3.Sub(tri[2], tri[0])), r3.Sub(p, tri[0])) > 0 {
							in = false
						}
					}
					if in {
						return -d
					}
					return d
				})
			})
		}
	})
}
