package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C35", "exploration",
		"18 solids, 6 (12) numbers of cells from 12 to 47 (96), 6 (27) placements, one of them 9e6 away, both importers, 3 vertex tolerances; lattices of 13^3 points in a box 1.6 times the bounds, and the points of that lattice moved onto the surface by the solid's own distance",
		"a case is a solid, its placement and a resolution; the imported model is compared with the solid at every lattice point; distinct by the values", runC35)
}

// roundTrip imports the mesh of a solid and compares values with those of the solid.
func roundTrip(c *Case, m fn3, n int, exact bool, tol float64) {
	mesh, err := render.RenderAll(render.NewOctreeRenderer(m, n))
	if err != nil {
		c.Fail("%v", err)
	}
	h := latticeOf(m.bb, n).cell
	ctr, sz := r3.Scale(0.5, r3.Add(m.bb.Min, m.bb.Max)), r3.Sub(m.bb.Max, m.bb.Min)
	var pts []r3.Vec
	for _, g := range grid3(13, 0.8) {
		p := v3(ctr.X+g.X*sz.X, ctr.Y+g.Y*sz.Y, ctr.Z+g.Z*sz.Z)
		pts = append(pts, p)
		if d, e := m.f(p), 1e-5*h; math.Abs(d) < 3*h {
			// towards the surface
			g := v3(m.f(v3(p.X+e, p.Y, p.Z))-m.f(v3(p.X-e, p.Y, p.Z)), m.f(v3(p.X, p.Y+e, p.Z))-m.f(v3(p.X, p.Y-e, p.Z)), m.f(v3(p.X, p.Y, p.Z+e))-m.f(v3(p.X, p.Y, p.Z-e)))
			if r3.Norm(g) > e {
				pts = append(pts, r3.Sub(p, r3.Scale(d, r3.Unit(g))))
			}
		}
	}
	diag := math.Sqrt(3) * h
	for v, load := range []importer{
		func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModel(m, tol) },
		func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModelV2(m, tol) },
	} {
		name := [2]string{"ImportModel", "ImportModelV2"}[v]
		s, err := load(mesh, tol*h)
		if err != nil {
			c.Fail("%s: %v", name, err)
		}
		for _, p := range pts {
			got, want := s.Evaluate(p), m.f(p)
			c.ObsF(math.Round(got / h * 1e6))
			if (want > diag && !(got > want-diag)) || (want < -diag && !(got < want+diag)) {
				c.Fail("%s of the mesh of %d triangles (cells of %v): %v at %v, %v in the solid", name, len(mesh), h, got, p, want)
			}
			if !(math.Abs(got-want) <= diag) && exact {
				c.Fail("%s of the mesh of %d triangles (cells of %v): %v at %v, the distance to the solid is %v", name, len(mesh), h, got, p, want)
			}
		}
		c.Eval(len(pts))
	}
}

func runC35(t *T) {
	all := append(solids(), repoSolids()...)
	cells := []int{12, 15, 20, 24, 31, 47}
	pl := placements()[:6]
	if !t.quick {
		cells = append(cells, 13, 17, 33, 40, 64, 96)
		pl = placements()
	}
	// distances which are bounds only
	bound := map[string]bool{"bulge": true, "corner": true, "diff": true, "drilled": true, "extrude": true, "union": true}
	t.Par(len(all)*len(cells), func(i int) {
		sh, n := all[i/len(cells)], cells[i%len(cells)]
		for k, d := range pl {
			m := placed(sh, n, d)
			if k == 5 {
				m = placed(moved(sh, v3(5e6, -3e6, 7e6)), n, d)
			}
			t.Case(fmt.Sprintf("%s cells=%d placement=%d", sh.name, n, k), func(c *Case) {
				roundTrip(c, m, n, !bound[sh.name], []float64{1e-9, 0, 1e-7, 1e-9, 0, 1e-6}[k%6])
			})
		}
	})
}
