package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"gonum.org/v1/gonum/spatial/r2"
)

func init() {
	register("C21", "exploration",
		"every simple polygon with its vertices on a 3x3 lattice (3x3 and 4x3 up to 8 vertices in the thorough tier), from every start in both directions, with and without repeated vertices, all closed sequences of up to 5 (6) lattice points which may cross themselves, 25 irregular ones of 5 to 1001 vertices, in 4 scales and offsets, on lattices of 25x25 points which include the vertices, the edges and the lines through them",
		"a case is a first edge or an irregular polygon; each polygon is compared with the distance to the nearest edge and the parity of crossings; distinct by the values", runC21)
	register("C22", "model_checking",
		"all builder programs over 3 and 4 (thorough 5) vertices: 23 roundings, chamfers and arcs of up to 150 facets at each vertex, 4 ways of giving the coordinates, open and closed, reversed, with dropped vertices, in 3 scales",
		"a state is a builder program; the model is a list of points with the arcs and roundings constructed independently; distinct by the vertices returned", runC22)
}

func orient(a, b, c r2.Vec) float64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }

func onSeg(a, b, p r2.Vec) bool {
	return orient(a, b, p) == 0 && p.X >= math.Min(a.X, b.X) && p.X <= math.Max(a.X, b.X) && p.Y >= math.Min(a.Y, b.Y) && p.Y <= math.Max(a.Y, b.Y)
}

// touch reports whether the closed segments a-b and c-d have a point in common. Exact for small integers.
func touch(a, b, c, d r2.Vec) bool {
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return true
	}
	s := func(x float64) int {
		if x > 0 {
			return 1
		} else if x < 0 {
			return -1
		}
		return 0
	}
	return s(orient(a, b, c))*s(orient(a, b, d)) < 0 && s(orient(c, d, a))*s(orient(c, d, b)) < 0
}

// simplePolygons enumerates all simple polygons over the points which start with the edge i-j.
func simplePolygons(pts []r2.Vec, i, j, max int, visit func(v []r2.Vec)) {
	used := make([]bool, len(pts))
	used[i], used[j] = true, true
	path := []r2.Vec{pts[i], pts[j]}
	ok := func(a, b r2.Vec, from int) bool { // the edge a-b, b new; path[from..] without the last vertex a
		n := len(path)
		if onSeg(path[n-2], a, b) || onSeg(a, b, path[n-2]) {
			return false // doubles back
		}
		for k := from; k+2 < n; k++ {
			if touch(path[k], path[k+1], a, b) {
				return false
			}
		}
		return true
	}
	var rec func()
	rec = func() {
		n := len(path)
		a := path[n-1]
		if n >= 3 && ok(a, path[0], 1) {
			// the closing edge may not double back on the first one either
			if !onSeg(a, path[0], path[1]) && !onSeg(path[0], path[1], a) {
				area := 0.0
				for k := 1; k+1 < n; k++ {
					area += orient(path[0], path[k], path[k+1])
				}
				if area != 0 {
					visit(path)
				}
			}
		}
		if n == max {
			return
		}
		for k := range pts {
			if used[k] || !ok(a, pts[k], 0) {
				continue
			}
			used[k] = true
			path = append(path, pts[k])
			rec()
			path = path[:n]
			used[k] = false
		}
	}
	rec()
}

func checkPolygon(c *Case, v []r2.Vec, points []r2.Vec) {
	arg := append([]r2.Vec(nil), v...)
	s := must2.Polygon(arg)
	for i := range arg {
		if arg[i] != v[i] {
			c.Fail("Polygon(%v) changed its argument to %v", v, arg)
		}
	}
	lo, hi := v[0], v[0]
	for _, p := range v {
		lo, hi = v2(math.Min(lo.X, p.X), math.Min(lo.Y, p.Y)), v2(math.Max(hi.X, p.X), math.Max(hi.Y, p.Y))
	}
	if b := s.Bounds(); b.Min != lo || b.Max != hi {
		c.Fail("Polygon(%v) has bounds %v", v, b)
	}
	// rounding of coordinates
	eps := 1e-9 + 1e-12*math.Max(math.Max(-lo.X, -lo.Y), math.Max(hi.X, hi.Y))
	for _, p := range points {
		a, b := s.Evaluate(p), polyDist(v, p)
		if !(math.Abs(math.Abs(a)-math.Abs(b)) <= eps+1e-9*math.Abs(b)) || (math.Abs(b) > eps && (a < 0) != (b < 0)) {
			c.Fail("Polygon(%v) is %v at %v, want %v", v, a, p, b)
		}
		c.ObsF(a)
	}
	c.Eval(1)
}

// checkWinding compares a polygon which may cross itself with its winding number.
func checkWinding(c *Case, v []r2.Vec, points []r2.Vec) {
	s := must2.Polygon(v)
	for _, p := range points {
		turns, d := 0.0, math.Inf(1)
		for i := range v {
			a, b := r2.Sub(v[i], p), r2.Sub(v[(i+1)%len(v)], p)
			turns += math.Atan2(a.X*b.Y-a.Y*b.X, a.X*b.X+a.Y*b.Y)
			d = math.Min(d, segDist(v[i], v[(i+1)%len(v)], p))
		}
		if d < 1e-9 {
			continue
		}
		if math.Abs(turns) > 1 {
			d = -d
		}
		if got := s.Evaluate(p); !near(got, d, 1e-9) {
			c.Fail("Polygon(%v) is %v at %v, want %v", v, got, p, d)
		}
	}
	c.ObsF(s.Evaluate(points[7]))
	c.Eval(1)
}

func latticePts(nx, ny int) (out []r2.Vec) {
	for y := 0; y < ny; y++ {
		for x := 0; x < nx; x++ {
			out = append(out, v2(float64(x), float64(y)))
		}
	}
	return out
}

func runC21(t *T) {
	type lat struct{ nx, ny, max int }
	ls := []lat{{3, 3, 9}}
	if !t.quick {
		ls = append(ls, lat{4, 3, 8})
	}
	for _, l := range ls {
		pts := latticePts(l.nx, l.ny)
		var probe []r2.Vec
		n := 12
		for i := -2; i <= n+2; i++ {
			for j := -2; j <= n+2; j++ {
				probe = append(probe, v2(float64(i)*float64(l.nx-1)/float64(n), float64(j)*float64(l.ny-1)/float64(n)))
			}
		}
		if l.nx > 3 {
			probe = probe[:0]
			for i := -1; i <= 13; i++ {
				for j := -1; j <= 9; j++ {
					probe = append(probe, v2(float64(i)/4, float64(j)/4))
				}
			}
		}
		t.Par(len(pts)*len(pts), func(k int) {
			i, j := k/len(pts), k%len(pts)
			if i == j {
				return
			}
			t.Case(fmt.Sprintf("%dx%d polygons from %v %v", l.nx, l.ny, pts[i], pts[j]), func(c *Case) {
				simplePolygons(pts, i, j, l.max, func(v []r2.Vec) {
					checkPolygon(c, v, probe)
					if len(v) > 5 {
						return
					}
					// repeated vertices, and closed explicitly
					for r := range v {
						w := append(append(append([]r2.Vec(nil), v[:r+1]...), v[r], v[r]), v[r+1:]...)
						checkPolygon(c, w, probe)
					}
					checkPolygon(c, append(append([]r2.Vec(nil), v...), v[0]), probe)
				})
			})
		})
	}
	// closed sequences which cross themselves: inside is what they wind around
	walks := latticePts(3, 3)
	var fine []r2.Vec
	for i := -1; i <= 11; i++ {
		for j := -1; j <= 11; j++ {
			fine = append(fine, v2(0.2*float64(i)+0.013, 0.2*float64(j)+0.007))
		}
	}
	t.Par(len(walks)*len(walks), func(k int) {
		if k/len(walks) == k%len(walks) {
			return
		}
		t.Case(fmt.Sprintf("closed sequences from %v %v", walks[k/len(walks)], walks[k%len(walks)]), func(c *Case) {
			v := []r2.Vec{walks[k/len(walks)], walks[k%len(walks)]}
			var rec func()
			rec = func() {
				n := len(v)
				if n >= 3 && v[n-1] != v[0] {
					checkWinding(c, v, fine)
				}
				if n == t.N(5, 6) {
					return
				}
				for _, q := range walks {
					if q != v[n-1] {
						v = append(v, q)
						rec()
						v = v[:n]
					}
				}
			}
			rec()
		})
	})
	var irr [][]r2.Vec
	for _, n := range []int{5, 7, 12, 30, 60} {
		var star, gear, spiral, rev []r2.Vec
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			star = append(star, v2((1+0.5*float64(i%2))*math.Cos(a), (1+0.5*float64(i%2))*math.Sin(a)))
			gear = append(gear, v2((1+0.3*math.Sin(3*a))*math.Cos(a)*2, (1+0.3*math.Sin(3*a))*math.Sin(a)))
		}
		for i := 0; i < n; i++ {
			a := 9 * float64(i) / float64(n)
			spiral = append(spiral, v2((0.3+0.2*a)*math.Cos(a), (0.3+0.2*a)*math.Sin(a)))
		}
		for i := n - 1; i >= 0; i-- {
			a := 9 * float64(i) / float64(n)
			spiral = append(spiral, v2((0.5+0.2*a)*math.Cos(a), (0.5+0.2*a)*math.Sin(a)))
		}
		for i := range gear {
			rev = append(rev, gear[len(gear)-1-i])
		}
		irr = append(irr, star, gear, spiral, rev)
	}
	for _, n := range []int{255, 256, 257, 1001} { // round with a notch
		var v []r2.Vec
		for i := 0; i < n-1; i++ {
			a := 2 * math.Pi * float64(i) / float64(n-1)
			v = append(v, v2(2*math.Cos(a), math.Sin(a)))
		}
		irr = append(irr, append(v, v2(0.1, 0.05)))
	}
	comb := []r2.Vec{v2(3, -2), v2(3, -1)}
	for i := 0; i < 40; i++ {
		x := 3 - 0.15*float64(i)
		comb = append(comb, v2(x-0.05, -1+2.5*float64(i%3+1)/3), v2(x-0.1, -1))
	}
	irr = append(irr, append(comb, v2(-3.1, -2)))
	for i, v := range irr {
		i, v := i, v
		t.Case(fmt.Sprintf("irregular %d of %d vertices", i, len(v)), func(c *Case) {
			for _, sc := range []float64{1, 1e-3, 1e3, 1e6} {
				for _, o := range []r2.Vec{v2(0, 0), v2(0.37, -5), v2(100, 3)} {
					w := make([]r2.Vec, len(v))
					for k := range v {
						w[k] = r2.Add(r2.Scale(sc, v[k]), o)
					}
					var probe []r2.Vec
					for _, q := range append(grid2(25, 3), far2()...) {
						probe = append(probe, r2.Add(r2.Scale(sc, q), o))
					}
					for k := range w { // beside the vertices and at their height
						probe = append(probe, v2(w[k].X+sc, w[k].Y), v2(w[k].X-0.1*sc, w[k].Y))
					}
					checkPolygon(c, w, probe)
				}
			}
		})
	}
}

// polygon builder

// refArc returns the points between a and b of an arc of n facets, to the left of a-b for positive radii.
func refArc(a, b r2.Vec, radius float64, n int) (out []r2.Vec) {
	ch := r2.Sub(b, a)
	l := r2.Norm(ch)
	side := 1.0
	if radius < 0 {
		side, radius = -1, -radius
	}
	radius = math.Max(radius, l/2)
	half := math.Asin(math.Min(1, l/2/radius)) // half of the angle of the arc
	x := r2.Scale(1/l, ch)
	y := r2.Scale(side, v2(-x.Y, x.X)) // towards the arc
	mid := r2.Scale(0.5, r2.Add(a, b))
	for i := 1; i < n; i++ {
		t := -half + 2*half*float64(i)/float64(n)
		// relative to the middle of the chord
		u := radius * math.Sin(t)
		w := radius*math.Cos(t) - radius*math.Cos(half)
		out = append(out, r2.Add(mid, r2.Add(r2.Scale(u, x), r2.Scale(w, y))))
	}
	return out
}

// refRound returns the points of a corner of the given radius and number of facets.
func refRound(prev, p, next r2.Vec, radius float64, n int) (out []r2.Vec, d float64) {
	u, w := r2.Unit(r2.Sub(prev, p)), r2.Unit(r2.Sub(next, p))
	turn := math.Atan2(math.Abs(u.X*w.Y-u.Y*w.X), u.X*w.X+u.Y*w.Y) // angle at the corner
	d = radius / math.Tan(turn/2)
	bis := r2.Unit(r2.Add(u, w))
	c := r2.Add(p, r2.Scale(radius/math.Sin(turn/2), bis))
	// from the tangent point on the previous edge over the corner side to the one on the next edge
	a0, a1 := r2.Add(p, r2.Scale(d, u)), r2.Add(p, r2.Scale(d, w))
	t0 := math.Atan2(a0.Y-c.Y, a0.X-c.X)
	t1 := math.Atan2(a1.Y-c.Y, a1.X-c.X)
	dt := math.Remainder(t1-t0, 2*math.Pi)
	for i := 0; i <= n; i++ {
		t := t0 + dt*float64(i)/float64(n)
		out = append(out, v2(c.X+radius*math.Cos(t), c.Y+radius*math.Sin(t)))
	}
	return out, d
}

type bmod struct {
	name string
	kind byte // 'n' none, 's' smooth, 'c' chamfer, 'a' arc
	r    float64
	n    int
	over byte // replaced by it
}

var bmods = []bmod{
	{name: "plain", kind: 'n'},
	{name: "smooth(.2,1)", kind: 's', r: 0.2, n: 1},
	{name: "smooth(.3,4)", kind: 's', r: 0.3, n: 4},
	{name: "smooth(.1,7)", kind: 's', r: 0.1, n: 7},
	{name: "smooth(50,3)", kind: 's', r: 50, n: 3},
	{name: "chamfer(.4)", kind: 'c', r: 0.4},
	{name: "arc(3,2)", kind: 'a', r: 3, n: 2},
	{name: "arc(-4,5)", kind: 'a', r: -4, n: 5},
	{name: "arc(.1,4)", kind: 'a', r: 0.1, n: 4}, // smaller than the chord
	{name: "arc(-9,1)", kind: 'a', r: -9, n: 1},
	{name: "smooth(0,3)", kind: 's', r: 0, n: 3},
	{name: "smooth(1,0)", kind: 's', r: 1, n: 0},
	{name: "arc(2,0)", kind: 'a', r: 2, n: 0},
	{name: "smooth(.25,40)", kind: 's', r: 0.25, n: 40},
	{name: "arc(-2.6,33)", kind: 'a', r: -2.6, n: 33},
	{name: "arc(7,150)", kind: 'a', r: 7, n: 150},
	{name: "smooth(.28,130)", kind: 's', r: 0.28, n: 130},
	{name: "arc(-2.8,10)", kind: 'a', r: -2.8, n: 10},
	{name: "arc(1e7,3)", kind: 'a', r: 1e7, n: 3}, // nearly straight
	{name: "smooth(.3,4) arc(3,2)", kind: 'a', r: 3, n: 2, over: 's'},
	{name: "arc(-4,5) smooth(.2,3)", kind: 's', r: 0.2, n: 3, over: 'a'},
	{name: "smooth(.1,9) chamfer(.3)", kind: 'c', r: 0.3, over: 's'},
	{name: "chamfer(.3) smooth(0,3)", kind: 'c', r: 0.3, over: 'n'},
}

// refBuild is the model of the builder. ok is false if roundings overlap.
func refBuild(pts []r2.Vec, mods []int, closed bool) (out []r2.Vec, ok bool) {
	type vt struct {
		p  r2.Vec
		sr float64
		sn int
	}
	var vs []vt
	for i, p := range pts {
		m := bmods[mods[i]]
		v := vt{p: p}
		switch m.kind {
		case 's':
			if m.r != 0 && m.n != 0 {
				v.sr, v.sn = m.r, m.n
			}
		case 'c':
			v.sr, v.sn = m.r*math.Sqrt2/2, 1
		case 'a':
			if m.r != 0 && m.n != 0 && (i > 0 || closed) {
				for _, q := range refArc(pts[(i+len(pts)-1)%len(pts)], p, m.r, m.n) {
					vs = append(vs, vt{p: q})
				}
			}
		}
		vs = append(vs, v)
	}
	n := len(vs)
	ds := make([]float64, n)
	rounds := make([][]r2.Vec, n)
	for i, v := range vs {
		if v.sn == 0 || (!closed && (i == 0 || i == n-1)) {
			continue
		}
		a, b := vs[(i+n-1)%n].p, vs[(i+1)%n].p
		r, d := refRound(a, v.p, b, v.sr, v.sn)
		la, lb := r2.Norm(r2.Sub(a, v.p)), r2.Norm(r2.Sub(b, v.p))
		if math.IsNaN(d) || math.Abs(d-la) < 1e-6 || math.Abs(d-lb) < 1e-6 {
			return nil, false
		}
		if e := r2.Norm(r2.Add(r2.Unit(r2.Sub(a, v.p)), r2.Unit(r2.Sub(b, v.p)))); e < 1e-12 {
			continue // collinear: nothing to round
		} else if e < 1e-6 {
			return nil, false // whether this is a corner is a matter of rounding
		}
		if d > la || d > lb {
			continue // too large
		}
		ds[i], rounds[i] = d, r
	}
	for i := range vs {
		j := (i + 1) % n
		if j == 0 && !closed {
			continue
		}
		if ds[i]+ds[j] > r2.Norm(r2.Sub(vs[i].p, vs[j].p))-1e-6 && rounds[i] != nil && rounds[j] != nil {
			return nil, false
		}
	}
	for i, v := range vs {
		if rounds[i] != nil {
			out = append(out, rounds[i]...)
		} else {
			out = append(out, v.p)
		}
	}
	return out, true
}

func sameRing(a, b []r2.Vec, cyclic bool) bool {
	if len(a) != len(b) {
		return false
	}
	n := len(a)
	for r := 0; r < n; r++ {
		ok := true
		for i := range a {
			if r2.Norm(r2.Sub(a[(i+r)%n], b[i])) > 1e-6 {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if !cyclic {
			break
		}
	}
	return false
}

// program builds a polygon with the real builder.
// The polygon is made at a scale and returned without it.
func program(pts []r2.Vec, mods, enc []int, closed, reverse, drop bool, sc float64) (got, again []r2.Vec) {
	{
		w := make([]r2.Vec, len(pts))
		for i := range pts {
			w[i] = r2.Scale(sc, pts[i])
		}
		pts = w
		defer func() {
			for i := range got {
				got[i] = r2.Scale(1/sc, got[i])
			}
			for i := range again {
				again[i] = r2.Scale(1/sc, again[i])
			}
		}()
	}
	b := must2.NewPolygon()
	if drop { // before anything refers to it
		b.Add(77, 33)
		b.Drop()
	}
	for i, p := range pts {
		e := enc[i]
		if e&1 != 0 {
			p = r2.Sub(p, pts[i-1])
		}
		if e&2 != 0 {
			if (i%2 == 1) != drop {
				p = v2(math.Hypot(p.X, p.Y), math.Atan2(p.Y, p.X))
			} else { // the same place
				p = v2(-math.Hypot(p.X, p.Y), math.Atan2(-p.Y, -p.X)+2*math.Pi)
			}
		}
		v := b.Add(p.X, p.Y)
		if e&2 != 0 {
			v = v.Polar()
		}
		if e&1 != 0 {
			v = v.Rel()
		}
		m := bmods[mods[i]]
		switch m.over {
		case 's':
			v = v.Smooth(0.3*sc, 4)
		case 'a':
			v = v.Arc(-4*sc, 5)
		}
		switch m.kind {
		case 's':
			v.Smooth(m.r*sc, m.n)
		case 'c':
			v.Chamfer(m.r * sc)
		case 'a':
			v.Arc(m.r*sc, m.n)
		}
		if m.over == 'n' { // no effect
			v.Smooth(0, 3)
		}
	}
	if drop {
		b.Add(99, -5).Smooth(0.5, 3)
		b.Drop()
	}
	if closed {
		b.Close()
	}
	if reverse {
		b.Reverse()
	}
	if b.Closed() != closed {
		panic("Closed")
	}
	got = b.Vertices()
	return got, b.Vertices()
}

func runC22(t *T) {
	bases := [][]r2.Vec{
		{v2(0, 0), v2(3, 0), v2(1, 2)},
		{v2(-1, 2), v2(1, -2), v2(2.5, 3)},
		{v2(0, 0), v2(1.5, 0), v2(3, 0)}, // collinear
		{v2(0, 0), v2(4, 0), v2(4, 3), v2(0, 3)},
		{v2(1, 1), v2(-2, 3), v2(0, 0.5), v2(-2, -2)}, // clockwise turns as well
		{v2(0, 0), v2(2, 0), v2(4, 0), v2(2, 3)},
		{v2(0, 0), v2(1.19996, 1.60003), v2(2.4, 3.2), v2(3.9999, 3)}, // nearly straight
	}
	if !t.quick {
		bases = append(bases, []r2.Vec{v2(0, 0), v2(4, 0), v2(5, 3), v2(2, 1.5), v2(-1, 4)})
	}
	encs := func(n int) (out [][]int) {
		if n > 3 { // uniform, the first vertex is absolute
			for e := 0; e < 4; e++ {
				w := make([]int, n)
				for i := range w {
					w[i] = e
				}
				w[0] = e &^ 1
				out = append(out, w)
			}
			mix := make([]int, n)
			for i := range mix {
				mix[i] = (i * 3) % 4
			}
			mix[0] &^= 1
			return append(out, mix)
		}
		for k := 0; k < 2*4*4; k++ {
			out = append(out, []int{2 * (k & 1), k >> 1 & 3, k >> 3 & 3})
		}
		return out
	}
	nm := len(bmods)
	for bi, pts := range bases {
		bi, pts := bi, pts
		n := len(pts)
		t.Par(nm*nm, func(k int) {
			t.Case(fmt.Sprintf("programs over %v with %s,%s", pts, bmods[k/nm].name, bmods[k%nm].name), func(c *Case) {
				total := 1
				for i := 2; i < n; i++ {
					total *= nm
				}
				mods := make([]int, n)
				mods[0], mods[1] = k/nm, k%nm
				for rest := 0; rest < total; rest++ {
					for i, r := 2, rest; i < n; i, r = i+1, r/nm {
						mods[i] = r % nm
					}
					for _, closed := range []bool{false, true} {
						want, ok := refBuild(pts, mods, closed)
						if !ok {
							continue
						}
						rev := make([]r2.Vec, len(want))
						for i := range want {
							rev[len(want)-1-i] = want[i]
						}
						for ei, enc := range encs(n) {
							reverse := (ei+rest)%2 == 1
							drop := (ei/2+rest)%3 == 0
							got, again := program(pts, mods, enc, closed, reverse, drop, []float64{1, 1e-3, 1e3}[(rest+ei/3)%3])
							w := want
							if reverse {
								w = rev
							}
							desc := func() string {
								s := fmt.Sprintf("base %d closed=%v reverse=%v drop=%v", bi, closed, reverse, drop)
								for i := range mods {
									s += fmt.Sprintf(" %v enc %d %s", pts[i], enc[i], bmods[mods[i]].name)
								}
								return s
							}
							if !sameRing(got, w, closed) {
								c.Fail("%s: vertices %v, want %v", desc(), got, w)
							}
							if !sameRing(again, got, false) {
								c.Fail("%s: second call returned %v after %v", desc(), again, got)
							}
							c.States(1)
							c.Trans(n)
							c.Trace(1)
						}
						for _, p := range want {
							c.ObsF(p.X)
						}
					}
				}
			})
		})
	}
	t.Case("AddV2Set", func(c *Case) {
		b := must2.NewPolygon()
		b.AddV2Set(ell())
		b.AddV2(v2(9, 9)).Rel()
		v := b.Vertices()
		w := append(ell(), r2.Add(ell()[5], v2(9, 9)))
		if !sameRing(v, w, false) {
			c.Fail("%v", v)
		}
		var s sdf.SDF2 = must2.Polygon(ell())
		if f, err := form2.Polygon(ell()); err != nil || f.Evaluate(v2(0.1, 0.2)) != s.Evaluate(v2(0.1, 0.2)) {
			c.Fail("form2.Polygon %v", err)
		}
		c.States(1)
		c.Obs(v)
	})
}
