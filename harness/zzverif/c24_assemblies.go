package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C24", "exploration",
		"standoffs of 3 heights, 4 holes and stubs, 0..6 (some 16) webs of 3 shapes, and 9 of other proportions; panels of 2 sizes with all hole patterns of up to 2 marks on 2 edges and several on the others; eurorack panels of 6 heights and 10 widths; panel holes of 3 sizes, offsets and 5 orientations; lattices of 41x41x31 (81x81x61) points, and close to both sides of the surface on every edge of them and 32 directions around every hole",
		"a case is a part with its parameters, compared at every lattice point with the set of points its parameters stand for; distinct by the values", runC24)
	register("C33", "exploration",
		"bolts and nuts of 9 threads, all styles, 3 total and 3 shank lengths; hex heads of 3 radii and 3 heights with all roundings; knurls of 4 pitches and 5 angles; lattices of 33x33x49 (61x61x97) points, and close to both sides of the surface on every edge of them",
		"a case is a part with its parameters, compared at every lattice point with the set of points its parameters stand for; distinct by the values", runC33)
}

// part is a job comparing the inside of a shape with a model.
type part struct {
	name  string
	build func() (sdf.SDF3, error)
	// in is negative inside, positive outside of the part (not a distance).
	in   func(p r3.Vec) float64
	bb   r3.Box // what the lattice covers
	flat bool
	// marks are points inside of small features, which are markR wide.
	marks []r3.Vec
	markR float64
}

func (j part) run(c *Case, n, nz int) {
	s, err := j.build()
	if err != nil {
		c.Fail("%v", err)
	}
	in, out := 0, 0
	if j.flat {
		nz = 2
	}
	sz := r3.Sub(j.bb.Max, j.bb.Min)
	// test compares one point, and returns the side the model has it on (0: on the surface or undefined).
	test := func(p r3.Vec) int {
		want := j.in(p)
		if math.IsNaN(want) || math.Abs(want) < 1e-9 {
			return 0
		}
		got := s.Evaluate(p)
		c.ObsF(got)
		if got < 0 {
			in++
		} else {
			out++
		}
		if math.IsNaN(got) || (got < 0) != (want < 0) {
			c.Fail("value %v at %v, want %v", got, p, want)
		}
		if want < 0 {
			return -1
		}
		return 1
	}
	// edge looks for the surface of the model between two points, and compares on both sides of it.
	edge := func(p, q r3.Vec, sp int) {
		for i := 0; i < 12; i++ {
			m := v3((p.X+q.X)/2, (p.Y+q.Y)/2, (p.Z+q.Z)/2)
			v := j.in(m)
			if math.IsNaN(v) {
				return
			}
			if (v < 0) == (sp < 0) {
				p = m
			} else {
				q = m
			}
		}
		test(p)
		test(q)
	}
	at := func(a, b, k int) r3.Vec {
		return v3(j.bb.Min.X+sz.X*(1.16*float64(a)/float64(n-1)-0.081), j.bb.Min.Y+sz.Y*(1.16*float64(b)/float64(n-1)-0.0807), j.bb.Min.Z+sz.Z*(1.2*float64(k)/float64(nz-1)-0.1013))
	}
	side := make([]int, n*n*nz)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for k := 0; k < nz; k++ {
				p := at(a, b, k)
				i := (a*n+b)*nz + k
				side[i] = test(p)
				if a > 0 && side[i]*side[i-n*nz] < 0 {
					edge(p, at(a-1, b, k), side[i])
				}
				if b > 0 && side[i]*side[i-nz] < 0 {
					edge(p, at(a, b-1, k), side[i])
				}
				if k > 0 && !j.flat && side[i]*side[i-1] < 0 {
					edge(p, at(a, b, k-1), side[i])
				}
			}
		}
	}
	for _, m := range j.marks {
		// all around the feature, on both sides of its surface
		sm := test(m)
		for i := 0; i < 32; i++ {
			sn, cs := math.Sincos((float64(i) + 0.3) * math.Pi / 16)
			q := r3.Add(m, v3(1.5*j.markR*cs, 1.5*j.markR*sn, 0))
			if sq := test(q); sm*sq < 0 {
				edge(m, q, sm)
			}
		}
	}
	c.Eval(in + out)
	if in < 20 || out < 20 {
		c.Fail("harness: %d points inside, %d outside", in, out)
	}
}

func solid(name string, build func() (sdf.SDF3, error), in func(p r3.Vec) float64, bb r3.Box) part {
	return part{name: name, build: build, in: in, bb: bb}
}

func part2(name string, build func() (sdf.SDF2, error), k obj2.PanelParams) part {
	in := panelModel(k)
	j := part{name: name, build: func() (sdf.SDF3, error) {
		s, err := build()
		if err != nil {
			return nil, err
		}
		return fn3{func(p r3.Vec) float64 { return s.Evaluate(v2(p.X, p.Y)) }, r3.Box{}}, nil
	}, in: func(p r3.Vec) float64 { return in(v2(p.X, p.Y)) }, bb: box3(v3(0, 0, 0), k.Size.X/2, k.Size.Y/2, 1), flat: true, markR: k.HoleDiameter / 2}
	for _, h := range holesModel(k) {
		j.marks = append(j.marks, v3(h.X, h.Y, 0))
	}
	return j
}

func cylModel(h, r float64) func(p r3.Vec) float64 {
	return func(p r3.Vec) float64 { return math.Max(math.Hypot(p.X, p.Y)-r, math.Abs(p.Z)-h/2) }
}

// holesModel lists the centers of the holes of a panel.
func holesModel(k obj2.PanelParams) (out []r2.Vec) {
	l, r := -k.Size.X/2+k.HoleMargin[3], k.Size.X/2-k.HoleMargin[1]
	top, bot := k.Size.Y/2-k.HoleMargin[0], -k.Size.Y/2+k.HoleMargin[2]
	ends := [4][2]r2.Vec{{v2(l, top), v2(r, top)}, {v2(r, top), v2(r, bot)}, {v2(r, bot), v2(l, bot)}, {v2(l, bot), v2(l, top)}}
	for e, pat := range k.HolePattern {
		for i, x := range pat {
			if x == 'x' {
				t := float64(i) / float64(len(pat))
				out = append(out, v2(lerp(ends[e][0].X, ends[e][1].X, t), lerp(ends[e][0].Y, ends[e][1].Y, t)))
			}
		}
	}
	return out
}

func panelModel(k obj2.PanelParams) func(p r2.Vec) float64 {
	holes := holesModel(k)
	return func(p r2.Vec) float64 {
		q := []float64{p.X, p.Y}
		v := boxDist(q, []float64{k.Size.X/2 - k.CornerRadius, k.Size.Y/2 - k.CornerRadius}) - k.CornerRadius
		if k.HoleDiameter > 0 {
			for _, h := range holes {
				v = math.Max(v, k.HoleDiameter/2-r2.Norm(r2.Sub(p, h)))
			}
		}
		return v
	}
}

func standoffModel(k obj3.StandoffParams) func(p r3.Vec) float64 {
	pillar := cylModel(k.PillarHeight, k.PillarDiameter/2)
	hole := cylModel(math.Abs(k.HoleDepth), k.HoleDiameter/2)
	return func(p r3.Vec) float64 {
		v := pillar(p)
		for i := 0; i < k.NumberWebs; i++ {
			sn, cs := math.Sincos(2 * math.Pi * float64(i) / float64(k.NumberWebs))
			x, y, z := p.X*cs+p.Y*sn, p.Y*cs-p.X*sn, p.Z+k.PillarHeight/2
			// under the line from (WebDiameter/2, 0) to (0, WebHeight), within the height of the pillar
			web := math.Max(x/(k.WebDiameter/2)+z/k.WebHeight-1, math.Max(-x, -z))
			web = math.Max(web, math.Max(math.Abs(y)-k.WebWidth/2, math.Abs(p.Z)-k.PillarHeight/2))
			v = math.Min(v, web)
		}
		if k.HoleDiameter != 0 && k.HoleDepth != 0 {
			h := hole(v3(p.X, p.Y, p.Z-(k.PillarHeight-k.HoleDepth)/2))
			if k.HoleDepth > 0 {
				v = math.Max(v, -h)
			} else {
				v = math.Min(v, h)
			}
		}
		return v
	}
}

func runC24(t *T) {
	n, nz := t.N(41, 81), t.N(31, 61)
	var jobs []part
	for _, height := range []float64{4, 10, 15} {
		for _, hole := range []r2.Vec{{}, {X: 3, Y: 2.5}, {X: 20, Y: 4}, {X: -2, Y: 3}, {X: 5, Y: 0}, {X: 0, Y: 3}} {
			for webs := 0; webs <= 16; webs++ {
				if webs > 6 && (height != 10 || hole.X < 0 || hole.Y == 0) {
					continue
				}
				for w, web := range []r3.Vec{{X: 3, Y: 14, Z: 1.5}, {X: 12, Y: 20, Z: 1}, {X: 9, Y: 10, Z: 3}} {
					if webs == 0 && w > 0 {
						continue
					}
					if webs > 6 && web.Z/2 > 3.5*math.Sin(math.Pi/float64(webs)) {
						// webs reach into the sectors of others outside of the pillar, see DESIGN.md
						continue
					}
					k := obj3.StandoffParams{PillarHeight: height, PillarDiameter: 7, HoleDepth: hole.X, HoleDiameter: hole.Y,
						NumberWebs: webs, WebHeight: web.X, WebDiameter: web.Y, WebWidth: web.Z}
					jobs = append(jobs, solid(fmt.Sprintf("standoff %+v", k), func() (sdf.SDF3, error) { return obj3.Standoff(k) },
						standoffModel(k), box3(v3(0, 0, 0), math.Max(web.Y/2, 3.5), math.Max(web.Y/2, 3.5), height/2+2)))
				}
			}
		}
	}
	// the same with other proportions: holes and stubs wider than the pillar, webs within it or reaching beyond
	for _, k := range []obj3.StandoffParams{
		{PillarHeight: 10, PillarDiameter: 4, HoleDepth: -2, HoleDiameter: 6},
		{PillarHeight: 10, PillarDiameter: 4, HoleDepth: 3, HoleDiameter: 4},
		{PillarHeight: 10, PillarDiameter: 4, HoleDepth: 3, HoleDiameter: 6, NumberWebs: 3, WebHeight: 12, WebDiameter: 12, WebWidth: 1},
		{PillarHeight: 10, PillarDiameter: 8, HoleDepth: 10, HoleDiameter: 6, NumberWebs: 4, WebHeight: 4, WebDiameter: 3, WebWidth: 2},
		{PillarHeight: 10, PillarDiameter: 1, HoleDepth: -10, HoleDiameter: 3, NumberWebs: 2, WebHeight: 20, WebDiameter: 4, WebWidth: 5},
		{PillarHeight: 3, PillarDiameter: 2, NumberWebs: 1, WebHeight: 2, WebDiameter: 1, WebWidth: 9},
		{PillarHeight: 1, PillarDiameter: 20, HoleDepth: 0.25, HoleDiameter: 19, NumberWebs: 8, WebHeight: 1, WebDiameter: 40, WebWidth: 0.5},
		{PillarHeight: 100, PillarDiameter: 5, HoleDepth: 40, HoleDiameter: 2, NumberWebs: 12, WebHeight: 60, WebDiameter: 30, WebWidth: 1},
		{PillarHeight: 0.01, PillarDiameter: 0.006, HoleDepth: 0.005, HoleDiameter: 0.003, NumberWebs: 5, WebHeight: 0.004, WebDiameter: 0.014, WebWidth: 0.001},
	} {
		k := k
		r := math.Max(math.Hypot(k.WebDiameter/2, k.WebWidth/2), math.Max(k.PillarDiameter, k.HoleDiameter)/2)
		jobs = append(jobs, solid(fmt.Sprintf("standoff %+v", k), func() (sdf.SDF3, error) { return obj3.Standoff(k) },
			standoffModel(k), box3(v3(0, 0, 0), r, r, 0.7*k.PillarHeight+math.Abs(k.HoleDepth)/2)))
	}
	pats := patterns(2)
	for _, size := range []r2.Vec{{X: 30, Y: 20}, {X: 12, Y: 40}} {
		for _, p0 := range pats {
			for _, p1 := range pats {
				for i, rest := range [][2]string{{"", ""}, {"x", "xx"}, {"x.x", ".x"}, {"xx.x.xx", "x..x.x"}} {
					k := obj2.PanelParams{Size: size, CornerRadius: 0.75 * float64(i), HoleDiameter: 1.5 + float64(i), Thickness: 2 + float64(i),
						HoleMargin: [4]float64{2, 3, 3.5, 2.5}, HolePattern: [4]string{p0, rest[0], p1, rest[1]}}
					if i == 1 {
						k.HolePattern = [4]string{rest[0], p0, rest[1], p1}
					}
					if i == 2 {
						k.HoleDiameter = 0
					}
					m := panelModel(k)
					jobs = append(jobs, part2(fmt.Sprintf("panel2 %+v", k), func() (sdf.SDF2, error) { return obj2.Panel(k) }, k))
					if i == 3 {
						jobs = append(jobs, solid(fmt.Sprintf("panel3 %+v", k), func() (sdf.SDF3, error) { return obj3.Panel(k) },
							func(p r3.Vec) float64 { return math.Max(m(v2(p.X, p.Y)), math.Abs(p.Z)-k.Thickness/2) },
							box3(v3(0, 0, 0), size.X/2, size.Y/2, k.Thickness/2)))
					}
				}
			}
		}
	}
	// many marks, other on each edge
	long := []string{"x..x.xx...x.", "xxxxxxxxxxxxxxxxxxxxxxxx", ".......x.......x.......x", "x................................x", "...x", "xxx"}
	for i := range long {
		k := obj2.PanelParams{Size: v2(90, 60), CornerRadius: float64(i), HoleDiameter: 1, Thickness: 1,
			HoleMargin: [4]float64{3, 2 + float64(i), 4, 2.5}}
		for e := range k.HolePattern {
			k.HolePattern[e] = long[(i+e*(1+i/3))%len(long)]
		}
		jobs = append(jobs, part2(fmt.Sprintf("panel2 %+v", k), func() (sdf.SDF2, error) { return obj2.Panel(k) }, k))
	}
	for _, u := range []float64{1, 3, 4.5, 6, 7, 12} {
		for _, hp := range []float64{1.5, 4, 6, 7.5, 7.99, 8, 8.5, 12, 20, 84} {
			for i, ridge := range []bool{false, true} {
				k := obj2.EuroRackParams{U: u, HP: hp, CornerRadius: float64(i) * 0.5, HoleDiameter: float64(i) * 2, Thickness: 1.5 + float64(i), Ridge: ridge}
				size := v2(5.08*hp-(3*5.08-15), 44.45*u-(3*44.45-128.5))
				hole := k.HoleDiameter
				if hole == 0 {
					hole = 3.2
				}
				hm := 1.5*5.08 - (3*5.08-15)/2
				pp := obj2.PanelParams{Size: size, CornerRadius: k.CornerRadius, HoleDiameter: hole,
					HoleMargin: [4]float64{3, hm, 3, hm}, HolePattern: [4]string{"x", "", "", "x"}}
				if hp >= 8 {
					pp.HolePattern = [4]string{"x", "x", "x", "x"}
				}
				m := panelModel(pp)
				jobs = append(jobs, part2(fmt.Sprintf("eurorack2 %+v", k), func() (sdf.SDF2, error) { return obj2.EuroRackPanel(k) }, pp))
				jobs = append(jobs, solid(fmt.Sprintf("eurorack3 %+v", k), func() (sdf.SDF3, error) { return obj3.EuroRackPanel(k) },
					func(p r3.Vec) float64 {
						v := math.Max(m(v2(p.X, p.Y)), math.Abs(p.Z)-k.Thickness/2)
						if k.Ridge {
							x := math.Max(size.X/2-k.Thickness-math.Abs(p.X), math.Abs(p.X)-size.X/2)
							z := math.Max(k.Thickness/2-p.Z, p.Z-2*k.Thickness)
							v = math.Min(v, math.Max(math.Max(x, z), math.Abs(p.Y)-(size.Y-18)/2))
						}
						return v
					}, r3.Box{Min: v3(-size.X/2, -size.Y/2, -k.Thickness), Max: v3(size.X/2, size.Y/2, 2*k.Thickness)}))
			}
		}
	}
	for _, d := range []float64{3, 6} {
		for _, th := range []float64{1, 2.5} {
			for _, ind := range []r3.Vec{{}, {X: 1, Y: 2, Z: 0.5}, {X: 2, Y: 0.75, Z: 0.9}, {X: 1, Y: 0, Z: 0.5}, {X: 0, Y: 1, Z: 0.5}, {X: 1, Y: 1, Z: 0}} {
				for _, off := range []float64{0, 1.5, 5} {
					for _, or := range []float64{0, 0.8, math.Pi / 2, math.Pi, -2.5} {
						k := obj3.PanelHoleParams{Diameter: d, Thickness: th, Indent: ind, Offset: off, Orientation: or}
						cyl := cylModel(th, d/2)
						sn, cs := math.Sincos(or)
						jobs = append(jobs, solid(fmt.Sprintf("panelhole %+v", k), func() (sdf.SDF3, error) { return obj3.PanelHole(&k) },
							func(p r3.Vec) float64 {
								v := cyl(p)
								if ind := k.Indent; k.Offset != 0 && ind.X*ind.Y*ind.Z != 0 {
									x, y := p.X*cs+p.Y*sn, p.Y*cs-p.X*sn
									v = math.Min(v, boxDist([]float64{x - k.Offset, y, p.Z - (k.Thickness-ind.Z)/2}, []float64{ind.X / 2, ind.Y / 2, ind.Z / 2}))
								}
								return v
							}, box3(v3(0, 0, 0), math.Max(d/2, off+1), math.Max(d/2, off+1), th/2)))
					}
				}
			}
		}
	}
	t.Par(len(jobs), func(i int) { t.Case(jobs[i].name, func(c *Case) { jobs[i].run(c, n, nz) }) })
}

// hexModel is a hexagon with a corner on the x axis, rounded within its radius.
func hexModel(r, h float64, top, bottom bool) func(p r3.Vec) float64 {
	cr := 0.08 * r
	var hex []r2.Vec
	for i := 0; i < 6; i++ {
		sn, cs := math.Sincos(math.Pi / 3 * float64(i))
		hex = append(hex, v2((r-cr)*cs, (r-cr)*sn))
	}
	flat := r * math.Sqrt(3) / 2
	z := math.Sqrt(1.6*r*1.6*r-flat*flat) - h/2
	return func(p r3.Vec) float64 {
		v := math.Max(polyDist(hex, v2(p.X, p.Y))-cr, math.Abs(p.Z)-h/2)
		if top {
			v = math.Max(v, r3.Norm(v3(p.X, p.Y, p.Z+z))-1.6*r)
		}
		if bottom {
			v = math.Max(v, r3.Norm(v3(p.X, p.Y, p.Z-z))-1.6*r)
		}
		return v
	}
}

// nanMax and nanMin decide where one operand does, and are NaN where an unknown operand matters.
func nanMax(a, b float64) float64 {
	if math.IsNaN(a) && b > 0 {
		return b
	}
	if math.IsNaN(b) && a > 0 {
		return a
	}
	return math.Max(a, b)
}

func nanMin(a, b float64) float64 { return -nanMax(-a, -b) }

// screwIn is screwModel with NaN where the profile jumps.
func screwIn(f func(r2.Vec) float64, k thread.Parameters, length float64) func(p r3.Vec) float64 {
	return func(p r3.Vec) float64 {
		if v, ok := screwModel(f, k, length, p); ok {
			return v
		}
		return nanMax(math.NaN(), math.Abs(p.Z)-length/2)
	}
}

func knurlModel(length, r, pitch, height, theta float64) func(p r3.Vec) float64 {
	starts := int(math.Floor(2*math.Pi*r*math.Tan(theta)/pitch + 1e-12))
	prof := func(q r2.Vec) float64 {
		return math.Max(q.Y-(r+height*(1-math.Abs(q.X)/(pitch/2))), -q.Y)
	}
	a := screwIn(prof, thread.Parameters{Pitch: pitch, Starts: starts}, length)
	b := screwIn(prof, thread.Parameters{Pitch: pitch, Starts: -starts}, length)
	return func(p r3.Vec) float64 { return nanMax(a(p), b(p)) }
}

func knurledHeadModel(r, h, pitch float64) func(p r3.Vec) float64 {
	round := 0.05 * r
	cyl := frustum(h, r, r, round)
	kn := knurlModel(pitch*math.Floor((h-round)/pitch), r, pitch, 0.3*pitch, math.Pi/4)
	return func(p r3.Vec) float64 { return nanMin(cyl(p), kn(p)) }
}

func headModel(style thread.NutStyle, r, h float64, nut bool) func(p r3.Vec) float64 {
	switch style {
	case thread.NutHex:
		return hexModel(r, h, nut, true)
	case thread.NutKnurl:
		return knurledHeadModel(r, h, r/4)
	}
	return cylModel(h, 1.1*r)
}

func runC33(t *T) {
	n, nz := t.N(33, 61), t.N(49, 97)
	var jobs []part
	round := func(q r2.Vec) float64 { return q.Y - 1 + 0.1*math.Cos(2*math.Pi*q.X/0.5) }
	type th struct {
		name string
		t    thread.Threader
	}
	threads := []th{
		{"ISO ext", thread.ISO{D: 6, P: 1, Ext: true}}, {"ISO int", thread.ISO{D: 10, P: 1.5}},
		{"Acme", thread.Acme{D: 8, P: 2}}, {"ANSI", thread.ANSIButtress{D: 12, P: 2}},
		{"plastic", thread.PlasticButtress{D: 20, P: 3}}, {"UTS", thread.UTS{D: 10, TPI: 0.5, Ext: true}},
		{"NPT", thread.NPT{D: 21, TPI: 0.5, F2F: 30}},
	}
	for _, taper := range []float64{0, 0.05, -0.05} {
		for _, starts := range []int{1, -2} {
			for _, f2f := range []float64{3, 5} {
				k := thread.Parameters{Radius: 1.1, Pitch: 0.5, Starts: starts, Taper: taper, HexF2F: f2f}
				threads = append(threads, th{fmt.Sprintf("taper=%v starts=%d f2f=%v", taper, starts, f2f),
					wound{fn2{round, r2.Box{Min: v2(-0.5, 0), Max: v2(0.5, 1.1)}}, k}})
			}
		}
	}
	for _, th := range threads {
		th := th
		prof, err := th.t.Thread()
		if err != nil {
			t.Case(th.name, func(c *Case) { c.Fail("%v", err) })
			continue
		}
		k := th.t.ThreadParams()
		hr := k.HexF2F / math.Sqrt(3)
		hh := hr * 5 / 6
		ymax := prof.Bounds().Max.Y
		for _, style := range []thread.NutStyle{thread.NutHex, thread.NutKnurl} {
			for _, total := range []float64{1, 2.5, 6} {
				for _, part0 := range []float64{0, 0.3, 0.75} {
					p := thread.BoltParms{Thread: th.t, Style: style, TotalLength: total * k.Radius, ShankLength: total * k.Radius * part0}
					head := headModel(style, hr, hh, false)
					sl := p.ShankLength + hh/2
					shank := frustum(sl, k.Radius, k.Radius, hh*0.08)
					tl := p.TotalLength - p.ShankLength
					scr := screwIn(prof.Evaluate, k, tl)
					// the chamfer of the end, unless the thread is too short for it
					r := ymax + math.Abs(tl/2*math.Tan(k.Taper))
					leg := r * 0.5 * math.Sqrt2 / 2
					if leg > tl {
						leg = 0
					}
					in := func(q r3.Vec) float64 {
						v := math.Min(head(q), shank(v3(q.X, q.Y, q.Z-sl/2)))
						if math.IsNaN(v) {
							v = nanMin(head(q), shank(v3(q.X, q.Y, q.Z-sl/2)))
						}
						w := v3(q.X, q.Y, q.Z-sl-tl/2)
						x := scr(w)
						x = nanMax(x, math.Max(math.Hypot(w.X, w.Y)-r, math.Abs(w.Z)-tl/2))
						x = nanMax(x, math.Hypot(w.X, w.Y)-r+w.Z-tl/2+leg)
						return nanMin(v, x)
					}
					jobs = append(jobs, solid(fmt.Sprintf("bolt %s %v %v %v", th.name, style, p.TotalLength, p.ShankLength),
						func() (sdf.SDF3, error) { return thread.Bolt(p) }, in,
						r3.Box{Min: v3(-1.1*hr, -1.1*hr, -hh/2), Max: v3(1.1*hr, 1.1*hr, hh/2+p.TotalLength)}))
				}
			}
		}
		for _, style := range []thread.NutStyle{thread.NutCircular, thread.NutHex, thread.NutKnurl} {
			body := headModel(style, hr, hh, true)
			scr := screwIn(prof.Evaluate, k, hh)
			p := thread.NutParms{Thread: th.t, Style: style}
			jobs = append(jobs, solid(fmt.Sprintf("nut %s %v", th.name, style), func() (sdf.SDF3, error) { return thread.Nut(p) },
				func(q r3.Vec) float64 { return nanMax(body(q), -scr(q)) }, box3(v3(0, 0, 0), 1.1*hr, 1.1*hr, hh/2)))
		}
	}
	for _, r := range []float64{1, 3, 10} {
		for _, h := range []float64{0.3, 0.8, 1.5, 2.6} {
			for _, rd := range []string{"", "t", "b", "tb"} {
				r, h, rd := r, h*r, rd
				jobs = append(jobs, solid(fmt.Sprintf("hexhead %v %v %s", r, h, rd), func() (sdf.SDF3, error) { return thread.HexHead(r, h, rd) },
					hexModel(r, h, rd == "t" || rd == "tb", rd == "b" || rd == "tb"), box3(v3(0, 0, 0), r, r, h/2)))
			}
			for _, pitch := range []float64{0.1, 0.2} {
				r, h, pitch := r, h*r, pitch*r
				jobs = append(jobs, solid(fmt.Sprintf("knurledhead %v %v %v", r, h, pitch), func() (sdf.SDF3, error) { return thread.KnurledHead(r, h, pitch) },
					knurledHeadModel(r, h, pitch), box3(v3(0, 0, 0), 1.1*r, 1.1*r, h/2)))
			}
		}
	}
	for _, r := range []float64{1, 3} {
		for _, pitch := range []float64{0.3, 0.5, 1.1} {
			for _, theta := range []float64{0, 0.2, 0.7, math.Pi / 4, 1.1} {
				for _, height := range []float64{0.1, 0.3} {
					for _, length := range []float64{1, 4} {
						k := thread.KnurlParams{Length: length, Radius: r, Pitch: pitch, Height: height, Theta: theta}
						jobs = append(jobs, solid(fmt.Sprintf("knurl %+v", k), func() (sdf.SDF3, error) { return thread.Knurl(k) },
							knurlModel(length, r, pitch, height, theta), box3(v3(0, 0, 0), r+height, r+height, length/2)))
					}
				}
			}
		}
	}
	// just below and above whole numbers of starts
	for _, starts := range []float64{0.995, 1.005, 2.995, 6.005, 11.995, 20.995} {
		for _, theta := range []float64{0.4, math.Pi / 4} {
			r := 2.0
			pitch := 2 * math.Pi * r * math.Tan(theta) / starts
			k := thread.KnurlParams{Length: 1.5 * pitch, Radius: r, Pitch: pitch, Height: 0.25, Theta: theta}
			jobs = append(jobs, solid(fmt.Sprintf("knurl %+v", k), func() (sdf.SDF3, error) { return thread.Knurl(k) },
				knurlModel(k.Length, r, pitch, k.Height, theta), box3(v3(0, 0, 0), r+k.Height, r+k.Height, k.Length/2)))
		}
	}
	t.Par(len(jobs), func(i int) { t.Case(jobs[i].name, func(c *Case) { jobs[i].run(c, n, nz) }) })
}
