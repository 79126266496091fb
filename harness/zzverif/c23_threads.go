package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/obj3/thread"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C23", "exploration",
		"3 profiles, starts -3..3, 4 pitches, 5 tapers, 3 lengths, and up to 16 starts, pitches of 0.03 to 30 and lengths of 0.05 to 300, on cylindrical lattices of 13x32x33 (25x48x65) points; 2 knurls",
		"a case is a screw with its parameters, compared at every lattice point with the profile wound around the axis; distinct by the values", runC23)
	register("C32", "exploration",
		"9 diameters and 6 pitches of each of the 7 thread standards, 121x161 (241x321) points of one pitch",
		"a case is a thread profile with its dimensions, compared with the polygon of the standard; distinct by the values", runC32)
}

// wound is a thread of the harness.
type wound struct {
	s sdf.SDF2
	p thread.Parameters
}

func (w wound) Thread() (sdf.SDF2, error)       { return w.s, nil }
func (w wound) ThreadParams() thread.Parameters { return w.p }

// screwModel is the value of a screw at p; ok is false where the profile jumps.
func screwModel(f func(r2.Vec) float64, k thread.Parameters, length float64, p r3.Vec) (v float64, ok bool) {
	turns := math.Atan2(p.Y, p.X) / (2 * math.Pi)
	z := p.Z - k.Pitch*float64(k.Starts)*turns
	x := math.Remainder(z, k.Pitch)
	if math.Abs(x) > k.Pitch*(0.5-1e-6) {
		return 0, false
	}
	r := math.Hypot(p.X, p.Y) + p.Z*math.Tan(k.Taper)
	return math.Max(f(v2(x, r)), math.Abs(p.Z)-length/2), true
}

func checkScrew(c *Case, s sdf.SDF3, f func(r2.Vec) float64, k thread.Parameters, length, rmax float64, n, nt, nz int) {
	skipped := 0
	for i := 0; i < n; i++ {
		r := rmax * 1.3 * float64(i) / float64(n-1)
		for j := 0; j < nt; j++ {
			sn, cs := math.Sincos(2*math.Pi*float64(j)/float64(nt) - math.Pi + 0.013)
			for l := 0; l < nz; l++ {
				p := v3(r*cs, r*sn, length*0.6*(2*float64(l)/float64(nz-1)-1)+0.0017)
				want, ok := screwModel(f, k, length, p)
				if !ok {
					skipped++
					continue
				}
				got := s.Evaluate(p)
				c.ObsF(got)
				if !near(got, want, 1e-8) {
					c.Fail("value %v at %v, want %v", got, p, want)
				}
			}
		}
	}
	c.Eval(n*nt*nz - skipped)
	if skipped > n*nt*nz/4 {
		c.Fail("harness: %d points skipped", skipped)
	}
}

func runC23(t *T) {
	n, nt, nz := t.N(13, 25), t.N(32, 48), t.N(33, 65)
	type job struct {
		name string
		run  func(c *Case)
	}
	var jobs []job
	add := func(starts int, pitch, taper, length, h float64) {
		for _, pr := range []struct {
			name string
			f    func(r2.Vec) float64
		}{
			{"cosine", func(q r2.Vec) float64 { return q.Y - 1 - 0.2*math.Cos(2*math.Pi*q.X/pitch) }},
			{"ramp", func(q r2.Vec) float64 { return q.Y - 1.1 - 0.3*q.X/pitch }},
			{"coordinates", func(q r2.Vec) float64 { return 3*q.X + 0.5*q.Y - 1 }},
		} {
			k := thread.Parameters{Radius: 1, Pitch: pitch, Starts: starts, Taper: taper, HexF2F: 3}
			pr := pr
			jobs = append(jobs, job{fmt.Sprintf("%s starts=%d pitch=%v taper=%.3f length=%v h=%v", pr.name, starts, pitch, taper, length, h), func(c *Case) {
				s, err := thread.Screw(length, wound{fn2{pr.f, r2.Box{Min: v2(-pitch, 0), Max: v2(pitch, h)}}, k})
				if err != nil {
					c.Fail("%v", err)
				}
				r := h + math.Abs(length/2*math.Tan(k.Taper))
				if b, w := s.Bounds(), box3(v3(0, 0, 0), r, r, length/2); !close3(b.Min, w.Min, 1e-9) || !close3(b.Max, w.Max, 1e-9) {
					c.Fail("bounds %v, want %v", b, w)
				}
				checkScrew(c, s, pr.f, k, length, h, n, nt, nz)
			}})
		}
	}
	for _, starts := range []int{-3, -2, -1, 0, 1, 2, 3} {
		for _, pitch := range []float64{0.25, 0.5, 1, 1.75} {
			for _, taper := range []float64{-0.1, 0, math.Atan(1. / 32), 0.1, 0.3} {
				for _, length := range []float64{0.75, 2, 5} {
					add(starts, pitch, taper, length, 1.5)
				}
			}
		}
	}
	// many starts, fine and coarse pitches, short and long screws, thick and thin ones
	for _, starts := range []int{-12, -5, -1, 1, 4, 7, 16} {
		for _, pitch := range []float64{0.03, 0.8, 30} {
			for i, length := range []float64{0.05, 1, 40, 300} {
				add(starts, pitch, []float64{0, 0.05, 0, 1e-4}[i], length, []float64{0.2, 1.5, 60}[(i+starts+12)%3])
			}
		}
	}
	// the threads of the package, wound from their own profiles
	for _, th := range []struct {
		name string
		t    thread.Threader
	}{
		{"ISO ext", thread.ISO{D: 6, P: 1, Ext: true}}, {"ISO int", thread.ISO{D: 10, P: 1.5}},
		{"Acme", thread.Acme{D: 8, P: 2}}, {"ANSI", thread.ANSIButtress{D: 12, P: 2}},
		{"plastic", thread.PlasticButtress{D: 20, P: 3}}, {"UTS", thread.UTS{D: 1, TPI: 8, Ext: true}},
		{"UTS int", thread.UTS{D: 1, TPI: 8}}, {"NPT", thread.NPT{D: 1.315, TPI: 11.5}},
	} {
		for _, length := range []float64{1, 4} {
			th, length := th, length
			jobs = append(jobs, job{fmt.Sprintf("%s length=%v", th.name, length), func(c *Case) {
				s, err := thread.Screw(length, th.t)
				if err != nil {
					c.Fail("%v", err)
				}
				prof, err := th.t.Thread()
				if err != nil {
					c.Fail("%v", err)
				}
				k := th.t.ThreadParams()
				checkScrew(c, s, prof.Evaluate, k, length, k.Radius, n, nt, nz)
			}})
		}
	}
	// screws without an extent or a pitch
	for _, k := range []struct{ length, pitch float64 }{{0, 1}, {-1, 1}, {1, 0}, {1, -1}} {
		k := k
		jobs = append(jobs, job{fmt.Sprintf("error length=%v pitch=%v", k.length, k.pitch), func(c *Case) {
			s, err := thread.Screw(k.length, wound{must2.Circle(1), thread.Parameters{Radius: 1, Pitch: k.pitch, Starts: 1}})
			if err == nil {
				c.Fail("no error, %v", s)
			}
			c.Obs(err)
		}})
	}
	jobs = append(jobs, job{"error nil", func(c *Case) {
		if s, err := thread.Screw(1, nil); err == nil {
			c.Fail("no error, %v", s)
		}
		c.Obs("nil")
	}})
	t.Par(len(jobs), func(i int) { t.Case(jobs[i].name, jobs[i].run) })
}

// rounded is a vertex of a reference polygon.
type rounded struct {
	p r2.Vec
	r float64
}

// roundedPoly is the polygon with its corners replaced with 5 facets of an arc.
func roundedPoly(v []rounded) (out []r2.Vec) {
	for i, q := range v {
		if q.r == 0 {
			out = append(out, q.p)
			continue
		}
		o, _ := refRound(v[(i+len(v)-1)%len(v)].p, q.p, v[(i+1)%len(v)].p, q.r, 5)
		out = append(out, o...)
	}
	return out
}

func isoProfile(d, p float64, ext bool) []rounded {
	h := p * math.Sqrt(3) / 2 // height of the fundamental triangle
	maj := d / 2
	if ext {
		root, r := maj-h*7/8, p/8/math.Cos(math.Pi/6)
		return []rounded{{v2(p, 0), 0}, {v2(p, maj+h/8), 0}, {v2(p/2, root), r}, {v2(p/16, maj), 0},
			{v2(-p/16, maj), 0}, {v2(-p/2, root), r}, {v2(-p, maj+h/8), 0}, {v2(-p, 0), 0}}
	}
	min, r := maj-h*5/8, p/16/math.Cos(math.Pi/6)
	return []rounded{{v2(p, 0), 0}, {v2(p, min), 0}, {v2(p*3/8, min), 0}, {v2(0, maj+h/8), r}, {v2(-p*3/8, min), 0}, {v2(-p, min), 0}, {v2(-p, 0), 0}}
}

func acmeProfile(d, p float64) []rounded {
	tan := math.Tan(14.5 * math.Pi / 180)
	top, bot := p/4-p/4*tan, p/4+p/4*tan
	r, w := d/2, math.Max(d/2, p)
	return []rounded{{v2(w, 0), 0}, {v2(w, r-p/2), 0}, {v2(bot, r-p/2), 0}, {v2(top, r), 0}, {v2(-top, r), 0}, {v2(-bot, r-p/2), 0}, {v2(-w, r-p/2), 0}, {v2(-w, 0), 0}}
}

func buttressProfile(d, p float64, a, root, b float64) []rounded {
	t1 := math.Tan(7 * math.Pi / 180)
	h0 := p / (1 + t1)
	h1 := 0.3*p + h0/2
	r := d / 2
	return []rounded{{v2(p, 0), 0}, {v2(p, r), 0}, {v2(p/2-(h0-h1)*t1, r), a}, {v2(h0-p/2, r-h1), root}, {v2(h0-h1-p/2, r), b}, {v2(-p, r), 0}, {v2(-p, 0), 0}}
}

func runC32(t *T) {
	nx, ny := t.N(121, 241), t.N(161, 321)
	type job struct {
		name string
		th   thread.Threader
		ref  []rounded
		d, p float64
	}
	var jobs []job
	for _, d := range []float64{1, 1.6, 3, 4, 5, 8, 12, 20, 56} {
		for _, q := range []float64{0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.6} {
			d, p := d, d*q
			add := func(name string, th thread.Threader, ref []rounded) {
				jobs = append(jobs, job{fmt.Sprintf("%s D=%v P=%.3f", name, d, p), th, ref, d, p})
			}
			add("ISO ext", thread.ISO{D: d, P: p, Ext: true}, isoProfile(d, p, true))
			add("ISO int", thread.ISO{D: d, P: p}, isoProfile(d, p, false))
			add("UTS ext", thread.UTS{D: d, TPI: 1 / p, Ext: true}, isoProfile(d, p, true))
			add("UTS int", thread.UTS{D: d, TPI: 1 / p}, isoProfile(d, p, false))
			add("NPT", thread.NPT{D: d, TPI: 1 / p}, isoProfile(d, p, false))
			add("Acme", thread.Acme{D: d, P: p}, acmeProfile(d, p))
			add("ANSI buttress", thread.ANSIButtress{D: d, P: p}, buttressProfile(d, p, 0, 0.0714*p, 0))
			add("plastic buttress", thread.PlasticButtress{D: d, P: p}, buttressProfile(d, p, 0.05*p, 0.15*p, 0.15*p))
		}
	}
	t.Par(len(jobs), func(i int) {
		j := jobs[i]
		t.Case(j.name, func(c *Case) {
			k := j.th.ThreadParams()
			if !near(k.Radius, j.d/2, 1e-9) || !near(k.Pitch, j.p, 1e-9) || k.Starts != 1 {
				c.Fail("parameters %+v", k)
			}
			taper := 0.0
			if _, ok := j.th.(thread.NPT); ok {
				taper = math.Atan(1. / 32)
			}
			if !near(k.Taper, taper, 1e-9) {
				c.Fail("taper %v, want %v", k.Taper, taper)
			}
			s, err := j.th.Thread()
			if err != nil {
				c.Fail("%v", err)
			}
			ref := roundedPoly(j.ref)
			deep := 0
			for x := 0; x < nx; x++ {
				for y := 0; y < ny; y++ {
					q := v2(j.p*(float64(x)/float64(nx-1)-0.5)*0.9999, j.d/2+j.p*(1.6*float64(y)/float64(ny-1)-1.2))
					if q.Y <= 0 {
						continue
					}
					got, want := s.Evaluate(q), polyDist(ref, q)
					c.ObsF(got)
					if e := 1e-9 * j.d; math.Abs(want) > e && (got < 0) != (want < 0) {
						c.Fail("value %v at %v, want %v", got, q, want)
					}
					// the distance to the flanks, away from what is beyond one pitch
					if math.Abs(want) < 0.03*j.p && math.Abs(q.X) < 0.4*j.p {
						deep++
						if !near(got, want, 1e-8) {
							c.Fail("value %v at %v, want %v", got, q, want)
						}
					}
				}
			}
			c.Eval(nx * ny)
			if deep < 50 {
				c.Fail("harness: %d points near the contour", deep)
			}
		})
	})
}
