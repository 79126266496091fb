package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/obj2"
)

func init() {
	register("C34", "exploration",
		"all pairs of vectors with components of -3..3 (thorough -5..5) and multiples of them by up to 2^40, all scalars of that range; components at and around 26 integers up to 2^42 in every place; racks of 1..120 HP in eighths and 1..12.6 U",
		"a case is a vector, everything else is enumerated against it; distinct by the values", runC34)
}

func runC34(t *T) {
	m := t.N(3, 5)
	var small []sdf.V3i
	for i := -m; i <= m; i++ {
		for j := -m; j <= m; j++ {
			for k := -m; k <= m; k++ {
				small = append(small, sdf.V3i{i, j, k})
			}
		}
	}
	t.Par(len(small), func(i int) {
		a := small[i]
		t.Case(fmt.Sprintf("vector %v", a), func(c *Case) {
			for _, scale := range []int{1, 1000, 1 << 31, 1 << 40} {
				for _, b := range small {
					a, b := sdf.V3i{a[0] * scale, a[1] * scale, a[2] * scale}, sdf.V3i{b[0] * scale, b[1] * scale, b[2] * scale}
					a2, b2 := sdf.V2i{a[0], a[1]}, sdf.V2i{b[0], b[1]}
					keep := [4]interface{}{a, b, a2, b2}
					check := func(op string, got, want interface{}) {
						if got != want {
							c.Fail("%v %s %v is %v, want %v", a, op, b, got, want)
						}
					}
					check("Add", a.Add(b), sdf.V3i{a[0] + b[0], a[1] + b[1], a[2] + b[2]})
					check("Add (2D)", a2.Add(b2), sdf.V2i{a[0] + b[0], a[1] + b[1]})
					s := b[0]
					check("AddScalar X", a.AddScalar(s), sdf.V3i{a[0] + s, a[1] + s, a[2] + s})
					check("AddScalar X (2D)", a2.AddScalar(s), sdf.V2i{a[0] + s, a[1] + s})
					check("SubScalar X", a.SubScalar(s), sdf.V3i{a[0] - s, a[1] - s, a[2] - s})
					check("SubScalar X (2D)", a2.SubScalar(s), sdf.V2i{a[0] - s, a[1] - s})
					check("ToV3", a.ToV3(), v3(float64(a[0]), float64(a[1]), float64(a[2])))
					check("R3FromI", sdf.R3FromI(a), v3(float64(a[0]), float64(a[1]), float64(a[2])))
					check("R2FromI", sdf.R2FromI(a2), v2(float64(a[0]), float64(a[1])))
					check("ToV3 and R3ToI", sdf.R3ToI(a.ToV3()), a)
					check("R2FromI and R2ToI", sdf.R2ToI(sdf.R2FromI(a2)), a2)
					if keep != [4]interface{}{a, b, a2, b2} {
						c.Fail("%v, %v: an operation changed its operands", a, b)
					}
					c.ObsF(float64(a[0]*31 + a[1]*17 + a[2]))
				}
			}
			c.Eval(4 * len(small))
		})
	})
	// components with many digits
	var ints []int
	for _, n := range []int{0, 1, 5, 127, 255, 32767, 65535, 1 << 24, 1<<24 + 2, 1 << 31, 1<<32 + 7, 123456789012, 1<<42 - 2} {
		for d := -1; d <= 1; d++ {
			ints = append(ints, n+d, -n-d)
		}
	}
	t.Par(len(ints), func(i int) {
		a := ints[i]
		t.Case(fmt.Sprintf("integer %d", a), func(c *Case) {
			for j, b := range ints {
				x, y := ints[(j*7+3)%len(ints)], ints[(j*5+i)%len(ints)]
				for k := 0; k < 3; k++ {
					var p, q, sum, less, plus sdf.V3i
					p[k], p[(k+1)%3], p[(k+2)%3] = a, x, y
					q[k], q[(k+1)%3], q[(k+2)%3] = b, y, x
					for l := range p {
						sum[l], less[l], plus[l] = p[l]+q[l], p[l]-b, p[l]+b
					}
					p2, q2 := sdf.V2i{p[0], p[1]}, sdf.V2i{q[0], q[1]}
					check := func(op string, got, want interface{}) {
						if got != want {
							c.Fail("%v %s %v is %v, want %v", p, op, q, got, want)
						}
					}
					check("Add", p.Add(q), sum)
					check("Add (2D)", p2.Add(q2), sdf.V2i{sum[0], sum[1]})
					check(fmt.Sprintf("AddScalar(%d)", b), p.AddScalar(b), plus)
					check(fmt.Sprintf("SubScalar(%d)", b), p.SubScalar(b), less)
					check(fmt.Sprintf("AddScalar(%d) (2D)", b), p2.AddScalar(b), sdf.V2i{plus[0], plus[1]})
					check(fmt.Sprintf("SubScalar(%d) (2D)", b), p2.SubScalar(b), sdf.V2i{less[0], less[1]})
					f := v3(float64(p[0]), float64(p[1]), float64(p[2]))
					check("ToV3", p.ToV3(), f)
					check("R3FromI", sdf.R3FromI(p), f)
					check("R2FromI", sdf.R2FromI(p2), v2(f.X, f.Y))
					check("R3ToI", sdf.R3ToI(f), p)
					check("R2ToI", sdf.R2ToI(v2(f.X, f.Y)), p2)
				}
			}
			c.ObsF(float64(a))
			c.Eval(len(ints) * 3)
		})
	})
	// conversions drop the fraction
	var xs []float64
	for _, n := range []float64{0, 1, 2, 3, 7, 100, 1e6, 1 << 31, 1<<31 + 1, 1 << 40} {
		for _, f := range []float64{0, 0.25, 0.5, 0.75} {
			xs = append(xs, n+f, -n-f)
		}
		if n > 0 {
			xs = append(xs, math.Nextafter(n, 0), -math.Nextafter(n, 0), math.Nextafter(n, 2*n), -math.Nextafter(n, 2*n))
		}
	}
	t.Par(len(xs), func(i int) {
		x := xs[i]
		t.Case(fmt.Sprintf("component %v", x), func(c *Case) {
			for _, y := range xs {
				for _, z := range xs {
					if got, want := sdf.R3ToI(v3(x, y, z)), (sdf.V3i{int(math.Trunc(x)), int(math.Trunc(y)), int(math.Trunc(z))}); got != want {
						c.Fail("R3ToI(%v, %v, %v) is %v, want %v", x, y, z, got, want)
					}
				}
				if got, want := sdf.R2ToI(v2(x, y)), (sdf.V2i{int(math.Trunc(x)), int(math.Trunc(y))}); got != want {
					c.Fail("R2ToI(%v, %v) is %v, want %v", x, y, got, want)
				}
			}
			c.ObsF(x)
			c.Eval(len(xs) * len(xs))
		})
	})
	// sizes of racks in millimetres
	for u := 0.5; u <= 12; u += 0.5 {
		u := u
		t.Case(fmt.Sprintf("rack of %v U", u), func(c *Case) {
			for hp := 1.0; hp <= 120; hp += 0.125 {
				u := u + math.Mod(hp, 1)*0.75
				k := obj2.EuroRackParams{U: u, HP: hp}
				if w, h := k.HPSize(), k.USize(); !near(w, 5.08*hp-0.24, 1e-9) || !near(h, 44.45*u-4.85, 1e-9) {
					c.Fail("%v HP by %v U is %v by %v", hp, u, w, h)
				}
				c.ObsF(k.HPSize() + 1000*k.USize())
			}
			c.Eval(953)
		})
	}
}
