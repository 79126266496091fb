package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

func init() {
	register("C12", "exploration",
		"all shapes of the catalogue: 2D and 3D primitives, every combinator applied to each, and every combinator applied to those (2 levels; 3 levels in the thorough tier on a smaller set), assemblies and threads; the faces of the bounds enlarged by 4 amounts sampled on a 25x25 (33x33) lattice, descents from the 3 lowest of 7x7 points of each face to a local minimum, and 13x13x13 points of a box twice the size",
		"a case is a shape; a point outside of the bounds must not be inside of the shape; distinct by the bounds and the values", runC12)
	register("C15", "exploration",
		"the distance preserving shapes of the catalogue at 2 levels of composition (3 in the thorough tier), on lattices of 13x13x13 (17x17x17) and 41x41 (61x61) points, all pairs of neighbours in 13 directions at 2 distances",
		"a case is a shape; its value may not change by more than the distance of the two points; distinct by the values", runC15)
}

// shape3 and shape2 are catalogue entries.
type shape3 struct {
	name  string
	s     sdf.SDF3
	exact bool // value is the exact distance outside
	lip   bool // value changes at most by the distance between points
}

type shape2 struct {
	name  string
	s     sdf.SDF2
	exact bool
	lip   bool
}

func ell() []r2.Vec {
	return []r2.Vec{v2(-1, -1), v2(1.5, -1), v2(1.5, -0.25), v2(0, -0.25), v2(0, 1), v2(-1, 1)}
}

func prims2() (out []shape2) {
	add := func(name string, s sdf.SDF2) { out = append(out, shape2{name, s, true, true}) }
	add("circle", must2.Circle(0.75))
	add("box", must2.Box(v2(2, 1), 0))
	add("roundbox", must2.Box(v2(1, 1.5), 0.25))
	add("line", must2.Line(2, 0.25))
	add("ell", must2.Polygon(ell()))
	add("hexagon", must2.Polygon(must2.Nagon(6, 1)))
	add("offcircle", sdf.Transform2D(must2.Circle(0.5), sdf.Translate2D(v2(1.25, -0.5))))
	add("offell", sdf.Transform2D(must2.Polygon(ell()), sdf.Translate2D(v2(2, 0.5))))
	add("farbox", sdf.Transform2D(must2.Box(v2(3, 2), 0.1), sdf.Translate2D(v2(-30, -50))))
	return out
}

func prims3() (out []shape3) {
	add := func(name string, s sdf.SDF3) { out = append(out, shape3{name, s, true, true}) }
	add("sphere", must3.Sphere(0.75))
	add("box", must3.Box(v3(2, 1, 1.5), 0))
	add("roundbox", must3.Box(v3(1, 1.5, 2), 0.25))
	add("cylinder", must3.Cylinder(2, 0.5, 0))
	add("roundcylinder", must3.Cylinder(1, 1, 0.25))
	if c, err := form3.Capsule(2, 0.5); err == nil {
		add("capsule", c)
	}
	add("cone", must3.Cone(2, 1, 0.25, 0))
	add("roundcone", must3.Cone(1.5, 0.5, 1, 0.125))
	add("offbox", sdf.Transform3D(must3.Box(v3(1, 0.5, 0.75), 0), sdf.Translate3D(v3(1, -0.5, 2))))
	add("farbox", sdf.Transform3D(must3.Box(v3(3, 4, 2), 0.1), sdf.Translate3D(v3(-40, 25, -60))))
	return out
}

// unary2 applies every one operand combinator.
func unary2(a shape2) (out []shape2) {
	add := func(name string, exact, lip bool, s sdf.SDF2) {
		out = append(out, shape2{name + "(" + a.name + ")", s, exact && a.exact, lip && a.lip})
	}
	add("translate", true, true, sdf.Transform2D(a.s, sdf.Translate2D(v2(-0.7, 2.1))))
	add("rotate", true, true, sdf.Transform2D(a.s, sdf.Rotate2D(0.7)))
	add("move", true, true, sdf.Transform2D(a.s, sdf.Rotate2D(2.5).Mul(sdf.Translate2D(v2(0.5, -1))).Mul(sdf.MirrorY())))
	add("mirrorx", true, true, sdf.Transform2D(a.s, sdf.MirrorX()))
	add("stretch", false, false, sdf.Transform2D(a.s, sdf.Rotate2D(0.3).Mul(sdf.Scale2D(v2(2, 0.5)))))
	add("scale2", true, true, sdf.ScaleUniform2D(a.s, 2.5))
	add("scale.5", true, true, sdf.ScaleUniform2D(a.s, 0.4))
	add("center", true, true, sdf.Center2D(a.s))
	add("centerscale", true, true, sdf.CenterAndScale2D(a.s, 1.7))
	add("elongate", false, true, sdf.Elongate2D(a.s, v2(1, -0.5)))
	add("array", true, true, sdf.Array2D(a.s, sdf.V2i{3, 2}, v2(2.5, -1.5)))
	add("rotateunion", true, true, sdf.RotateUnion2D(a.s, 3, sdf.Rotate2D(1.1).Mul(sdf.Translate2D(v2(0.25, 0)))))
	add("rotatecopy1", false, false, sdf.RotateCopy2D(a.s, 1))
	add("rotatecopy5", false, false, sdf.RotateCopy2D(a.s, 5))
	add("lineof", true, true, sdf.LineOf2D(a.s, v2(-2, 1), v2(3, 2), "x.xx"))
	add("multi", true, true, sdf.Multi2D(a.s, []r2.Vec{v2(1, 0), v2(-3, 0.5), v2(0, -2)}))
	add("cut", false, true, sdf.Cut2D(a.s, v2(0.1, 0.2), v2(1, -0.5)))
	add("cutx", false, true, sdf.Cut2D(a.s, v2(0.1, 0.2), v2(1, 0)))
	add("cuty", false, true, sdf.Cut2D(a.s, v2(-0.1, 0.2), v2(0, -2)))
	if a.exact {
		add("offset", false, true, sdf.Offset2D(a.s, 0.3))
	}
	return out
}

func unary3(a shape3) (out []shape3) {
	add := func(name string, exact, lip bool, s sdf.SDF3) {
		out = append(out, shape3{name + "(" + a.name + ")", s, exact && a.exact, lip && a.lip})
	}
	add("translate", true, true, sdf.Transform3D(a.s, sdf.Translate3D(v3(-0.7, 2.1, 0.3))))
	add("rotate", true, true, sdf.Transform3D(a.s, sdf.Rotate3D(v3(1, -2, 0.5), 0.7)))
	add("move", true, true, sdf.Transform3D(a.s, sdf.RotateX(2.5).Mul(sdf.Translate3D(v3(0.5, -1, 0.25))).Mul(sdf.MirrorXeqY())))
	add("mirror", true, true, sdf.Transform3D(a.s, sdf.MirrorXY().Mul(sdf.MirrorXZ()).Mul(sdf.MirrorYZ())))
	add("stretch", false, false, sdf.Transform3D(a.s, sdf.RotateY(0.3).Mul(sdf.Scale3D(v3(2, 0.5, -1)))))
	add("scale2", true, true, sdf.ScaleUniform3D(a.s, 2.5))
	add("scale.5", true, true, sdf.ScaleUniform3D(a.s, 0.4))
	add("elongate", false, true, sdf.Elongate3D(a.s, v3(1, -0.5, 0.25)))
	add("array", true, true, sdf.Array3D(a.s, sdf.V3i{2, 3, 2}, v3(2.5, -1.5, 3)))
	add("rotateunion", true, true, sdf.RotateUnion3D(a.s, 3, sdf.RotateZ(1.1).Mul(sdf.Translate3D(v3(0.25, 0, 0.5)))))
	add("rotatecopy1", false, false, sdf.RotateCopy3D(a.s, 1))
	add("rotatecopy5", false, false, sdf.RotateCopy3D(a.s, 5))
	add("lineof", true, true, sdf.LineOf3D(a.s, v3(-2, 1, 0), v3(3, 2, 1), "x.xx"))
	add("multi", true, true, sdf.Multi3D(a.s, []r3.Vec{v3(1, 0, 0), v3(-3, 0.5, 1), v3(0, -2, 0.5)}))
	add("orient", true, true, sdf.Orient3D(a.s, v3(0, 0, 1), []r3.Vec{v3(1, 0, 0), v3(0, 0, -1), v3(-1, 1, 0.5)}))
	add("cut", false, true, sdf.Cut3D(a.s, v3(0.1, 0.2, 0), v3(1, -0.5, 0.3)))
	add("cutx", false, true, sdf.Cut3D(a.s, v3(-0.1, 0.2, 0), v3(-1, 0, 0)))
	add("cuty", false, true, sdf.Cut3D(a.s, v3(0.1, 0.2, 0), v3(0, 3, 0)))
	add("cutz", false, true, sdf.Cut3D(a.s, v3(0.1, 0.2, 0.1), v3(0, 0, 1)))
	if a.exact {
		add("offset", false, true, sdf.Offset3D(a.s, 0.3))
		add("shell", false, true, sdf.Shell3D(a.s, 0.4))
	}
	return out
}

// lift makes 3D shapes of a 2D shape.
func lift(a shape2, b shape2) (out []shape3) {
	add := func(name string, lip bool, s sdf.SDF3) {
		out = append(out, shape3{name + "(" + a.name + ")", s, false, lip && a.lip})
	}
	add("extrude", true, sdf.Extrude3D(a.s, 1.5))
	add("twist", false, sdf.TwistExtrude3D(a.s, 2, 1.9))
	add("twistback", false, sdf.TwistExtrude3D(a.s, 1, -5))
	add("scaleextrude", false, sdf.ScaleExtrude3D(a.s, 1.5, v2(0.5, 2)))
	add("scaletwist", false, sdf.ScaleTwistExtrude3D(a.s, 2, 1.2, v2(1.5, 0.6)))
	add("revolve", true, sdf.Revolve3D(a.s, 2*math.Pi))
	for i, th := range []float64{0.3, 1.7, math.Pi, 3.9, 5.5, 7} {
		add(fmt.Sprintf("revolve%d", i), true, sdf.Revolve3D(a.s, th))
	}
	if a.exact {
		add("extruderounded", true, sdf.ExtrudeRounded3D(a.s, 1.5, 0.25))
		if b.exact {
			add("loft:"+b.name, false, sdf.Loft3D(a.s, b.s, 1.5, 0.25))
		}
	}
	add("loft0:"+b.name, false, sdf.Loft3D(a.s, b.s, 2, 0))
	return out
}

func slices(a shape3) (out []shape2) {
	for i, n := range []r3.Vec{v3(0, 0, 1), v3(1, 0, 0), v3(0, -2, 0), v3(1, 1, 0), v3(0, 1, -1), v3(-1, 0, 0.5), v3(0.3, 1, 0.7)} {
		out = append(out, shape2{fmt.Sprintf("slice%d(%s)", i, a.name), sdf.Slice2D(a.s, v3(0.1, -0.05, 0.2), n), false, a.lip})
	}
	return out
}

func binary3(a, b shape3) (out []shape3) {
	add := func(name string, s sdf.SDF3) {
		out = append(out, shape3{name + "(" + a.name + "," + b.name + ")", s, name == "union" && a.exact && b.exact, a.lip && b.lip})
	}
	add("union", sdf.Union3D(a.s, b.s))
	add("difference", sdf.Difference3D(a.s, b.s))
	add("intersect", sdf.Intersect3D(a.s, b.s))
	return out
}

func binary2(a, b shape2) (out []shape2) {
	add := func(name string, s sdf.SDF2) {
		out = append(out, shape2{name + "(" + a.name + "," + b.name + ")", s, name == "union" && a.exact && b.exact, a.lip && b.lip})
	}
	add("union", sdf.Union2D(a.s, b.s))
	add("difference", sdf.Difference2D(a.s, b.s))
	add("intersect", sdf.Intersect2D(a.s, b.s))
	return out
}

// catalogue returns all compositions of up to 2 combinators, 3 for a part of them if deep.
func catalogue(deep bool) (c2 []shape2, c3 []shape3) {
	p2, p3 := prims2(), prims3()
	c2, c3 = append(c2, p2...), append(c3, p3...)
	var l2 []shape2
	var l3 []shape3
	for i, a := range p2 {
		l2 = append(l2, unary2(a)...)
		b := p2[(i+3)%len(p2)]
		l2 = append(l2, binary2(a, b)...)
		l3 = append(l3, lift(a, b)...)
	}
	for i, a := range p3 {
		l3 = append(l3, unary3(a)...)
		l3 = append(l3, binary3(a, p3[(i+2)%len(p3)])...)
		l2 = append(l2, slices(a)...)
	}
	c2, c3 = append(c2, l2...), append(c3, l3...)
	var m2 []shape2
	var m3 []shape3
	for i, a := range l2 {
		m2 = append(m2, unary2(a)...)
		m2 = append(m2, binary2(a, p2[i%len(p2)])...)
		m3 = append(m3, lift(a, p2[i%len(p2)])...)
	}
	for i, a := range l3 {
		m3 = append(m3, unary3(a)...)
		m3 = append(m3, binary3(a, l3[(i*7+3)%len(l3)])...)
		if deep {
			m2 = append(m2, slices(a)...)
		}
	}
	c2, c3 = append(c2, m2...), append(c3, m3...)
	if deep {
		for i, a := range m2 {
			if i%9 == 0 {
				c2 = append(c2, unary2(a)...)
			}
			if i%17 == 0 {
				c3 = append(c3, lift(a, p2[i%len(p2)])...)
			}
		}
		for i, a := range m3 {
			if i%29 == 0 {
				c3 = append(c3, unary3(a)...)
			}
		}
	}
	return c2, c3
}

// assemblies are the parts built from the other shapes.
func assemblies() (out []shape3, errs []string) {
	add := func(name string, s sdf.SDF3, err error) {
		if err != nil {
			errs = append(errs, name+": "+err.Error())
			return
		}
		out = append(out, shape3{name, s, false, false})
	}
	threads := []struct {
		name string
		t    thread.Threader
	}{
		{"ISO ext", thread.ISO{D: 6, P: 1, Ext: true}}, {"ISO int", thread.ISO{D: 10, P: 1.5}},
		{"Acme", thread.Acme{D: 8, P: 2}}, {"ANSI", thread.ANSIButtress{D: 12, P: 2}},
		{"plastic", thread.PlasticButtress{D: 20, P: 3}}, {"UTS", thread.UTS{D: 10, TPI: 0.5, Ext: true}},
		{"NPT", thread.NPT{D: 21, TPI: 0.5, F2F: 22}},
	}
	for _, th := range threads {
		for _, l := range []float64{1.5, 5, 12} {
			s, err := thread.Screw(l, th.t)
			add(fmt.Sprintf("screw %s %v", th.name, l), s, err)
		}
		for _, st := range []thread.NutStyle{thread.NutHex, thread.NutKnurl} {
			s, err := thread.Bolt(thread.BoltParms{Thread: th.t, Style: st, TotalLength: 12, ShankLength: 4})
			add(fmt.Sprintf("bolt %s %v", th.name, st), s, err)
		}
		for _, st := range []thread.NutStyle{thread.NutCircular, thread.NutHex, thread.NutKnurl} {
			s, err := thread.Nut(thread.NutParms{Thread: th.t, Style: st})
			add(fmt.Sprintf("nut %s %v", th.name, st), s, err)
		}
	}
	for _, r := range []string{"", "t", "b", "tb"} {
		s, err := thread.HexHead(5, 4, r)
		add("hexhead "+r, s, err)
	}
	kn, err := thread.Knurl(thread.KnurlParams{Length: 4, Radius: 3, Pitch: 1, Height: 0.3, Theta: 0.7})
	add("knurl", kn, err)
	for webs := 0; webs <= 4; webs++ {
		for _, d := range []float64{-3, 0, 4} {
			s, err := obj3.Standoff(obj3.StandoffParams{PillarHeight: 10, PillarDiameter: 6, HoleDepth: d, HoleDiameter: 2.5,
				NumberWebs: webs, WebHeight: 12, WebDiameter: 14, WebWidth: 1.5})
			add(fmt.Sprintf("standoff webs=%d hole=%v", webs, d), s, err)
		}
	}
	pp := obj2.PanelParams{Size: v2(30, 20), CornerRadius: 2, HoleDiameter: 3, HoleMargin: [4]float64{4, 5, 6, 7},
		HolePattern: [4]string{"x.x", "", "xx", "x"}, Thickness: 2}
	s, err := obj3.Panel(pp)
	add("panel", s, err)
	for _, hp := range []float64{4, 10} {
		s, err = obj3.EuroRackPanel(obj2.EuroRackParams{U: 3, HP: hp, CornerRadius: 1, Thickness: 2, Ridge: hp > 5})
		add(fmt.Sprintf("eurorack %v", hp), s, err)
	}
	s, err = obj3.PanelHole(&obj3.PanelHoleParams{Diameter: 6, Thickness: 3, Indent: v3(1, 2, 1.5), Offset: 5, Orientation: 0.8})
	add("panelhole", s, err)
	s, err = form3.ChamferedCylinder(must3.Cylinder(4, 1.5, 0), 0.1, 0.3)
	add("chamferedcylinder", s, err)
	return out, errs
}

func thread2() (out []shape2) {
	for name, th := range map[string]thread.Threader{"iso ext": thread.ISO{D: 6, P: 1, Ext: true}, "iso int": thread.ISO{D: 6, P: 1},
		"acme": thread.Acme{D: 8, P: 2}, "ansi": thread.ANSIButtress{D: 12, P: 2}, "plastic": thread.PlasticButtress{D: 20, P: 3}} {
		if s, err := th.Thread(); err == nil {
			out = append(out, shape2{"profile " + name, s, true, true})
		}
	}
	if h, err := form2.Nagon(5, 2); err == nil {
		out = append(out, shape2{"pentagon", must2.Polygon(h), true, true})
	}
	return out
}

// sweeps applies each constructor with many values of its arguments to a few operands.
func sweeps() (o2 []shape2, o3 []shape3) {
	a2 := []shape2{prims2()[1], prims2()[4], prims2()[7], {"left", sdf.Transform2D(must2.Box(v2(1, 0.5), 0), sdf.Translate2D(v2(-1.25, 2))), true, true}, {"bar", must2.Box(v2(0.5, 3), 0), true, true}}
	a3 := []shape3{prims3()[1], prims3()[8], {"far", sdf.Transform3D(must3.Cone(1, 0.5, 0.1, 0), sdf.Translate3D(v3(-3, -2, -4))), true, true}}
	add2 := func(a shape2, lip bool, s sdf.SDF2, format string, args ...interface{}) {
		o2 = append(o2, shape2{fmt.Sprintf(format, args...) + "(" + a.name + ")", s, false, lip})
	}
	add3 := func(name string, lip bool, s sdf.SDF3, format string, args ...interface{}) {
		o3 = append(o3, shape3{fmt.Sprintf(format, args...) + "(" + name + ")", s, false, lip})
	}
	steps := []r3.Vec{v3(2.5, -1.5, 3), v3(-2, 0, 0.5), v3(0, 0, 0), v3(-0.3, 4, -0.7)}
	for _, a := range a2 {
		for i := 1; i <= 24; i++ {
			for _, d := range []float64{0, 0.02} {
				th := 2*math.Pi*float64(i)/24 + d
				add3(a.name, true, sdf.Revolve3D(a.s, th), "revolve %v", th)
				add2(a, true, sdf.Transform2D(a.s, sdf.Rotate2D(th)), "rotate %v", th)
			}
		}
		for _, h := range []float64{0.01, 1, 30} {
			for _, tw := range []float64{-20, -3.1, -1.4, -0.4, 0.01, 0.8, 1.2, 1.6, 4, 7} {
				add3(a.name, false, sdf.TwistExtrude3D(a.s, h, tw), "twist %v %v", h, tw)
			}
			for _, x := range []float64{0.1, 0.5, 1, 1.5, 4} {
				for _, y := range []float64{0.1, 0.5, 1, 1.5, 4} {
					add3(a.name, false, sdf.ScaleExtrude3D(a.s, h, v2(x, y)), "scale %v %v %v", h, x, y)
					for _, tw := range []float64{-2, 0.5, 1.2, 9} {
						add3(a.name, false, sdf.ScaleTwistExtrude3D(a.s, h, tw, v2(x, y)), "scaletwist %v %v %v %v", h, tw, x, y)
					}
				}
			}
			for _, k := range []float64{0, 0.1, 0.3, 0.5} {
				add3(a.name, true, sdf.ExtrudeRounded3D(a.s, h, k*h), "extruderounded %v %v", h, k)
				for _, b := range a2 {
					add3(a.name, false, sdf.Loft3D(a.s, b.s, h, k*h), "loft %s %v %v", b.name, h, k)
				}
			}
		}
		for _, st := range steps {
			for nx := 1; nx <= 4; nx++ {
				for ny := 1; ny <= 4; ny++ {
					add2(a, true, sdf.Array2D(a.s, sdf.V2i{nx, ny}, v2(st.X, st.Y)), "array %d %d %v", nx, ny, st)
				}
			}
			for n := 1; n <= 9; n++ {
				add2(a, true, sdf.RotateUnion2D(a.s, n, sdf.Rotate2D(0.7*st.X).Mul(sdf.Translate2D(v2(0.2*st.Y, 0.1*st.Z)))), "rotateunion %d %v", n, st)
			}
			add2(a, true, sdf.Elongate2D(a.s, v2(st.X, st.Y)), "elongate %v", st)
			for _, p := range []string{"x", ".x", "x.", "..x", "x..x", ".xx.", "xxxxxxx"} {
				add2(a, true, sdf.LineOf2D(a.s, v2(st.Z, st.X), v2(st.Y, 1), p), "line %v %q", st, p)
			}
		}
		for n := 1; n <= 12; n++ {
			add2(a, false, sdf.RotateCopy2D(a.s, n), "rotatecopy %d", n)
		}
		for _, k := range []float64{1e-3, 0.3, 1, 7, 1e4} {
			add2(a, true, sdf.ScaleUniform2D(a.s, k), "scale %v", k)
			add2(a, true, sdf.CenterAndScale2D(a.s, k), "centerscale %v", k)
			add2(a, true, sdf.Offset2D(a.s, k), "offset %v", k)
		}
	}
	for _, a := range a3 {
		for i, n := range dirs() {
			for _, at := range []r3.Vec{{}, v3(0.5, -0.25, 0.1), v3(-40, 7, 3)} {
				o2 = append(o2, shape2{fmt.Sprintf("slice %v %v (%s)", at, n, a.name), sdf.Slice2D(a.s, at, r3.Scale(0.1+float64(i%5), n)), false, true})
			}
			add3(a.name, true, sdf.Transform3D(a.s, sdf.Rotate3D(n, 0.3+0.5*float64(i))), "rotate %v", n)
			add3(a.name, true, sdf.Orient3D(a.s, v3(1, 0.5, -1), []r3.Vec{n}), "orient %v", n)
			add3(a.name, true, sdf.Orient3D(a.s, v3(0, 0, 1), []r3.Vec{n, v3(n.Y, n.Z, n.X)}), "orients %v", n)
			add3(a.name, true, sdf.Multi3D(a.s, []r3.Vec{r3.Scale(3, n), r3.Scale(-0.5, n)}), "multi %v", n)
		}
		for _, st := range steps {
			for nx := 1; nx <= 3; nx++ {
				for ny := 1; ny <= 3; ny++ {
					for nz := 1; nz <= 3; nz++ {
						add3(a.name, true, sdf.Array3D(a.s, sdf.V3i{nx, ny, nz}, st), "array %d %d %d %v", nx, ny, nz, st)
					}
				}
			}
			for n := 1; n <= 9; n++ {
				add3(a.name, true, sdf.RotateUnion3D(a.s, n, sdf.RotateZ(0.7*st.X).Mul(sdf.Translate3D(v3(0.2*st.Y, 0.1*st.Z, 0.3*st.X)))), "rotateunion %d %v", n, st)
				add3(a.name, true, sdf.RotateUnion3D(a.s, n, sdf.Rotate3D(r3.Add(st, v3(0, 0, 1)), 0.9)), "rotateunion3 %d %v", n, st)
			}
			add3(a.name, true, sdf.Elongate3D(a.s, st), "elongate %v", st)
			for _, p := range []string{"x", ".x", "x.", "..x", "x..x", ".xx.", "xxxxxxx"} {
				add3(a.name, true, sdf.LineOf3D(a.s, v3(st.Z, st.X, 0), v3(st.Y, 1, -st.Z), p), "line %v %q", st, p)
			}
		}
		for n := 1; n <= 12; n++ {
			add3(a.name, false, sdf.RotateCopy3D(a.s, n), "rotatecopy %d", n)
		}
		for _, k := range []float64{1e-3, 0.3, 1, 7, 1e4} {
			add3(a.name, true, sdf.ScaleUniform3D(a.s, k), "scale %v", k)
			add3(a.name, true, sdf.Offset3D(a.s, k), "offset %v", k)
			add3(a.name, true, sdf.Shell3D(a.s, k), "shell %v", k)
		}
		for i := 0; i < 8; i++ {
			sc := v3([]float64{0.5, -2}[i&1], []float64{1, -1}[i>>1&1], []float64{3, -0.25}[i>>2&1])
			add3(a.name, false, sdf.Transform3D(a.s, sdf.Scale3D(sc)), "stretch %v", sc)
			add3(a.name, false, sdf.Transform3D(a.s, sdf.Scale3D(sc).Mul(sdf.RotateX(0.6))), "stretch rotated %v", sc)
		}
	}
	return o2, o3
}

func inside3(b r3.Box, p r3.Vec, e float64) bool {
	return p.X >= b.Min.X-e && p.Y >= b.Min.Y-e && p.Z >= b.Min.Z-e && p.X <= b.Max.X+e && p.Y <= b.Max.Y+e && p.Z <= b.Max.Z+e
}

func lerp(a, b, t float64) float64 { return a + t*(b-a) }

func bounds3(c *Case, s sdf.SDF3, n int) {
	b := s.Bounds()
	sz := r3.Sub(b.Max, b.Min)
	for _, x := range []float64{sz.X, sz.Y, sz.Z} {
		if !(x >= 0) || math.IsInf(x, 0) {
			c.Fail("bounds %v", b)
		}
	}
	m := math.Max(sz.X, math.Max(sz.Y, sz.Z))
	c.Obs(b)
	at := func(p r3.Vec, where string) {
		d := s.Evaluate(p)
		c.ObsF(d)
		if math.IsNaN(d) {
			c.Fail("value at %v is NaN", p)
		}
		if d <= 0 {
			c.Fail("value at %v is %v, %s the bounds %v", p, d, where, b)
		}
	}
	// just outside: 6 faces of the bounds enlarged by e
	for _, e := range []float64{1e-6, 0.01, 0.06, 0.3} {
		lo := r3.Sub(b.Min, v3(e*m, e*m, e*m))
		hi := r3.Add(b.Max, v3(e*m, e*m, e*m))
		for i := 0; i < n; i++ {
			u := float64(i) / float64(n-1)
			for j := 0; j < n; j++ {
				w := float64(j) / float64(n-1)
				for _, q := range [2]r3.Vec{lo, hi} {
					at(v3(q.X, lerp(lo.Y, hi.Y, u), lerp(lo.Z, hi.Z, w)), "outside of")
					at(v3(lerp(lo.X, hi.X, u), q.Y, lerp(lo.Z, hi.Z, w)), "outside of")
					at(v3(lerp(lo.X, hi.X, u), lerp(lo.Y, hi.Y, w), q.Z), "outside of")
				}
			}
		}
		c.Eval(6 * n * n)
	}
	// the lowest value on each face just outside, from the lattice and every local step which lowers it
	lo, hi := r3.Sub(b.Min, v3(1e-6*m, 1e-6*m, 1e-6*m)), r3.Add(b.Max, v3(1e-6*m, 1e-6*m, 1e-6*m))
	for face := 0; face < 6; face++ {
		q := [2]r3.Vec{lo, hi}[face&1]
		on := func(u, w float64) r3.Vec {
			switch face >> 1 {
			case 0:
				return v3(q.X, lerp(lo.Y, hi.Y, u), lerp(lo.Z, hi.Z, w))
			case 1:
				return v3(lerp(lo.X, hi.X, u), q.Y, lerp(lo.Z, hi.Z, w))
			}
			return v3(lerp(lo.X, hi.X, u), lerp(lo.Y, hi.Y, w), q.Z)
		}
		descend(7, func(u, w float64) float64 { return s.Evaluate(on(u, w)) }, func(u, w float64) { at(on(u, w), "outside of") })
	}
	ctr := r3.Scale(0.5, r3.Add(b.Min, b.Max))
	for _, g := range grid3(13, 1) {
		p := v3(ctr.X+g.X*sz.X, ctr.Y+g.Y*sz.Y, ctr.Z+g.Z*sz.Z)
		if !inside3(b, p, 1e-6*m) {
			at(p, "outside of")
		}
	}
}

// descend walks from the 3 lowest of n x n points of the unit square to local minima of f, and calls g there.
func descend(n int, f func(u, w float64) float64, g func(u, w float64)) {
	type pt struct{ u, w, d float64 }
	var best []pt
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			u, w := float64(i)/float64(n-1), float64(j)/float64(n-1)
			best = append(best, pt{u, w, f(u, w)})
		}
	}
	sort.SliceStable(best, func(i, j int) bool { return best[i].d < best[j].d })
	for _, p := range best[:3] {
		for h := 0.5 / float64(n-1); h > 1e-5; h /= 2 {
			for moves := 0; moves < 20; moves++ {
				q := p
				for k := 0; k < 8; k++ {
					u := math.Max(0, math.Min(1, p.u+h*float64([8]int{1, -1, 0, 0, 1, 1, -1, -1}[k])))
					w := math.Max(0, math.Min(1, p.w+h*float64([8]int{0, 0, 1, -1, 1, -1, 1, -1}[k])))
					if d := f(u, w); d < q.d {
						q = pt{u, w, d}
					}
				}
				if q == p {
					break
				}
				p = q
			}
		}
		g(p.u, p.w)
	}
}

func bounds2(c *Case, s sdf.SDF2, n int) {
	b := s.Bounds()
	sz := r2.Sub(b.Max, b.Min)
	if !(sz.X >= 0) || !(sz.Y >= 0) || math.IsInf(sz.X, 0) || math.IsInf(sz.Y, 0) {
		c.Fail("bounds %v", b)
	}
	m := math.Max(sz.X, sz.Y)
	c.Obs(b)
	at := func(p r2.Vec) {
		d := s.Evaluate(p)
		c.ObsF(d)
		if math.IsNaN(d) {
			c.Fail("value at %v is NaN", p)
		}
		if d <= 0 {
			c.Fail("value at %v is %v, outside of the bounds %v", p, d, b)
		}
	}
	for _, e := range []float64{1e-6, 0.01, 0.06, 0.3} {
		lo := r2.Sub(b.Min, v2(e*m, e*m))
		hi := r2.Add(b.Max, v2(e*m, e*m))
		for i := 0; i < n; i++ {
			u := float64(i) / float64(n-1)
			for _, q := range [2]r2.Vec{lo, hi} {
				at(v2(q.X, lerp(lo.Y, hi.Y, u)))
				at(v2(lerp(lo.X, hi.X, u), q.Y))
			}
		}
		c.Eval(4 * n)
	}
	lo, hi := r2.Sub(b.Min, v2(1e-6*m, 1e-6*m)), r2.Add(b.Max, v2(1e-6*m, 1e-6*m))
	for face := 0; face < 4; face++ {
		q := [2]r2.Vec{lo, hi}[face&1]
		on := func(u, _ float64) r2.Vec {
			if face < 2 {
				return v2(q.X, lerp(lo.Y, hi.Y, u))
			}
			return v2(lerp(lo.X, hi.X, u), q.Y)
		}
		descend(13, func(u, w float64) float64 { return s.Evaluate(on(u, w)) }, func(u, w float64) { at(on(u, w)) })
	}
	ctr := r2.Scale(0.5, r2.Add(b.Min, b.Max))
	for _, g := range grid2(31, 1) {
		p := v2(ctr.X+g.X*sz.X, ctr.Y+g.Y*sz.Y)
		e := 1e-6 * m
		if p.X < b.Min.X-e || p.Y < b.Min.Y-e || p.X > b.Max.X+e || p.Y > b.Max.Y+e {
			at(p)
		}
	}
}

func runC12(t *T) {
	c2, c3 := catalogue(!t.quick)
	as, errs := assemblies()
	for _, e := range errs {
		t.Case(e, func(c *Case) { c.Fail("not built") })
	}
	c3 = append(c3, as...)
	c2 = append(c2, thread2()...)
	w2, w3 := sweeps()
	c2, c3 = append(c2, w2...), append(c3, w3...)
	for _, k := range []float64{0, -1} { // nothing: the empty shapes
		c3 = append(c3, shape3{fmt.Sprintf("revolve%v", k), sdf.Revolve3D(must2.Circle(1), k), false, false})
	}
	n := t.N(25, 33)
	t.note("%d 2D and %d 3D shapes", len(c2), len(c3))
	t.Par(len(c2), func(i int) {
		t.Case("2D "+c2[i].name, func(c *Case) { bounds2(c, c2[i].s, 8*n) })
	})
	t.Par(len(c3), func(i int) {
		t.Case("3D "+c3[i].name, func(c *Case) { bounds3(c, c3[i].s, n) })
	})
}

func runC15(t *T) {
	c2, c3 := catalogue(!t.quick)
	c2 = append(c2, thread2()...)
	w2, w3 := sweeps()
	c2, c3 = append(c2, w2...), append(c3, w3...)
	n2 := 0
	n3 := 0
	for _, s := range c2 {
		if s.lip {
			c2[n2] = s
			n2++
		}
	}
	for _, s := range c3 {
		if s.lip {
			c3[n3] = s
			n3++
		}
	}
	c2, c3 = c2[:n2], c3[:n3]
	t.note("%d 2D and %d 3D shapes", n2, n3)
	const slack = 1 + 1e-9
	t.Par(n2, func(i int) {
		t.Case("2D "+c2[i].name, func(c *Case) {
			s := c2[i].s
			b := s.Bounds()
			sz := r2.Sub(b.Max, b.Min)
			ctr := r2.Scale(0.5, r2.Add(b.Min, b.Max))
			h := 0.02 * (sz.X + sz.Y)
			for _, g := range grid2(t.N(41, 61), 0.9) {
				p := v2(ctr.X+g.X*sz.X, ctr.Y+g.Y*sz.Y)
				d := s.Evaluate(p)
				c.ObsF(d)
				for k := 0; k < 8; k++ {
					sn, cs := math.Sincos(float64(k)*math.Pi/8 + 0.1)
					for _, l := range [2]float64{h, 6 * h} {
						q := v2(p.X+l*cs, p.Y+l*sn)
						if e := s.Evaluate(q); !(math.Abs(e-d) <= l*slack+1e-12*(1+math.Abs(d))) {
							c.Fail("value %v at %v and %v at %v, which is %v away", d, p, e, q, l)
						}
					}
				}
				c.Eval(16)
			}
		})
	})
	ds := dirs()[:13]
	for i := range ds {
		ds[i] = r3.Unit(r3.Add(ds[i], v3(0.05, 0.02, -0.03)))
	}
	t.Par(n3, func(i int) {
		t.Case("3D "+c3[i].name, func(c *Case) {
			s := c3[i].s
			b := s.Bounds()
			sz := r3.Sub(b.Max, b.Min)
			ctr := r3.Scale(0.5, r3.Add(b.Min, b.Max))
			h := 0.02 * (sz.X + sz.Y + sz.Z)
			for _, g := range grid3(t.N(13, 17), 0.9) {
				p := v3(ctr.X+g.X*sz.X, ctr.Y+g.Y*sz.Y, ctr.Z+g.Z*sz.Z)
				d := s.Evaluate(p)
				c.ObsF(d)
				for _, u := range ds {
					for _, l := range [2]float64{h, 5 * h} {
						q := r3.Add(p, r3.Scale(l, u))
						if e := s.Evaluate(q); !(math.Abs(e-d) <= l*slack+1e-12*(1+math.Abs(d))) {
							c.Fail("value %v at %v and %v at %v, which is %v away", d, p, e, q, l)
						}
					}
				}
				c.Eval(26)
			}
		})
	})
}
