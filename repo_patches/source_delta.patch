From 2e3648c01c112bd86561d088b3a80c7777285f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 01/38] fix: RenderAll dropped triangles returned together with
 io.EOF

---
 render/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..a893515 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,11 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		// Triangles may be returned together with an error such as io.EOF.
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From 0a2a3ad570e9b8f2c139d67188594400af60ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 02/38] fix: Elongate2D elongates in both directions

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..16b2762 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -504,7 +504,7 @@ func Elongate2D(sdf SDF2, h r2.Vec) SDF2 {
 	s := elongate2{
 		sdf: sdf,
 		hp:  r2.Scale(0.5, h),
-		hn:  r2.Scale(0.5, h),
+		hn:  r2.Scale(-0.5, h),
 	}
 	// bounding box
 	bb := d2.Box(sdf.Bounds())
-- 
2.43.0


From 2451d2061e7854c4be9c74d2992f4084ebe22576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 03/38] fix: ScaleTwistExtrude scale slope

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 7303faf..57d7fed 100644
--- a/utils.go
+++ b/utils.go
@@ -233,7 +233,7 @@ func ScaleExtrude(height float64, scale r2.Vec) ExtrudeFunc {
 func ScaleTwistExtrude(height, twist float64, scale r2.Vec) ExtrudeFunc {
 	k := twist / height
 	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
-	m := r2.Sub(inv, d2.DivElem(r2.Vec{X: 1, Y: 1}, d2.Elem(height))) // slope
+	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
 	// m := inv.Sub(r2.Vec{1, 1}).DivScalar(height) // slope
 	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
 	// b := inv.DivScalar(2).AddScalar(0.5) // intercept
-- 
2.43.0


From 76c6cc7aa94f8a930534b8b38d131ead0b75827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 04/38] fix: twisted extrusion bounds of shapes not centered on
 the origin

---
 sdf3.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index ac49676..3f3e78f 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -137,8 +137,7 @@ func TwistExtrude3D(sdf SDF2, height, twist float64) SDF3 {
 	s.height = height / 2
 	s.extrude = TwistExtrude(height, twist)
 	// work out the bounding box
-	bb := sdf.Bounds()
-	l := r2.Norm(bb.Max)
+	l := maxVertexNorm(sdf.Bounds())
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
@@ -163,13 +162,21 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	s.height = height / 2
 	s.extrude = ScaleTwistExtrude(height, twist, scale)
 	// work out the bounding box
-	bb := d2.Box(sdf.Bounds())
-	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := r2.Norm(bb.Max)
-	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
+	// the scaling is applied along the fixed x and y axes, after the twist
+	l := maxVertexNorm(sdf.Bounds())
+	lx, ly := l*math.Max(1, scale.X), l*math.Max(1, scale.Y)
+	s.bb = r3.Box{Min: r3.Vec{X: -lx, Y: -ly, Z: -s.height}, Max: r3.Vec{X: lx, Y: ly, Z: s.height}}
 	return &s
 }
 
+// maxVertexNorm returns the distance from the origin to the furthest vertex of a box.
+func maxVertexNorm(bb r2.Box) (l float64) {
+	for _, v := range d2.Box(bb).Vertices() {
+		l = math.Max(l, r2.Norm(v))
+	}
+	return l
+}
+
 // Evaluate returns the minimum distance to an extrusion.
 func (s *extrude3) Evaluate(p r3.Vec) float64 {
 	// sdf for the projected 2d surface
-- 
2.43.0


From ea6d57b84538605c2dda33aea076e13821cdae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 05/38] fix: LineOf, Multi and Orient with fewer than two
 copies panicked

---
 sdf2.go |  6 ++++++
 sdf3.go | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/sdf2.go b/sdf2.go
index 16b2762..005b1f3 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -564,6 +564,9 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 			x = r2.Add(x, dx)
 		}
 	}
+	if len(objects) == 0 {
+		return empty2From(s)
+	}
 	if len(objects) == 1 {
 		return objects[0]
 	}
@@ -582,6 +585,9 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 	for i, p := range positions {
 		objects[i] = Transform2D(s, Translate2D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union2D(objects...)
 }
 
diff --git a/sdf3.go b/sdf3.go
index 3f3e78f..e73e4a9 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -878,6 +878,12 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 			x = r3.Add(x, dx)
 		}
 	}
+	if len(objects) == 0 {
+		return empty3From(s)
+	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -893,6 +899,9 @@ func Multi3D(s SDF3, positions d3.Set) SDF3 {
 	for i, p := range positions {
 		objects[i] = Transform3D(s, Translate3D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -908,6 +917,9 @@ func Orient3D(s SDF3, base r3.Vec, directions d3.Set) SDF3 {
 	for i, d := range directions {
 		objects[i] = Transform3D(s, rotateToVec(base, d))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
-- 
2.43.0


From bfc5ad2f3b0fe99d7d62887d1dd9399d5a8057d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 06/38] fix: Standoff without a hole panicked

---
 form3/obj3/standoff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index e0a2b36..fb80802 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -35,6 +35,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
+	if hole == nil {
+		return s, err
+	}
 	if k.HoleDepth >= 0.0 {
 		s = sdf.Difference3D(s, hole)
 	} else {
-- 
2.43.0


From 095b4829e08cad2d5ebcd33eece6b70b3c01c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 07/38] fix: Bolt ignored the result of its parameter
 validation

---
 form3/obj3/thread/bolt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 38058a0..eae73d1 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -31,6 +31,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	case k.Tolerance < 0:
 		err = errors.New("tolerance < 0")
 	}
+	if err != nil {
+		return nil, err
+	}
 	param := k.Thread.ThreadParams()
 	// head
 	var head sdf.SDF3
-- 
2.43.0


From f8884df41400b28b155afdfd391599106e353304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 08/38] fix: rotateToVec of opposite vectors is a rotation, not
 a point inversion

---
 matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3efb58a..bd5cc01 100644
--- a/matrix.go
+++ b/matrix.go
@@ -515,12 +515,12 @@ func rotateToVec(a, b r3.Vec) m44 {
 
 	// are the vectors opposite (180 degrees apart)?
 	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		return m44{
-			-1, 0, 0, 0,
-			0, -1, 0, 0,
-			0, 0, -1, 0,
-			0, 0, 0, 1,
+		// half turn about any axis perpendicular to a.
+		axis := r3.Cross(a, r3.Vec{X: 1})
+		if math.Abs(a.X) > sqrtHalf {
+			axis = r3.Cross(a, r3.Vec{Y: 1})
 		}
+		return Rotate3D(axis, pi)
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 346a36b638b9bed5e4f5633763ef218b77690f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 09/38] fix: Revolve3D bounds of multiple full turns

---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index e73e4a9..e60b14e 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -65,7 +65,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.norm = r2.Vec{X: -sin, Y: cos}
 	// work out the bounding box
 	var vset d2.Set
-	if theta == 0 {
+	if s.theta == 0 {
 		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
 	} else {
 		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
-- 
2.43.0


From d1d3c8a8848651d16229fb27196e443aeddd0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 10/38] fix: Loft3D fully rounded evaluated to NaN on its
 middle plane

---
 sdf3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdf3.go b/sdf3.go
index e60b14e..c40d5dd 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -313,6 +313,9 @@ func Loft3D(sdf0, sdf1 SDF2, height, round float64) SDF3 {
 func (s *loft3) Evaluate(p r3.Vec) float64 {
 	// work out the mix value as a function of height
 	k := clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	if s.height == 0 && p.Z == 0 {
+		k = 0.5 // zero over zero: fully rounded loft
+	}
 	// mix the 2D SDFs
 	a0 := s.sdf0.Evaluate(r2.Vec{X: p.X, Y: p.Y})
 	a1 := s.sdf1.Evaluate(r2.Vec{X: p.X, Y: p.Y})
-- 
2.43.0


From b2e9c5b120e0cf41c0d4cb5919728f98e0941697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 11/38] fix: MinExp evaluated to +-Inf away from the surface

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 57d7fed..23eab1b 100644
--- a/utils.go
+++ b/utils.go
@@ -104,7 +104,9 @@ func MinRound(k float64) MinFunc {
 // MinExp returns a minimum function with exponential smoothing (k = 32).
 func MinExp(k float64) MinFunc {
 	return func(a, b float64) float64 {
-		return -math.Log(math.Exp(-k*a)+math.Exp(-k*b)) / k
+		// Factor out the smaller argument so that the exponentials can't overflow or both vanish.
+		m := math.Min(a, b)
+		return m - math.Log(math.Exp(-k*(a-m))+math.Exp(-k*(b-m)))/k
 	}
 }
 
-- 
2.43.0


From 70effb8ca4c299defec801dda3b85390578a25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 12/38] fix: MaxPoly of degree 0 and 1 mirrors MinPoly (degree
 0 was +Inf)

---
 utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils.go b/utils.go
index 23eab1b..e217897 100644
--- a/utils.go
+++ b/utils.go
@@ -189,6 +189,14 @@ func MaxPoly(n int, k float64) MaxFunc {
 			return -(-math.Min(a, b) - math.Max(k-math.Abs(b-a), 0))
 		}
 	}
+	switch n {
+	case 0:
+		return func(a, b float64) float64 {
+			return math.Max(math.Max(a, b), (a+k+b)*sqrtHalf)
+		}
+	case 1:
+		return math.Max
+	}
 	return maxPoly(n, k)
 }
 
-- 
2.43.0


From 2f173aa71abcfb6c642ca011c7e0b0d4c87ef8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 13/38] fix: Polygon with repeated vertices, and Polygon
 writing to its argument

---
 form2/must2/poly.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..5e714f5 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,9 +26,20 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
+	// Copy the vertices, which belong to the caller. Repeated vertices
+	// are skipped: a segment of zero length has no direction.
+	s.vertex = make([]r2.Vec, 0, n+1)
+	for i, v := range vertex {
+		if i == 0 || v != s.vertex[len(s.vertex)-1] {
+			s.vertex = append(s.vertex, v)
+		}
+	}
+
 	// Close the loop (if necessary)
-	s.vertex = vertex
-	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
+	n = len(s.vertex)
+	if n > 1 && d2.EqualWithin(vertex[0], s.vertex[n-1], tolerance) {
+		s.vertex[n-1] = vertex[0]
+	} else {
 		s.vertex = append(s.vertex, vertex[0])
 	}
 
-- 
2.43.0


From e8cd0de9f19251d3ee22f51cd5c0f9431937d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 14/38] fix: polygon builder NaN vertices on collinear
 smoothing and semicircle arcs

---
 form2/must2/poly.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 5e714f5..11d562e 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -248,13 +248,14 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	// distance from a to midpoint
 	dMid := r2.Norm(r2.Sub(mid, a))
 	// distance from midpoint to center of arc
-	dCenter := math.Sqrt((radius * radius) - (dMid * dMid))
+	// (a radius too small for the chord makes a semicircle, as does a rounding error)
+	dCenter := math.Sqrt(math.Max(0, (radius*radius)-(dMid*dMid)))
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
 	// work out the angle
 	ac := r2.Unit(r2.Sub(a, c))
 	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(r2.Dot(ac, bc)) / float64(v.facets)
+	dtheta := -side * math.Acos(math.Max(-1, r2.Dot(ac, bc))) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
@@ -304,6 +305,10 @@ func (p *PolygonBuilder) smoothVertex(i int) bool {
 	v0 := r2.Unit(r2.Sub(vp.vertex, v.vertex))
 	v1 := r2.Unit(r2.Sub(vn.vertex, v.vertex))
 	theta := math.Acos(r2.Dot(v0, v1))
+	if r2.Norm(r2.Add(v0, v1)) < tolerance {
+		// nothing to smooth - the segments are collinear
+		return false
+	}
 	// distance from vertex to circle tangent
 	d1 := v.radius / math.Tan(theta/2.0)
 	if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 > r2.Norm(r2.Sub(vn.vertex, v.vertex)) {
-- 
2.43.0


From 5afa79f80b64ddc1bb7fe33a3a9634ad5650920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 15/38] fix: STL reader rejected files whose last read also
 returned io.EOF

---
 render/stl.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/render/stl.go b/render/stl.go
index f1c5230..c204522 100644
--- a/render/stl.go
+++ b/render/stl.go
@@ -192,13 +192,9 @@ func readBinarySTL(r io.Reader) (output []r3.Triangle, readErr error) {
 		}
 	}()
 	for i = 0; i < int(header.Count); i++ {
-		var n int
-		for n < 50 {
-			nr, err := r.Read(buf[n:])
-			if err != nil {
-				return nil, err
-			}
-			n += nr
+		// A reader may return the last bytes together with io.EOF.
+		if _, err := io.ReadFull(r, buf[:]); err != nil {
+			return nil, err
 		}
 		d.get(buf[:])
 		if err := d.validate(); err != nil {
-- 
2.43.0


From 446fdcb37999e2966c797159b87498a8b8a37bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 16/38] fix: Union2D culled shapes that contribute to the
 result

---
 sdf2.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 005b1f3..4ceccbe 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -372,9 +372,10 @@ func (s *slice2) Bounds() r2.Box {
 
 // union2 is a union of multiple SDF2 objects.
 type union2 struct {
-	sdf []SDF2
-	min MinFunc
-	bb  r2.Box
+	sdf   []SDF2
+	min   MinFunc
+	blend bool // min is user provided
+	bb    r2.Box
 }
 
 // Union2D returns the union of multiple SDF2 objects.
@@ -400,6 +401,10 @@ func Union2D(sdf ...SDF2) SDF2Union {
 
 // Evaluate returns the minimum distance to the SDF2 union.
 func (s *union2) Evaluate(p r2.Vec) float64 {
+	if s.blend {
+		// Shapes that are not nearest may contribute to the blend.
+		return s.EvaluateSlow(p)
+	}
 	// work out the min/max distance for every bounding box
 	vs := make([]r2.Vec, len(s.sdf))
 	minDist2 := -1.0
@@ -428,6 +433,11 @@ func (s *union2) Evaluate(p r2.Vec) float64 {
 			}
 		}
 	}
+	if d > 0 && d*d > vs[minIndex].Y {
+		// The nearest box has no shape within it, as is the case for an
+		// empty SDF2 or a difference that leaves nothing behind.
+		return s.EvaluateSlow(p)
+	}
 	return d
 }
 
@@ -448,6 +458,7 @@ func (s *union2) EvaluateSlow(p r2.Vec) float64 {
 // SetMin sets the minimum function to control SDF2 blending.
 func (s *union2) SetMin(min MinFunc) {
 	s.min = min
+	s.blend = true
 }
 
 // BoundingBox returns the bounding box of an SDF2 union.
-- 
2.43.0


From c22799e18115e97a3dccfc8127da848d1742705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 17/38] fix: unions kept the caller's argument slice

---
 sdf2.go | 2 +-
 sdf3.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 4ceccbe..84e6b22 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -383,7 +383,7 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	s := union2{sdf: append([]SDF2(nil), sdf...)} // the argument slice belongs to the caller
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index c40d5dd..232a633 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -431,7 +431,7 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		sdf: append([]SDF3(nil), sdf...), // the argument slice belongs to the caller
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


From 10ceac1a471e2c80242d9c34ef34d173ed0e326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 18/38] fix: form2.Nagon and form3.ChamferedCylinder report
 invalid arguments as errors

---
 form2/basic.go |  2 +-
 form2/poly.go  |  4 ++++
 form3/basic.go | 12 ++++++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/form2/basic.go b/form2/basic.go
index 60fee85..4037483 100644
--- a/form2/basic.go
+++ b/form2/basic.go
@@ -15,7 +15,7 @@ type shapeErr struct {
 }
 
 func (s *shapeErr) Error() string {
-	return fmt.Sprintf("%s", s.panicObj)
+	return fmt.Sprint(s.panicObj)
 }
 
 // Circle returns the SDF2 for a 2d circle.
diff --git a/form2/poly.go b/form2/poly.go
index 3347e0f..add5d14 100644
--- a/form2/poly.go
+++ b/form2/poly.go
@@ -1,6 +1,7 @@
 package form2
 
 import (
+	"errors"
 	"runtime/debug"
 
 	"github.com/soypat/sdf"
@@ -37,5 +38,8 @@ func Nagon(n int, radius float64) (s d2.Set, err error) {
 			}
 		}
 	}()
+	if n < 3 {
+		return nil, errors.New("number of sides < 3")
+	}
 	return must2.Nagon(n, radius), err
 }
diff --git a/form3/basic.go b/form3/basic.go
index 6f7b901..a2550f1 100644
--- a/form3/basic.go
+++ b/form3/basic.go
@@ -17,7 +17,7 @@ type shapeErr struct {
 }
 
 func (s *shapeErr) Error() string {
-	return fmt.Sprintf("%s", s.panicObj)
+	return fmt.Sprint(s.panicObj)
 }
 
 // Box return an SDF3 for a 3d box (rounded corners with round > 0).
@@ -78,7 +78,15 @@ func Cone(height, r0, r1, round float64) (s sdf.SDF3, err error) {
 }
 
 // ChamferedCylinder intersects a chamfered cylinder with an SDF3.
-func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (sdf.SDF3, error) {
+func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (cs sdf.SDF3, err error) {
+	defer func() {
+		if a := recover(); a != nil {
+			err = &shapeErr{
+				panicObj: a,
+				stack:    string(debug.Stack()),
+			}
+		}
+	}()
 	// get the length and radius from the bounding box
 	l := s.Bounds().Max.Z
 	r := s.Bounds().Max.X
-- 
2.43.0


From 0e6c0c4d844e38d26936dbc6004995855a359946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 19/38] fix: panels and standoffs report invalid parameters as
 errors, eurorack default hole

---
 form2/obj2/panel.go    | 15 +++++++++------
 form3/obj3/panel.go    | 15 ++++++++-------
 form3/obj3/standoff.go |  6 ++++++
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/form2/obj2/panel.go b/form2/obj2/panel.go
index b20e43b..9a6be40 100644
--- a/form2/obj2/panel.go
+++ b/form2/obj2/panel.go
@@ -1,6 +1,8 @@
 package obj2
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	form2 "github.com/soypat/sdf/form2/must2"
 	"gonum.org/v1/gonum/spatial/r2"
@@ -97,18 +99,19 @@ func (k EuroRackParams) USize() float64 {
 
 // EuroRackPanel returns a 2d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k EuroRackParams) (s sdf.SDF2, err error) {
-	// TODO use error handling.
 	if k.U < 1 {
-		panic("k.U < 1")
+		return nil, errors.New("k.U < 1")
 	}
 	if k.HP <= 1 {
-		panic("k.HP <= 1")
+		return nil, errors.New("k.HP <= 1")
 	}
 	if k.CornerRadius < 0 {
-		panic("k.CornerRadius < 0")
+		return nil, errors.New("k.CornerRadius < 0")
+	}
+	if k.HoleDiameter < 0 {
+		return nil, errors.New("k.HoleDiameter < 0")
 	}
-	if k.HoleDiameter <= 0 {
-		panic("got <=0 hole diameter. file issue at github.com/soypat/sdf if this panic is incorrect")
+	if k.HoleDiameter == 0 {
 		k.HoleDiameter = erHoleDiameter
 	}
 
diff --git a/form3/obj3/panel.go b/form3/obj3/panel.go
index ea69aa0..c20ef25 100644
--- a/form3/obj3/panel.go
+++ b/form3/obj3/panel.go
@@ -1,6 +1,8 @@
 package obj3
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	"github.com/soypat/sdf/form2/obj2"
 	form3 "github.com/soypat/sdf/form3/must3"
@@ -11,7 +13,7 @@ import (
 // Panel3D returns a 3d panel with holes on the edges.
 func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	s, err := obj2.Panel(k)
 	if err != nil {
@@ -23,7 +25,7 @@ func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 // EuroRackPanel returns a 3d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k obj2.EuroRackParams) (sdf.SDF3, error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	panel2d, err := obj2.EuroRackPanel(k)
 	if err != nil {
@@ -59,18 +61,17 @@ type PanelHoleParams struct {
 
 // PanelHole returns a panel hole and an indent for a retention pin.
 func PanelHole(k *PanelHoleParams) (sdf.SDF3, error) {
-	// TODO add error handling.
 	if k.Diameter <= 0 {
-		panic("k.Diameter <= 0")
+		return nil, errors.New("k.Diameter <= 0")
 	}
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	if d3.LTZero(k.Indent) {
-		panic("k.Indent < 0")
+		return nil, errors.New("k.Indent < 0")
 	}
 	if k.Offset < 0 {
-		panic("k.Offset")
+		return nil, errors.New("k.Offset < 0")
 	}
 	var indent, s sdf.SDF3
 	// build the hole
diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index fb80802..17900ad 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -1,6 +1,7 @@
 package obj3
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -25,6 +26,11 @@ type StandoffParams struct {
 
 // Standoff returns a single board standoff.
 func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
+	defer func() {
+		if a := recover(); a != nil {
+			s, err = nil, fmt.Errorf("bad standoff parameters: %v", a)
+		}
+	}()
 	s = pillar(k)
 	if k.NumberWebs > 0 {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
-- 
2.43.0


From 2fbb2b16f2956ddd529ea2431da785b96c128d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 20/38] fix: bolts, screws and knurls report invalid parameters
 as errors

---
 form3/obj3/thread/bolt.go   | 16 +++++++++++++---
 form3/obj3/thread/knurl.go  | 14 +++++++-------
 form3/obj3/thread/thread.go |  3 +++
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index eae73d1..a28648a 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 
 	"github.com/soypat/sdf"
+	"github.com/soypat/sdf/form3"
 	"github.com/soypat/sdf/form3/must3"
 	"gonum.org/v1/gonum/spatial/r3"
 )
@@ -35,6 +36,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 		return nil, err
 	}
 	param := k.Thread.ThreadParams()
+	if param.Radius <= 0 {
+		return nil, errors.New("thread radius <= 0")
+	}
 	// head
 	var head sdf.SDF3
 
@@ -45,17 +49,23 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	}
 	switch k.Style {
 	case NutHex:
-		head, _ = HexHead(hr, hh, "b")
+		head, err = HexHead(hr, hh, "b")
 	case NutKnurl:
-		head, _ = KnurledHead(hr, hh, hr*0.25)
+		head, err = KnurledHead(hr, hh, hr*0.25)
 	default:
 		return nil, errors.New("unknown style for bolt: " + k.Style.String())
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	// shank
 	shankLength := k.ShankLength + hh/2
 	shankOffset := shankLength / 2
-	var shank sdf.SDF3 = must3.Cylinder(shankLength, param.Radius, hh*0.08)
+	shank, err := form3.Cylinder(shankLength, param.Radius, hh*0.08)
+	if err != nil {
+		return nil, err
+	}
 	shank = sdf.Transform3D(shank, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: shankOffset}))
 
 	// external thread
diff --git a/form3/obj3/thread/knurl.go b/form3/obj3/thread/knurl.go
index 94365d6..482d66a 100644
--- a/form3/obj3/thread/knurl.go
+++ b/form3/obj3/thread/knurl.go
@@ -1,6 +1,7 @@
 package thread
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -44,24 +45,23 @@ func (k KnurlParams) ThreadParams() Parameters {
 
 // Knurl returns a knurled cylinder.
 func Knurl(k KnurlParams) (s sdf.SDF3, err error) {
-	// TODO fix error handling.
 	if k.Length <= 0 {
-		panic("Length <= 0")
+		return nil, errors.New("Length <= 0")
 	}
 	if k.Radius <= 0 {
-		panic("Radius <= 0")
+		return nil, errors.New("Radius <= 0")
 	}
 	if k.Pitch <= 0 {
-		panic("Pitch <= 0")
+		return nil, errors.New("Pitch <= 0")
 	}
 	if k.Height <= 0 {
-		panic("Height <= 0")
+		return nil, errors.New("Height <= 0")
 	}
 	if k.Theta < 0 {
-		panic("Theta < 0")
+		return nil, errors.New("Theta < 0")
 	}
 	if k.Theta >= 90.*math.Pi/180. {
-		panic("Theta >= 90")
+		return nil, errors.New("Theta >= 90")
 	}
 	// Work out the number of starts using the desired helix angle.
 	k.starts = int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)
diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 61a7ae9..c80c04a 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -60,6 +60,9 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 		return nil, err
 	}
 	params := thread.ThreadParams()
+	if params.Pitch <= 0 {
+		return nil, errors.New("need greater than zero pitch")
+	}
 	s := screw{}
 	s.thread = tsdf
 	s.pitch = params.Pitch
-- 
2.43.0


From 7fdde9aa65aa44f4f152570cfdfd12f6ce32b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 21/38] fix: screw taper is an angle, its slope is the tangent

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index c80c04a..51b77c5 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -86,7 +86,7 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Atan(s.taper)
+		p0.Y += p.Z * math.Tan(s.taper)
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From fffd0b0c30459dca2c3b46685a150f788e2a9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:56 +0000
Subject: [PATCH 22/38] fix: imported model took the pseudo normal of the wrong
 vertex of the nearest edge

---
 helpers/sdfexp/spatial2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers/sdfexp/spatial2.go b/helpers/sdfexp/spatial2.go
index f6c8459..f4a94fa 100644
--- a/helpers/sdfexp/spatial2.go
+++ b/helpers/sdfexp/spatial2.go
@@ -31,7 +31,7 @@ func closestOnTriangle2(p r2.Vec, tri [3]r2.Vec) (pointOnTriangle r2.Vec, featur
 		d2 := r2.Norm2(distance)
 		if d2 < minDist {
 			if gotFeat < 2 {
-				feature = triangleFeature(j+gotFeat) % 3
+				feature = featureV0 + triangleFeature(j+gotFeat)%3
 			} else {
 				feature = featureE0 + triangleFeature(j)%3
 			}
@@ -66,12 +66,12 @@ func distToLine(p r2.Vec, ln [2]r2.Vec) (r2.Vec, int) {
 	perpend2 := r2.Add(ln[1], perpendicular)
 	e2 := edgeEquation(p, [2]r2.Vec{ln[1], perpend2})
 	if e2 > 0 {
-		return r2.Sub(p, ln[1]), 0
+		return r2.Sub(p, ln[1]), 1
 	}
 	perpend1 := r2.Add(ln[0], perpendicular)
 	e1 := edgeEquation(p, [2]r2.Vec{ln[0], perpend1})
 	if e1 < 0 {
-		return r2.Sub(p, ln[0]), 1
+		return r2.Sub(p, ln[0]), 0
 	}
 	e3 := distToLineInfinite(p, ln) //edgeEquation(p, line)
 	return r2.Scale(-e3, r2.Unit(perpendicular)), 2
-- 
2.43.0


From 5befbfb61ffcd1ce848dacdeed89815fde68e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 23/38] fix: imported model could not be evaluated concurrently

---
 helpers/sdfexp/spatial3.go | 46 +++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 7882f5f..aefeae3 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -13,14 +13,12 @@ import (
 // with special focus on kdTriangle type.
 
 type meshTriangle struct {
-	C           r3.Vec          // Centroid
-	lastFeature triangleFeature // result from last distance calculation
-	lastClosest r3.Vec
-	Vertices    [3]int
-	m           *mesh        // to be able to construct triangle geometry.
-	N           r3.Vec       // Pseudo Face normal (scaled by 2*pi)
-	T           d3.Transform // Canalis transformation matrix.
-	InvT        d3.Transform // inverse of T
+	C        r3.Vec // Centroid
+	Vertices [3]int
+	m        *mesh        // to be able to construct triangle geometry.
+	N        r3.Vec       // Pseudo Face normal (scaled by 2*pi)
+	T        d3.Transform // Canalis transformation matrix.
+	InvT     d3.Transform // inverse of T
 }
 
 func (t *meshTriangle) Compare(c kdtree.Comparable, d kdtree.Dim) float64 {
@@ -46,7 +44,14 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 		}
 		point, t = t, point // make sure `t` is the triangle.
 	}
-	pxy := t.T.Transform(point.C)
+	closest, _ := t.closest(point.C)
+	return r3.Norm2(r3.Sub(point.C, closest))
+}
+
+// closest returns the point of the triangle closest to p and the
+// feature of the triangle it lies on.
+func (t *meshTriangle) closest(p r3.Vec) (r3.Vec, triangleFeature) {
+	pxy := t.T.Transform(p)
 	txy := t.triangle()
 	for i := range txy {
 		txy[i] = t.T.Transform(txy[i])
@@ -54,30 +59,29 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 	// We find the closest point to the transformed triangle
 	// in 2D space and then transform the results back to 3D space
 	onTriangle, feat := closestOnTriangle2(lowerVec(pxy), [3]r2.Vec{lowerVec(txy[0]), lowerVec(txy[1]), lowerVec(txy[2])})
-	t.lastFeature = feat
-	t.lastClosest = t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y})
-	return r3.Norm2(r3.Sub(point.C, t.lastClosest))
+	return t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y}), feat
 }
 
 // CopySign returns a value with the magnitude of dist
-// and the sign depending on whether the last call to Distance was
-// inside or outside the solid defined by the mesh (SDF).
-// Copysign expects p to be the same vector as last call to Distance.
+// and the sign depending on whether p is inside or outside the
+// solid defined by the mesh (SDF).
+// t is expected to be the triangle of the mesh closest to p.
 func (t *meshTriangle) CopySign(p r3.Vec, dist float64) (signed float64) {
-	if t.lastFeature <= featureV2 {
+	closest, feature := t.closest(p)
+	if feature <= featureV2 {
 		// Distance last called nearest to triangle vertex.
-		vertex := t.m.vertices[t.Vertices[t.lastFeature]]
+		vertex := t.m.vertices[t.Vertices[feature]]
 		signed = r3.Dot(vertex.N, r3.Sub(p, vertex.V))
-	} else if t.lastFeature <= featureE2 {
-		vertex1 := t.lastFeature - 3
+	} else if feature <= featureE2 {
+		vertex1 := feature - 3
 		edge := [2]int{t.Vertices[vertex1], t.Vertices[(vertex1+1)%3]}
 		if edge[0] > edge[1] {
 			edge[0], edge[1] = edge[1], edge[0]
 		}
 		norm := t.m.pseudoEdgeN[edge]
-		signed = r3.Dot(norm, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(norm, r3.Sub(p, closest))
 	} else {
-		signed = r3.Dot(t.N, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(t.N, r3.Sub(p, closest))
 	}
 	return math.Copysign(dist, signed)
 }
-- 
2.43.0


From 02a64affcddb37c0510a1f0f638823af2a05905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 24/38] fix: imported model missed the nearest triangle

---
 helpers/sdfexp/import.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 10fcbc7..77335fd 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -31,9 +31,33 @@ type ImportedSDF3 struct {
 }
 
 func (s ImportedSDF3) Evaluate(q r3.Vec) float64 {
-	tri, dist2 := s.tree.Nearest(&meshTriangle{C: q})
-	kd := tri.(*meshTriangle)
-	return kd.CopySign(q, math.Sqrt(dist2))
+	// The tree partitions the triangles by their centroids and tree.Nearest
+	// would discard triangles which are closer to q than their centroid is.
+	k := nearestKeeper{Heap: kdtree.Heap{{Dist: math.Inf(1)}}, reach: s.mesh.reach}
+	s.tree.NearestSet(&k, &meshTriangle{C: q})
+	kd := k.Heap[0].Comparable.(*meshTriangle)
+	return kd.CopySign(q, math.Sqrt(k.Heap[0].Dist))
+}
+
+// nearestKeeper is a kdtree.Keeper which keeps the nearest triangle.
+type nearestKeeper struct {
+	kdtree.Heap
+	reach float64 // reach of the triangles in the mesh.
+}
+
+func (k *nearestKeeper) Keep(c kdtree.ComparableDist) {
+	if c.Dist < k.Heap[0].Dist {
+		k.Heap[0] = c
+	}
+}
+
+// Max returns the square of the distance at which the centroid
+// of a nearer triangle may be found.
+func (k *nearestKeeper) Max() kdtree.ComparableDist {
+	max := k.Heap[0]
+	d := math.Sqrt(max.Dist) + k.reach
+	max.Dist = d * d
+	return max
 }
 
 func (s ImportedSDF3) Bounds() r3.Box {
@@ -45,7 +69,9 @@ func (s ImportedSDF3) Bounds() r3.Box {
 
 type mesh struct {
 	// bb is the bounding box of the whole mesh.
-	bb        d3.Box
+	bb d3.Box
+	// reach is the maximum distance from the centroid of a triangle to its vertices.
+	reach     float64
 	vertices  []pseudoVertex
 	triangles []meshTriangle
 	// access to edge pseudo normals using vertex index.
@@ -129,6 +155,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			alpha := math.Acos(r3.Cos(s1, s2))
 			m.vertices[vertexIdx].N = r3.Add(m.vertices[vertexIdx].N, r3.Scale(alpha, norm))
 			sdfT.Vertices[j] = vertexIdx
+			m.reach = math.Max(m.reach, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))
 		}
 		m.triangles[i] = sdfT
 		// Calculate edge pseudo normals.
-- 
2.43.0


From 1d256d685707b3e82b7b1cdfdbf439d7505a4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 25/38] fix: ImportModelV2 took the face normal for points
 nearest to edges and vertices

---
 helpers/sdfexp/bih.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index de24743..f619fdc 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -198,7 +198,30 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 		r3.Add(
 			r3.Scale(p[0], edge0),
 			r3.Scale(p[1], edge1)))
-	return r3.Sub(target, closest), FACE | idx
+	return r3.Sub(target, closest), bi.feature(idx, p)
+}
+
+// feature returns the flag and index of the face, edge or vertex normal which
+// corresponds to the point a + p0*edge0 + p1*edge1 of the triangle.
+func (bi *BIH) feature(idx int, p [2]float64) int {
+	const tol = 1e-9
+	on0, on1, on2 := p[0] <= tol, p[1] <= tol, p[0]+p[1] >= 1-tol
+	tri := bi.Indices[idx]
+	switch {
+	case on0 && on1:
+		return VERTEX | tri[0]
+	case on1 && on2:
+		return VERTEX | tri[1]
+	case on0 && on2:
+		return VERTEX | tri[2]
+	case on1:
+		return EDGE | (3 * idx)
+	case on2:
+		return EDGE | (3*idx + 1)
+	case on0:
+		return EDGE | (3*idx + 2)
+	}
+	return FACE | idx
 }
 
 func (bi *BIH) getMinEdge02(a11 float64, b1 float64) (p [2]float64) {
-- 
2.43.0


From 0a6ceaf974ff0b67246bf55d3236db171d83aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 26/38] fix: screw bounds cut the wide end of screws with a
 negative taper

---
 form3/obj3/thread/thread.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 51b77c5..cd45253 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -73,8 +73,8 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	// The max-y axis of the sdf2 bounding box is the radius of the thread.
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
-	// add the taper increment
-	r += s.length * math.Tan(s.taper)
+	// add the taper increment, largest at the bottom (or at the top for negative tapers)
+	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
 	return &s, nil
 }
-- 
2.43.0


From 2b4e136cc9c56c89a874997cdaad4892a6101e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 27/38] fix: tetrahedron mesh had its corner nodes at the wrong
 corners

---
 helpers/sdfexp/bccmesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/bccmesh.go b/helpers/sdfexp/bccmesh.go
index 3c47b3f..4dff4ed 100644
--- a/helpers/sdfexp/bccmesh.go
+++ b/helpers/sdfexp/bccmesh.go
@@ -22,7 +22,7 @@ type bccMatrix struct {
 
 type bccidx int
 
-// BCC node indices. follow same ordering as BoundingBox.Vertices.
+// BCC node indices. follow same ordering as r3.Box.Vertices.
 const (
 	i000 bccidx = iota
 	ix00
@@ -144,7 +144,7 @@ func (t *bccMesh) meshTetraBCC() (nodes []r3.Vec, tetras [][4]int) {
 	tetras = make([][4]int, 0, len(t.matrix.nodes))
 	t.matrix.foreach(func(_, _, _ int, node *bccNode) {
 		bb := d3.Box(node.box())
-		vert := bb.Vertices()
+		vert := r3.Box(bb).Vertices() // in the order of the bccidx constants.
 		nctr := n
 		node.bccnod[ictr] = nctr
 		n++
-- 
2.43.0


From 9a852582daf25b858490eff9bcd518d5f23b2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:01 +0000
Subject: [PATCH 28/38] fix: nodes of tetrahedron meshes which are in no
 tetrahedron were NaN

---
 helpers/sdfexp/omesh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index 671ad40..c12988b 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -73,6 +73,9 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	boundary := make(map[int]struct{})
 	// first we compress boundary nodes towards sdf surface.
 	for i, nod := range om.nodes {
+		if len(nod.tetras) == 0 {
+			continue // not part of the mesh.
+		}
 		d := s.Evaluate(nod.pos)
 		if d > 0 {
 			boundary[i] = struct{}{}
@@ -82,6 +85,9 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	}
 	// Apply laplacian smoothing to all non-boundary nodes after compression.
 	for i, nod := range om.nodes {
+		if len(nod.tetras) == 0 {
+			continue // not part of the mesh, has no neighbors to average.
+		}
 		if _, ok := boundary[i]; ok {
 			return // don't smooth boundary nodes.
 		}
-- 
2.43.0


From 3fa83727b4436b87399bea70d11ccd0340e55f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 29/38] fix: imported models lost the sign near vertices of
 slivers

---
 helpers/sdfexp/bih.go    | 4 ++--
 helpers/sdfexp/import.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index f619fdc..b22a4b9 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -446,8 +446,8 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 	ca := r3.Sub(c, a)
 	norm := r3.Cross(ba, ca)
 
-	cosalpha := r3.Dot(ba, ca) / (dist(ba) * dist(ca))
-	alpha := math.Acos(cosalpha)
+	// unlike math.Acos, accurate for the small angles of slivers
+	alpha := math.Atan2(dist(norm), r3.Dot(ba, ca))
 	return alpha, r3.Scale(alpha, r3.Unit(norm))
 }
 
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 77335fd..93aa3ba 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -152,7 +152,8 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			}
 			// Calculate vertex pseudo normal
 			s1, s2 := r3.Sub(vert, tri[(j+1)%3]), r3.Sub(vert, tri[(j+2)%3])
-			alpha := math.Acos(r3.Cos(s1, s2))
+			// unlike math.Acos, accurate for the small angles of slivers
+			alpha := math.Atan2(r3.Norm(r3.Cross(s1, s2)), r3.Dot(s1, s2))
 			m.vertices[vertexIdx].N = r3.Add(m.vertices[vertexIdx].N, r3.Scale(alpha, norm))
 			sdfT.Vertices[j] = vertexIdx
 			m.reach = math.Max(m.reach, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))
-- 
2.43.0


From a3b4f951f58ee4ddb637a167e39dc54f2a1f8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:39 +0000
Subject: [PATCH 30/38] fix: blends of arrays and rotated unions began with an
 infinite distance

---
 sdf2.go | 16 ++++++++++++----
 sdf3.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 84e6b22..b865d26 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -198,11 +198,15 @@ func (s *array2) SetMin(min MinFunc) {
 
 // Evaluate returns the minimum distance to a grid array of SDF2s.
 func (s *array2) Evaluate(p r2.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	for j := 0; j < s.num[0]; j++ {
 		for k := 0; k < s.num[1]; k++ {
 			x := r2.Sub(p, r2.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y})
-			d = s.min(d, s.sdf.Evaluate(x))
+			if j == 0 && k == 0 {
+				d = s.sdf.Evaluate(x)
+			} else {
+				d = s.min(d, s.sdf.Evaluate(x))
+			}
 		}
 	}
 	return d
@@ -249,11 +253,15 @@ func RotateUnion2D(sdf SDF2, num int, step m33) SDF2 {
 
 // Evaluate returns the minimum distance to a union of rotated SDF2s.
 func (s *rotateUnion2) Evaluate(p r2.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	rot := identity2d()
 	for i := 0; i < s.num; i++ {
 		x := rot.MulPosition(p)
-		d = s.min(d, s.sdf.Evaluate(x))
+		if i == 0 {
+			d = s.sdf.Evaluate(x)
+		} else {
+			d = s.min(d, s.sdf.Evaluate(x))
+		}
 		rot = rot.Mul(s.step)
 	}
 	return d
diff --git a/sdf3.go b/sdf3.go
index 232a633..2fc721a 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -644,12 +644,16 @@ func (s *array3) SetMin(min MinFunc) {
 
 // Evaluate returns the minimum distance to an XYZ SDF3 array.
 func (s *array3) Evaluate(p r3.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	for j := 0; j < s.num[0]; j++ {
 		for k := 0; k < s.num[1]; k++ {
 			for l := 0; l < s.num[2]; l++ {
 				x := r3.Sub(p, r3.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y, Z: float64(l) * s.step.Z})
-				d = s.min(d, s.sdf.Evaluate(x))
+				if j == 0 && k == 0 && l == 0 {
+					d = s.sdf.Evaluate(x)
+				} else {
+					d = s.min(d, s.sdf.Evaluate(x))
+				}
 			}
 		}
 	}
@@ -698,11 +702,15 @@ func RotateUnion3D(sdf SDF3, num int, step m44) SDF3Union {
 
 // Evaluate returns the minimum distance to a rotate/union object.
 func (s *rotateUnion) Evaluate(p r3.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	rot := identity3d()
 	for i := 0; i < s.num; i++ {
 		x := rot.MulPosition(p)
-		d = s.min(d, s.sdf.Evaluate(x))
+		if i == 0 {
+			d = s.sdf.Evaluate(x)
+		} else {
+			d = s.min(d, s.sdf.Evaluate(x))
+		}
 		rot = rot.Mul(s.step)
 	}
 	return d
-- 
2.43.0


From d5ae9e8ef53201ede881835646a5f3aad60f1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 31/38] fix: MinPow overflowed for large distances such as
 those to empty shapes

---
 utils.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index e217897..6b64cd1 100644
--- a/utils.go
+++ b/utils.go
@@ -114,9 +114,11 @@ func MinExp(k float64) MinFunc {
 // TODO - weird results, is this correct?
 func MinPow(k float64) MinFunc {
 	return func(a, b float64) float64 {
-		a = math.Pow(a, k)
-		b = math.Pow(b, k)
-		return math.Pow((a*b)/(a+b), 1/k)
+		// Factor out the smaller argument so that the powers can't overflow.
+		if math.Abs(a) > math.Abs(b) {
+			a, b = b, a
+		}
+		return a * math.Pow(1+math.Pow(a/b, k), -1/k)
 	}
 }
 
-- 
2.43.0


From 63cf549c155f011531d4ff9c15d2026f5640293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:19 +0000
Subject: [PATCH 32/38] fix: revolutions by 13 or more whole turns are full
 revolutions

Rounding leaves a remainder of multiples of 2*pi, so Revolve3D(s, 13*2*pi)
was a wedge of 7e-15 radians.
---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index 2fc721a..b710186 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -52,7 +52,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	if theta <= 0 {
 		return empty3{}
 	}
-	if math.Abs(theta-2*math.Pi) < tolerance {
+	if theta > pi && math.Abs(math.Remainder(theta, tau)) < tolerance {
 		theta = 0 // internally theta=0 is a full revolution.
 	}
 	s := revolution3{}
-- 
2.43.0


From a2852f3d6de8acf5bf18f92754be83476c1c3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:19 +0000
Subject: [PATCH 33/38] fix: standoff webs no longer cut the pillar or wide
 webs

The cylinder which cuts the webs at the top of the pillar also cut pillars
and webs wider than the diameter of the webs.
---
 form3/obj3/standoff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index 17900ad..c226a0c 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -36,7 +36,7 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
 		s = sdf.Union3D(s, webs)
 		// Cut off any part of the webs that protrude from the top of the pillar
-		cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)
+		cut := form3.Cylinder(k.PillarHeight, math.Max(k.WebDiameter, math.Max(k.WebWidth, k.PillarDiameter)), 0)
 		s = sdf.Intersect3D(s, cut)
 	}
 	// Add the pillar hole/stub
-- 
2.43.0


From 94985dcec277d0e3a31874704729410ccdbb8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 34/38] fix: ImportModelV2 did not return for meshes with edges
 shared by more than two triangles

---
 helpers/sdfexp/bih.go | 53 +++++--------------------------------------
 1 file changed, 6 insertions(+), 47 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index b22a4b9..3820dc5 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -570,54 +570,13 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 		}
 	}
 
+	// The faces are not traversed around the vertex, since they need
+	// not form a single closed fan.
 	vertex_pseudonormals := make([]r3.Vec, len(vertices))
-	for i, tri := range mesh {
-		// for each vertex check to see if it hasn't already been calculated
-		// if it hasn't then calculate it
-		for j, idx := range tri {
-			// if it hasn't been calculated it should be zero
-			if dist_sq(vertex_pseudonormals[idx]) < 0.5 {
-				// calculate it by traversing along all the edges sharing that vertex
-				alpha, wnormal := calc_alpha_wnormal(tri, idx, vertices)
-				normal_tot := wnormal
-				weights := alpha
-
-				edge_vert := tri[next_j[j]]
-				next_tri, ok := edges[[2]int{edge_vert, idx}]
-				//fmt.Printf("next tri %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				for ok && next_tri != i {
-					alpha, wnormal = calc_alpha_wnormal(mesh[next_tri], idx, vertices)
-					normal_tot = r3.Add(normal_tot, wnormal)
-					weights += alpha
-
-					vert_idx := -1
-					edge_idx := -1
-					for k, jdx := range mesh[next_tri] {
-						if jdx == idx {
-							vert_idx = k
-						}
-						if jdx == edge_vert {
-							edge_idx = k
-						}
-					}
-
-					if vert_idx == -1 || edge_idx == -1 {
-						fmt.Printf("triangle doesn't match vertex or edge %v %v %v\n", mesh[next_tri], edge_vert, idx)
-						panic("unreachable state; reached a triangle not containing the proper adjacent edge")
-					}
-					// the indexes all sum up to 3, so subtracting the other two indices
-					// returns the missing one
-					edge_vert = mesh[next_tri][3-vert_idx-edge_idx]
-					// and each matching triangle can be found using
-					// its edge some edge-vertex
-					next_tri, ok = edges[[2]int{edge_vert, idx}]
-					//fmt.Printf("next tri2 %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				}
-				if !ok {
-					//fmt.Printf("w: incomplete vertex traversal, %v\n", vertices[idx])
-				}
-				vertex_pseudonormals[idx] = r3.Scale(1/alpha, normal_tot)
-			}
+	for _, tri := range mesh {
+		for _, idx := range tri {
+			_, wnormal := calc_alpha_wnormal(tri, idx, vertices)
+			vertex_pseudonormals[idx] = r3.Add(vertex_pseudonormals[idx], wnormal)
 		}
 	}
 
-- 
2.43.0


From e88a805c42937544d1a4ac0c7a5b8e4dbfae346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 35/38] fix: ImportModelV2 mixed up the faces of edges shared
 by more than two triangles

---
 helpers/sdfexp/bih.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index 3820dc5..7dac1f9 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -549,24 +549,30 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	next_j := []int{1, 2, 0}
 	edge_pseudonormals := make([]r3.Vec, 3*len(mesh))
 	first_nonclosed := true
+	// sum of the normals of all the triangles adjacent to each edge, lower index first
+	edge_sums := make(map[[2]int]r3.Vec)
+	for i, tri := range mesh {
+		for j := range tri {
+			id := [2]int{tri[j], tri[next_j[j]]}
+			if id[0] > id[1] {
+				id[0], id[1] = id[1], id[0]
+			}
+			edge_sums[id] = r3.Add(edge_sums[id], r3.Scale(0.5, face_normals[i]))
+		}
+	}
 	for i, tri := range mesh {
-		cur_normal := face_normals[i]
 		for j := range tri {
 			// flip order to find the other edge
 			other := [2]int{tri[next_j[j]], tri[j]}
-			if other_face, ok := edges[other]; !ok {
-				if first_nonclosed {
-					fmt.Println("w: non closed edge detected")
-					first_nonclosed = false
-				}
-				// this edge is only adjacent to this triangle,
-				// store this triangle's face normal as its normal
-				edge_pseudonormals[3*i+j] = cur_normal
-			} else {
-				other_normal := face_normals[other_face]
-				edge_normal := r3.Add(r3.Scale(0.5, cur_normal), r3.Scale(0.5, other_normal))
-				edge_pseudonormals[3*i+j] = edge_normal
+			if _, ok := edges[other]; !ok && first_nonclosed {
+				fmt.Println("w: non closed edge detected")
+				first_nonclosed = false
+			}
+			id := [2]int{tri[j], tri[next_j[j]]}
+			if id[0] > id[1] {
+				id[0], id[1] = id[1], id[0]
 			}
+			edge_pseudonormals[3*i+j] = edge_sums[id]
 		}
 	}
 
-- 
2.43.0


From 27dc1254e40abd6f829f3641ad01b4fd2054bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 36/38] fix: PolygonBuilder: exact angle of arcs whose radius
 is far larger than the chord

---
 form2/must2/poly.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 11d562e..18444aa 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -252,10 +252,9 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	dCenter := math.Sqrt(math.Max(0, (radius*radius)-(dMid*dMid)))
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
-	// work out the angle
-	ac := r2.Unit(r2.Sub(a, c))
-	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(math.Max(-1, r2.Dot(ac, bc))) / float64(v.facets)
+	// work out the angle: half of the chord is seen from the center under half of it
+	// (the arc cosine of the directions to a and b is inexact for radii much larger than the chord)
+	dtheta := -side * 2 * math.Atan2(dMid, dCenter) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
-- 
2.43.0


From 9fa8c16a176c3b230bd91657c8438f7723d101ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 37/38] fix: Orient3D to directions close to the opposite of
 the base is a rotation

---
 matrix.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/matrix.go b/matrix.go
index bd5cc01..10df39f 100644
--- a/matrix.go
+++ b/matrix.go
@@ -513,14 +513,21 @@ func rotateToVec(a, b r3.Vec) m44 {
 		return identity3d()
 	}
 
-	// are the vectors opposite (180 degrees apart)?
-	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		// half turn about any axis perpendicular to a.
-		axis := r3.Cross(a, r3.Vec{X: 1})
-		if math.Abs(a.X) > sqrtHalf {
-			axis = r3.Cross(a, r3.Vec{Y: 1})
+	// are the vectors opposite (180 degrees apart), or so close to it that
+	// the division of the general case below loses all precision?
+	if neg := r3.Scale(-1, a); d3.EqualWithin(neg, b, 1e-4) {
+		// half turn about an axis perpendicular to a, and to b unless any axis will do,
+		// followed by the small rotation that remains.
+		axis := r3.Cross(a, b)
+		if d3.EqualWithin(neg, b, epsilon) {
+			axis = r3.Cross(a, r3.Vec{X: 1})
+			if math.Abs(a.X) > sqrtHalf {
+				axis = r3.Cross(a, r3.Vec{Y: 1})
+			}
 		}
-		return Rotate3D(axis, pi)
+		axis = r3.Unit(axis)
+		axis = r3.Sub(axis, r3.Scale(r3.Dot(a, axis), a)) // remove the rounding error
+		return rotateToVec(neg, b).Mul(Rotate3D(axis, pi))
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 041b80a180b4f08e91757bd07b04f692c136d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:55 +0000
Subject: [PATCH 38/38] fix: marching cubes left meshes open between corners on
 the surface

Where both ends of an edge are within rounding of the surface the vertex was
put half way between them. It is collinear with the ends picked for other
edges, and the degenerate triangles which would join them are dropped, so
that e.g. half a ball turned by 90 degrees was rendered with open edges.
---
 render/marchingcubes.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index c187565..86fa6fa 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -66,16 +66,19 @@ func mcInterpolate(p1, p2 r3.Vec, v1, v2, x float64) r3.Vec {
 		return p2
 	}
 
-	var t float64
-
 	if closeToV1 && closeToV2 {
-		// Pick the half way point
-		t = 0.5
-	} else {
-		// linear interpolation
-		t = (x - v1) / (v2 - v1)
+		// Both ends are on the surface. Pick the inner one: a point between
+		// them would be collinear with ends picked for other edges, and
+		// leave the mesh open where such degenerate triangles are dropped.
+		if v1 < x {
+			return p1
+		}
+		return p2
 	}
 
+	// linear interpolation
+	t := (x - v1) / (v2 - v1)
+
 	return r3.Vec{
 		X: p1.X + t*(p2.X-p1.X),
 		Y: p1.Y + t*(p2.Y-p1.Y),
-- 
2.43.0

