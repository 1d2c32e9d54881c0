From ee36012bb8bd04f50a5d6744ab20ccba6808c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 01/10] fix: Vector.Angle reports 180, not 0, when the quotient
 of opposite vectors rounds below -1

---
 primitives/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..9840ca5 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,9 +82,12 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
+	if v > 1 { // rounding overshoot of codirected vectors
 		return 0
 	}
+	if v < -1 { // and of opposite ones
+		return 180
+	}
 	return math.Acos(v) * 180 / math.Pi
 }
 
-- 
2.43.0


From 153a310cc5976b1bf28cc39e1d331d434fb63e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 02/10] fix: bed moves leave the machine at feed rate 300, so
 the print speed has to be set again

---
 gcode/cmds.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..2b5f311 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -8,6 +8,8 @@ import (
 	. "github.com/l1va/goosli/primitives"
 )
 
+const bedFeedrate = 300 // the feed rate of the bed axes moves below
+
 type State struct {
 	fan        bool
 	layerIndex int
@@ -48,6 +50,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = bedFeedrate
 	state.t2 = 0
 	return state
 }
@@ -66,6 +69,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = bedFeedrate
 	state.t2 = 60
 	return state
 
@@ -101,6 +105,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = bedFeedrate
 	state.t1 = r.Angle
 	return state
 
-- 
2.43.0


From 35172b5de6ea045e5562934c6a3e55e0238ce0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 03/10] fix: a retraction leaves the machine at the retraction
 speed, so the print speed has to be set again

---
 gcode/cmds.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 2b5f311..67f5b3c 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -181,12 +181,14 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+func retractionToGCode(b *bytes.Buffer, sett GcodeSettings, state State) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
 	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return state
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -198,7 +200,8 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(b, sett, state)
+		state = printSpeedToGCode(state, sett, b)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
 
-- 
2.43.0


From d52c6b35f0d872b0443a9091b9050a509586a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 04/10] fix: retraction pulls back from the amount extruded so
 far, the extruder axis is absolute

---
 gcode/cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 67f5b3c..04884a3 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -186,7 +186,7 @@ func retractionToGCode(b *bytes.Buffer, sett GcodeSettings, state State) State {
 		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-sett.RetractionDistance) + "\n") // E is absolute (M82)
 	state.feedrate = sett.RetractionSpeed
 	return state
 }
-- 
2.43.0


From 3c8dc525654973e00eca0c0ac80369d73fd43730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 05/10] fix: steps of less than 0.001 were never written, so
 they added up to a lost position

---
 primitives/point.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..6bded78 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -26,17 +26,18 @@ func (a Point) MapKey() Point {
 	return a.RoundPlaces(8)
 }
 
+// StringGcode gives the coordinates of a that have to be written if the last ones written were those of b.
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From ccdcbc218f5770950376ef0002c7d3df94693a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 06/10] fix: splitOnThree keeps the facing of small triangles

The order of the segment's ends was decided by an absolute tolerance on an
area, so pieces of triangles with edges of about a micrometre or millimetre
slivers were turned inside out.
---
 helpers/cut_mesh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..8a38fca 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -112,7 +112,7 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
+	if sidesFit(t1, t2, t3, lp1, lp2) < sidesFit(t1, t2, t3, lp2, lp1) {
 		// lp2 lies on t1->t2 vector, but should lp1 lie
 		lp1, lp2 = lp2, lp1
 	}
@@ -121,3 +121,10 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 	ans = append(ans, NewTriangle(t3, lp2, lp1))
 	return ans
 }
+
+// sidesFit is zero if a lies on the side c->t3 and b on the side c->t2, and positive if they lie the other way round
+func sidesFit(c, t2, t3, a, b Point) float64 {
+	e1 := c.VectorTo(t2)
+	e2 := c.VectorTo(t3)
+	return e1.Cross(c.VectorTo(b)).Add(c.VectorTo(a).Cross(e2)).Dot(e1.Cross(e2))
+}
-- 
2.43.0


From 768277ff2554da7594ac00118a438a809f27f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 07/10] fix: square and triangle fill have the requested
 density, its share per direction is not rounded down

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..8908a24 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -37,7 +37,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (2 * 100 / float64(settings.FillDensity)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -50,7 +50,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (3 * 100 / float64(settings.FillDensity)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From 176b0fd101edf3b08a7a0f2a13cb5ed459345feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 08/10] fix: fill planes reach the farthest corner of the model

---
 slicers/fill_layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 8908a24..f64f500 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,10 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	a, b := math.Max(math.Abs(mina), math.Abs(maxa)), math.Max(math.Abs(minb), math.Abs(maxb))
+	r := math.Sqrt(a*a + b*b) // distance of the farthest corner from the Z axis
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From 517930e9f7ae4825d4375435a2616c8555e865d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 09/10] fix: CutMesh keeps triangles that the plane only
 touches

A triangle whose section with the plane is shorter than the tolerance was
dropped from both meshes; it goes whole to the side of most of its vertices.
---
 helpers/cut_mesh.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 8a38fca..fc1bcfc 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -40,7 +40,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+				log.Printf("failed to intersect triangle by plane2, keep it whole: %v, %v\n", t, p)
+				up = append(up, t) // the plane only touches it
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -54,7 +55,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
 			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+				log.Printf("failed to intersect triangle by plane1, keep it whole: %v, %v\n", t, p)
+				down = append(down, t) // the plane only touches it
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From 71e48ae75a905dcbce91d91c9ff1ab03ddcb60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:56 +0000
Subject: [PATCH 10/10] fix: SliceByVector does not panic on flat meshes or
 when its only layer is empty

---
 slicers/slice_by_vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..63f1e2d 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -42,6 +42,9 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	minz, maxz := mesh.MinMaxZ(Z)
 	n := int(math.Ceil((maxz - minz) / thickness))
+	if n == 0 { // flat mesh
+		return nil
+	}
 
 	sh := Z.MulScalar(maxz - minz).MulScalar(1.0 / float64(n))
 
@@ -131,7 +134,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	if len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0

