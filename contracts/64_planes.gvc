package vip

// ------------------------------------------------------------- the bed, as the commands leave it
// turn about Z, tilt, number of groups of layers
fold bedz(cs []gcode.Command, n int) real = ite(n <= 0, 0, ite(isbox("gcode.RotateZ", cs[n-1]), unbox("gcode.RotateZ", cs[n-1]).Angle, ite(isbox("gcode.RotateXZ", cs[n-1]), unbox("gcode.RotateXZ", cs[n-1]).AngleZ, bedz(cs, n-1))))
fold bedt(cs []gcode.Command, n int) bool = ite(n <= 0, false, ite(isbox("gcode.InclineX", cs[n-1]), true, ite(isbox("gcode.InclineXBack", cs[n-1]), false, ite(isbox("gcode.RotateXZ", cs[n-1]), unbox("gcode.RotateXZ", cs[n-1]).AngleX != 0, bedt(cs, n-1)))))
fold groups(cs []gcode.Command, n int) int = ite(n <= 0, 0, groups(cs, n-1) + ite(isbox("gcode.LayersMoving", cs[n-1]), 1, 0))
lemma bedz_same @C29 ind n hide : forall("cs []gcode.Command, ds []gcode.Command, n int", trig(bedz(cs, n), bedz(ds, n)), imp(0 <= n && all(k, 0, n, trig(ds[k]), ds[k] == cs[k]), bedz(ds, n) == bedz(cs, n)))
lemma bedt_same @C29 ind n hide : forall("cs []gcode.Command, ds []gcode.Command, n int", trig(bedt(cs, n), bedt(ds, n)), imp(0 <= n && all(k, 0, n, trig(ds[k]), ds[k] == cs[k]), bedt(ds, n) == bedt(cs, n)))
lemma groups_same @C29 ind n hide : forall("cs []gcode.Command, ds []gcode.Command, n int", trig(groups(cs, n), groups(ds, n)), imp(0 <= n && all(k, 0, n, trig(ds[k]), ds[k] == cs[k]), groups(ds, n) == groups(cs, n)))

// ------------------------------------------------------------- the parts
spec cutup(m primitives.Mesh, p primitives.Plane) *primitives.Mesh = app("call_helpers.CutMesh", "*primitives.Mesh", m, p)
spec cutdown(m primitives.Mesh, p primitives.Plane) *primitives.Mesh = app("call_helpers.CutMesh#1", "*primitives.Mesh", m, p)
// x is what is left of m below the last k planes; the least relation with these rules
uf isleft(x primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, k int) bool
axiom left_start : forall("m primitives.Mesh, cp []AnalyzedPlane", trig(isleft(m, m, cp, 0)), isleft(m, m, cp, 0))
axiom left_cut : forall("x primitives.Mesh, p primitives.Plane, m primitives.Mesh, cp []AnalyzedPlane, k int", trig(isleft(x, m, cp, k), cutdown(x, p)), imp(isleft(x, m, cp, k) && 0 <= k && k < len(cp) && p == cp[len(cp)-1-k].Plane, isleft(*cutdown(x, p), m, cp, k+1)))
// x is the i-th part of m: below the first plane, or above the i-th one and below all later ones
uf ispart(x primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int) bool
axiom part_first : forall("x primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int", trig(ispart(x, m, cp, i)), imp(i == 0 && isleft(x, m, cp, len(cp)), ispart(x, m, cp, i)))
axiom part_above : forall("y primitives.Mesh, p primitives.Plane, m primitives.Mesh, cp []AnalyzedPlane, k int", trig(isleft(y, m, cp, k), cutup(y, p)), imp(isleft(y, m, cp, k) && 0 <= k && k < len(cp) && p == cp[len(cp)-1-k].Plane, ispart(*cutup(y, p), m, cp, len(cp)-k)))
spec turned(m primitives.Mesh, r primitives.RotationMatrix, c primitives.Point) *primitives.Mesh = app("call_primitives.Mesh.Rotate", "*primitives.Mesh", m, r, c)
spec partz(cp []AnalyzedPlane, i int) real = ite(i == 0, 0, cp[i-1].rotz)
spec partt(cp []AnalyzedPlane, i int) bool = i != 0 && cp[i-1].tilted
// x is the i-th part, turned and tilted as its plane says
uf posedpart(x primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int, c primitives.Point) bool
axiom posed_first : forall("x primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int, c primitives.Point", trig(posedpart(x, m, cp, i, c)), imp(i == 0 && ispart(x, m, cp, i), posedpart(x, m, cp, i, c)))
axiom posed_level : forall("y primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int, r primitives.RotationMatrix, c primitives.Point", trig(ispart(y, m, cp, i), turned(y, r, c)), imp(ispart(y, m, cp, i) && i >= 1 && !cp[i-1].tilted && r == rotz(cp[i-1].rotz), posedpart(*turned(y, r, c), m, cp, i, c)))
axiom posed_tilted : forall("y primitives.Mesh, m primitives.Mesh, cp []AnalyzedPlane, i int, r primitives.RotationMatrix, q primitives.RotationMatrix, c primitives.Point", trig(ispart(y, m, cp, i), turned(*turned(y, r, c), q, c)), imp(ispart(y, m, cp, i) && i >= 1 && cp[i-1].tilted && r == rotz(cp[i-1].rotz) && q == rotx(0-angleX), posedpart(*turned(*turned(y, r, c), q, c), m, cp, i, c)))
spec sliced(x primitives.Mesh, s slicers.Settings) []primitives.Layer = app("call_slicers.SliceByVector", "[]primitives.Layer", x, vec3(0,0,1), s)
spec fplanes(m primitives.Mesh, s slicers.Settings) []primitives.Plane = app("call_slicers.CalcFillPlanes", "[]primitives.Plane", m, s)
spec ffplanes(m primitives.Mesh, s slicers.Settings) []primitives.Plane = app("call_slicers.CalcFillPlanes#1", "[]primitives.Plane", m, s)
spec prepared(ls []primitives.Layer, m primitives.Mesh, s slicers.Settings) []primitives.Layer = app("call_vip.PrepareLayers", "[]primitives.Layer", ls, s, fplanes(m, s), ffplanes(m, s))

func calcBedPlanes(cutPlanes) (r)
ensures @C29 [one position for the first part, one for each plane] len(r) == len(cutPlanes) + 1 && !r[0].tilted && r[0].rotz == 0 && all(k, 1, len(r), trig(r[k]), r[k].tilted == cutPlanes[k-1].tilted && r[k].rotz == cutPlanes[k-1].rotz)
cand (res []BedPlane; i idx) :: len(res) == i + 1 && !res[0].tilted && res[0].rotz == 0 && all(k, 1, len(res), trig(res[k]), res[k].tilted == cutPlanes[k-1].tilted && res[k].rotz == cutPlanes[k-1].rotz)

func SliceByPlanes(mesh, settings, cutPlanes) (r)
arg opaquecalls helpers.CutMesh primitives.Mesh.Rotate slicers.SliceByVector slicers.CalcFillPlanes vip.PrepareLayers vip.SkirtPathes debug.RecreateFile
requires !isnil(settings.GcodeSettings) && !isnil(mesh)
use bedz_same
use bedt_same
use groups_same
use left_start
use left_cut
use part_first
use part_above
use posed_first
use posed_level
use posed_tilted
atcall @C29 [not more groups of layers than parts] gcode.Gcode.AddLayers(g, ls) :: groups(g.Cmds, len(g.Cmds)) <= len(cutPlanes)
atcall @C29 [the bed stands as the part's plane says] gcode.Gcode.AddLayers(g, ls) :: bedz(g.Cmds, len(g.Cmds)) == partz(cutPlanes, groups(g.Cmds, len(g.Cmds))) && bedt(g.Cmds, len(g.Cmds)) == partt(cutPlanes, groups(g.Cmds, len(g.Cmds)))
atcall @C29 [the layers are those of the part in this position] gcode.Gcode.AddLayers(g, ls) :: exists("x primitives.Mesh", trig(sliced(x, settings)), posedpart(x, old(*mesh), cutPlanes, groups(g.Cmds, len(g.Cmds)), settings.RotationCenter) && len(ls) == len(prepared(sliced(x, settings), old(*mesh), settings)) && all(k, ite(groups(g.Cmds, len(g.Cmds)) == 0, 1, 0), len(ls), trig(ls[k]), ls[k] == prepared(sliced(x, settings), old(*mesh), settings)[k]))
ensures @C29 [one group of layers for each part] groups(r.Cmds, len(r.Cmds)) == len(cutPlanes) + 1
cand (m *primitives.Mesh; i int) :: -1 <= i && i < len(cutPlanes) && isleft(*m, old(*mesh), cutPlanes, len(cutPlanes)-1-i)
cand (ps []*primitives.Mesh; i int) :: all(k, i+2, len(ps), trig(ps[k]), ispart(*ps[k], old(*mesh), cutPlanes, k))
cand (ps []*primitives.Mesh const) :: len(ps) == len(cutPlanes)+1
cand (g gcode.Gcode; i int) :: groups(g.Cmds, len(g.Cmds)) == i && i <= len(cutPlanes) + 1
cand (g gcode.Gcode; i int) :: imp(i == 0, len(g.Cmds) == 0)
cand (g gcode.Gcode; t bool) :: bedt(g.Cmds, len(g.Cmds)) == t
