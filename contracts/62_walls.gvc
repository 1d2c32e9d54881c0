package vip

// ------------------------------------------------------------- offsets of a contour
// what MakeOffset returns
spec mo(p Path, w real, n Vector) *Path = app("call_vip.MakeOffset", "*Path", p, w, n)
// each path of r is the offset of the one before it, the first that of p; c of them unless one vanishes
opaque offsets(r []Path, p Path, c int, w real, n Vector) bool = 0 <= len(r) && len(r) <= c && imp(len(r) > 0, !isnil(mo(p, w, n)) && r[0] == *mo(p, w, n)) && all(k, 1, len(r), trig(r[k]), !isnil(mo(r[k-1], w, n)) && r[k] == *mo(r[k-1], w, n)) && imp(len(r) == 0, isnil(mo(p, w, n))) && imp(0 < len(r) && len(r) < c, isnil(mo(r[len(r)-1], w, n)))

func offset(pth, addWallsCount, nozzle, norm) (r)
arg opaquecalls vip.MakeOffset
reveal offsets
requires addWallsCount >= 1
ensures @C17 [each offset once from the previous one] offsets(r, pth, addWallsCount, nozzle, norm)
cand (res []Path; i int) :: len(res) == i && 1 <= i && i <= addWallsCount
cand (res []Path) :: !isnil(mo(pth, nozzle, norm)) && res[0] == *mo(pth, nozzle, norm)
cand (res []Path) :: all(k, 1, len(res), trig(res[k]), !isnil(mo(res[k-1], nozzle, norm)) && res[k] == *mo(res[k-1], nozzle, norm))

// ------------------------------------------------------------- inner walls
// walled(ps, i, ms, m, ns, n, m0, n0, c, w, v): ms[m0..m) and ns[n0..n) are the inner walls of ps[0..i): of the offsets
// of each path the last one is in ns and the others are in ms. It is the least relation with these rules.
uf walled(ps []Path, i int, ms []Path, m int, ns []Path, n int, m0 int, n0 int, c int, w real, v Vector) bool
axiom walled_start : forall("ps []Path, ms []Path, ns []Path, m int, n int, c int, w real, v Vector", trig(walled(ps,0,ms,m,ns,n,m,n,c,w,v)), walled(ps,0,ms,m,ns,n,m,n,c,w,v))
axiom walled_none : forall("ps []Path, i int, j int, ms []Path, m int, ns []Path, n int, m0 int, n0 int, c int, w real, v Vector, os []Path", trig(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v), walled(ps,j,ms,m,ns,n,m0,n0,c,w,v), offsets(os,ps[i],c,w,v)), imp(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v) && j == i+1 && offsets(os,ps[i],c,w,v) && len(os) == 0, walled(ps,j,ms,m,ns,n,m0,n0,c,w,v)))
axiom walled_short : forall("ps []Path, i int, j int, ms []Path, m int, ns []Path, n int, m0 int, n0 int, c int, w real, v Vector", trig(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v), walled(ps,j,ms,m,ns,n,m0,n0,c,w,v)), imp(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v) && j == i+1 && len(ps[i].Points) < 2, walled(ps,j,ms,m,ns,n,m0,n0,c,w,v)))
axiom walled_add : forall("ps []Path, i int, j int, ms []Path, m int, ns []Path, n int, ms2 []Path, m2 int, ns2 []Path, n2 int, m0 int, n0 int, c int, w real, v Vector, os []Path", trig(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v), walled(ps,j,ms2,m2,ns2,n2,m0,n0,c,w,v), offsets(os,ps[i],c,w,v)), imp(walled(ps,i,ms,m,ns,n,m0,n0,c,w,v) && j == i+1 && offsets(os,ps[i],c,w,v) && len(os) > 0 && len(ps[i].Points) >= 2 && m2 == m + len(os) - 1 && n2 == n+1 && all(k, 0, m, trig(ms2[k]), ms2[k] == ms[k]) && all(k, m, m2, trig(ms2[k]), ms2[k] == os[k-m]) && all(k, 0, n, trig(ns2[k]), ns2[k] == ns[k]) && ns2[n] == os[len(os)-1], walled(ps,j,ms2,m2,ns2,n2,m0,n0,c,w,v)))

// l is o with the walls of its first j contours added
opaque walls(l Layer, o Layer, j int, c int, w real) bool = l.Order == o.Order && l.Norm == o.Norm && l.Paths == o.Paths && l.Fill == o.Fill && 0 <= len(o.MiddlePs) && 0 <= len(o.InnerPs) && len(o.MiddlePs) <= len(l.MiddlePs) && len(o.InnerPs) <= len(l.InnerPs) && isnil(l.InnerPs) == (isnil(o.InnerPs) && len(l.InnerPs) == 0) && all(k, 0, len(o.MiddlePs), trig(l.MiddlePs[k]), l.MiddlePs[k] == o.MiddlePs[k]) && all(k, 0, len(o.InnerPs), trig(l.InnerPs[k]), l.InnerPs[k] == o.InnerPs[k]) && walled(o.Paths, j, l.MiddlePs, len(l.MiddlePs), l.InnerPs, len(l.InnerPs), len(o.MiddlePs), len(o.InnerPs), c, w, o.Norm)
spec wallcount(s Settings) int = floor(s.WallThickness / s.GcodeSettings.LineWidth) - 1

func PrepareLayers(layers, settings, planes, fullPanes) (r)
arg opaquecalls slicers.FillLayers
modifies layers[*]
reveal walls
use walled_start
use walled_none
use walled_short
use walled_add
requires !isnil(settings.GcodeSettings) && settings.GcodeSettings.LineWidth > 0 && settings.WallThickness >= 0
atcall @C17 [walls of the configured thickness, contours untouched] slicers.FillLayers(ls, ps, fs, s) :: len(ls) == len(layers) && all(k, 0, len(ls), trig(ls[k]), ite(wallcount(settings) > 0, walls(ls[k], old(layers[k]), len(old(layers[k].Paths)), wallcount(settings), settings.GcodeSettings.LineWidth), ls[k] == old(layers[k])))
atcall @C17 [filled with the planes given] slicers.FillLayers(ls, ps, fs, s) :: ps == planes && fs == fullPanes && s == settings
ensures @C17 [the filled layers are returned] exists("ls []Layer", trig(app("call_slicers.FillLayers", "[]Layer", ls, planes, fullPanes, settings)), r == app("call_slicers.FillLayers", "[]Layer", ls, planes, fullPanes, settings))
cand outer (i idx) :: all(k, i, len(layers), trig(layers[k]), layers[k] == old(layers[k]))
cand outer (i idx) :: all(k, 0, i, trig(layers[k]), walls(layers[k], old(layers[k]), len(old(layers[k].Paths)), wallcount(settings), settings.GcodeSettings.LineWidth))
cand nested (i int const) :: 0 <= i && i < len(layers) && all(k, i+1, len(layers), trig(layers[k]), layers[k] == old(layers[k]))
cand nested (i int const) :: i < len(layers) && all(k, 0, i, trig(layers[k]), walls(layers[k], old(layers[k]), len(old(layers[k].Paths)), wallcount(settings), settings.GcodeSettings.LineWidth))
cand nested (i int const; q idx) :: i < len(layers) && walls(layers[i], old(layers[i]), q, wallcount(settings), settings.GcodeSettings.LineWidth)

// ------------------------------------------------------------- skirt
// skirted(ps, i, rs, n, c, w, v): rs[0..n) are the contours ps[0..i) of at least two points, each after its offsets,
// the outermost first. It is the least relation with these rules.
uf skirted(ps []Path, i int, rs []Path, n int, c int, w real, v Vector) bool
axiom skirt_start : forall("ps []Path, rs []Path, c int, w real, v Vector", trig(skirted(ps,0,rs,0,c,w,v)), skirted(ps,0,rs,0,c,w,v))
axiom skirt_short : forall("ps []Path, i int, j int, rs []Path, n int, c int, w real, v Vector", trig(skirted(ps,i,rs,n,c,w,v), skirted(ps,j,rs,n,c,w,v)), imp(skirted(ps,i,rs,n,c,w,v) && j == i+1 && len(ps[i].Points) < 2, skirted(ps,j,rs,n,c,w,v)))
axiom skirt_add : forall("ps []Path, i int, j int, rs []Path, n int, rs2 []Path, n2 int, c int, w real, v Vector, os []Path", trig(skirted(ps,i,rs,n,c,w,v), skirted(ps,j,rs2,n2,c,w,v), offsets(os,ps[i],c,w,v)), imp(skirted(ps,i,rs,n,c,w,v) && j == i+1 && offsets(os,ps[i],c,w,v) && len(ps[i].Points) >= 2 && n2 == n + len(os) + 1 && all(k, 0, n, trig(rs2[k]), rs2[k] == rs[k]) && all(k, n, n+len(os), trig(rs2[k]), rs2[k] == os[len(os)-1-(k-n)]) && rs2[n+len(os)] == ps[i], skirted(ps,j,rs2,n2,c,w,v)))

func SkirtPathes(first, count, lineWidth) (r)
use skirt_start
use skirt_short
use skirt_add
requires count >= 0
ensures @C17 [no skirt asked for] imp(count == 0, r == first)
ensures @C17 [skirt outside the contours, which are kept] imp(count > 0, skirted(first.Paths, len(first.Paths), r.Paths, len(r.Paths), count, lineWidth, vec3(0-first.Norm.X, 0-first.Norm.Y, 0-first.Norm.Z)))
ensures @C17 [all else is kept] r.Order == first.Order && r.Norm == first.Norm && r.MiddlePs == first.MiddlePs && r.InnerPs == first.InnerPs && r.Fill == first.Fill
cand outer (res []Path; i idx) :: skirted(first.Paths, i, res, len(res), count, lineWidth, vec3(0-first.Norm.X, 0-first.Norm.Y, 0-first.Norm.Z))
cand nested (res []Path; offs []Path const; j idx) :: all(k, entry(len(res)), len(res), trig(res[k]), res[k] == offs[len(offs)-1-(k-entry(len(res)))])
