package slicers

// ------------------------------------------------------------- fill lines of one plane
// q is where plane p crosses a segment of one of the paths
opaque oncut(ps []Path, p Plane, q Point) bool = exists("j int, i int", trig(ps[j].Points[i]), 0 <= j && j < len(ps) && 1 <= i && i < len(ps[j].Points) && hasx(p, ps[j].Points[i-1], ps[j].Points[i]) && q == xpt(p, ps[j].Points[i-1], ps[j].Points[i]))
lemma oncut_intro : forall("ps []Path, p Plane, j int, i int", trig(ps[j].Points[i], ncross(ps, p, j)), imp(0 <= j && j < len(ps) && 1 <= i && i < len(ps[j].Points) && hasx(p, ps[j].Points[i-1], ps[j].Points[i]), oncut(ps, p, xpt(p, ps[j].Points[i-1], ps[j].Points[i]))))
// such a point lies on the plane and between the ends of the segment
lemma cut_point @C15 hide reveal hasx,xx,xy,xz : forall("p Plane, a Point, b Point", imp(hasx(p, a, b), side(p, xpt(p,a,b)) == 0 && let(t, xt(p,a,b), 0 <= t && t <= 1 && xpt(p,a,b) == pnt3(a.X + t*(b.X-a.X), a.Y + t*(b.Y-a.Y), a.Z + t*(b.Z-a.Z)))))
// number of crossings
fold cseg(ps []Point, p Plane, n int) int = ite(n <= 1, 0, cseg(ps, p, n-1) + ite(hasx(p, ps[n-2], ps[n-1]), 1, 0))
fold ncross(ps []Path, p Plane, n int) int = ite(n <= 0, 0, ncross(ps, p, n-1) + cseg(ps[n-1].Points, p, len(ps[n-1].Points)))

opaque sanepaths(ps []Path) bool = all(j, 0, len(ps), trig(ps[j]), all(i, 0, len(ps[j].Points), trig(ps[j].Points[i]), sane(ps[j].Points[i])))
lemma between_sane hide : forall("a real, b real, t real, m real", imp(abs(a) <= m && abs(b) <= m && 0 <= t && t <= 1, abs(a + t*(b-a)) <= m))
lemma sane_point hide uses cut_point : forall("p Plane, a Point, b Point", by(cut_point(p, a, b), by(between_sane(a.X, b.X, xt(p,a,b), 1000000000), by(between_sane(a.Y, b.Y, xt(p,a,b), 1000000000), by(between_sane(a.Z, b.Z, xt(p,a,b), 1000000000), imp(hasx(p,a,b) && sane(a) && sane(b), sane(xpt(p,a,b))))))))
lemma sane_cut hide reveal oncut,sanepaths uses sane_point : forall("ps []Path, p Plane, q Point", trig(oncut(ps, p, q), sanepaths(ps)), imp(oncut(ps, p, q) && sanepaths(ps), sane(q)))
opaque pairs(ps []Path, p Plane) int = idiv(ncross(ps, p, len(ps)), 2)

func intersectByPlane(pathes, plane) (r)
attr fresh anyorder
use oncut_intro
use sane_cut
reveal saneline pairs
ensures @C15 [of the size of the contours] imp(sanepaths(pathes), all(k, 0, len(r), trig(r[k]), saneline(r[k])))
ensures @C15 [one line for each pair of crossings] len(r) == pairs(pathes, plane) && isnil(r) == (len(r) == 0)
ensures @C15 [lines end where the plane crosses the contours] all(k, 0, len(r), trig(r[k]), len(r[k].Points) == 2 && oncut(pathes, plane, r[k].Points[0]) && oncut(pathes, plane, r[k].Points[1]))
cand (pts []Point) :: all(k, 0, len(pts), trig(pts[k]), oncut(pathes, plane, pts[k]))
cand (pts []Point; i idx) :: len(pts) == ncross(pathes, plane, i)
cand (pts []Point; pth Path const; i int) :: 1 <= i && len(pts) == entry(len(pts)) + cseg(pth.Points, plane, i)
cand (paths []Path; i int) :: i == 2*len(paths) + 1
cand (paths []Path) :: all(k, 0, len(paths), trig(paths[k]), len(paths[k].Points) == 2 && oncut(pathes, plane, paths[k].Points[0]) && oncut(pathes, plane, paths[k].Points[1]))
cand (pth Path const; i int) :: imp(i > 1, i <= len(pth.Points))
cand (paths []Path; pts []Point const; i int) :: i <= len(pts) + 1

// ------------------------------------------------------------- fill lines of a layer
// innermost contours
spec inner(l Layer) []Path = ite(isnil(l.InnerPs), l.Paths, l.InnerPs)
opaque drawn(l Path, ps []Path, planes []Plane) bool = len(l.Points) == 2 && exists("j int", trig(planes[j]), 0 <= j && j < len(planes) && oncut(ps, planes[j], l.Points[0]) && oncut(ps, planes[j], l.Points[1]))
fold nfill(ps []Path, planes []Plane, n int) int = ite(n <= 0, 0, nfill(ps, planes, n-1) + pairs(ps, planes[n-1]))
// the old lines, then those of the planes
opaque extended(f []Path, of []Path, ps []Path, planes []Plane, n int) bool = 0 <= len(of) && len(of) <= len(f) && len(f) == len(of) + nfill(ps, planes, n) && all(k, 0, len(of), trig(f[k]), f[k] == of[k]) && all(k, len(of), len(f), trig(f[k]), drawn(f[k], ps, planes))
// the same, in any order
opaque infilled(f []Path, of []Path, ps []Path, planes []Plane) bool = len(f) == len(of) + nfill(ps, planes, len(planes)) && all(k, 0, len(f), trig(f[k]), fromlist(f[k], of) || drawn(f[k], ps, planes)) && forall("l Path", trig(nline(f, l, len(f))), nline(f, l, len(f)) >= nline(of, l, len(of)))
opaque sanelayer(l Layer) bool = sanepaths(inner(l)) && all(k, 0, len(l.Fill), trig(l.Fill[k]), saneline(l.Fill[k]))
opaque eqwalls(o int, n Vector, ps []Path, ms []Path, qs []Path, o2 int, n2 Vector, ps2 []Path, ms2 []Path, qs2 []Path) bool = o == o2 && n == n2 && ps == ps2 && ms == ms2 && qs == qs2
spec samewalls(a Layer, b Layer) bool = eqwalls(a.Order, a.Norm, a.Paths, a.MiddlePs, a.InnerPs, b.Order, b.Norm, b.Paths, b.MiddlePs, b.InnerPs)
lemma eqwalls_same : forall("o int, n Vector, ps []Path, ms []Path, qs []Path", trig(eqwalls(o,n,ps,ms,qs,o,n,ps,ms,qs)), eqwalls(o,n,ps,ms,qs,o,n,ps,ms,qs))

lemma drawn_same reveal drawn,sameline : forall("a Path, b Path, ps []Path, planes []Plane", trig(drawn(a, ps, planes), sameline(a, b)), imp(drawn(a, ps, planes) && sameline(a, b), drawn(b, ps, planes)))
lemma drawn_intro reveal drawn : forall("a Path, ps []Path, planes []Plane, j int", trig(drawn(a, ps, planes), planes[j]), imp(len(a.Points) == 2 && 0 <= j && j < len(planes) && oncut(ps, planes[j], a.Points[0]) && oncut(ps, planes[j], a.Points[1]), drawn(a, ps, planes)))
lemma nline_prefix ind n hide : forall("f []Path, l Path, m int, n int", trig(nline(f, l, m), nline(f, l, n)), imp(0 <= m && m <= n, nline(f, l, m) <= nline(f, l, n)))
lemma ext_start reveal extended : forall("f []Path, ps []Path, planes []Plane", trig(extended(f, f, ps, planes, 0)), imp(0 <= len(f), extended(f, f, ps, planes, 0)))
lemma ext_step hide reveal extended uses drawn_intro : forall("f []Path, g []Path, of []Path, ps []Path, planes []Plane, n int, m int", trig(extended(f, of, ps, planes, n), extended(g, of, ps, planes, m)), imp(extended(f, of, ps, planes, n) && 0 <= n && n < len(planes) && m == n+1 && len(f) <= len(g) && len(g) == len(f) + pairs(ps, planes[n]) && all(k, 0, len(f), trig(g[k]), g[k] == f[k]) && all(k, len(f), len(g), trig(g[k]), len(g[k].Points) == 2 && oncut(ps, planes[n], g[k].Points[0]) && oncut(ps, planes[n], g[k].Points[1])), extended(g, of, ps, planes, m)))
lemma sorted_line hide reveal extended,fromlist uses drawn_same : forall("f []Path, b Path, of []Path, ps []Path, planes []Plane, n int", trig(extended(f, of, ps, planes, n), fromlist(b, f)), imp(extended(f, of, ps, planes, n) && fromlist(b, f), fromlist(b, of) || drawn(b, ps, planes)))
lemma sorted_count hide reveal extended uses nline_prefix,nline_same : forall("f []Path, of []Path, ps []Path, planes []Plane, n int, l Path", trig(extended(f, of, ps, planes, n), nline(of, l, len(of)), nline(f, l, len(f))), by(nline_prefix(f, l, len(of), len(f)), by(nline_same(of, f, l, l, len(of)), imp(extended(f, of, ps, planes, n), nline(f, l, len(f)) >= nline(of, l, len(of))))))
lemma ext_filled hide reveal infilled uses sorted_line,sorted_count : forall("f []Path, g []Path, of []Path, ps []Path, planes []Plane, n int", trig(extended(f, of, ps, planes, n), infilled(g, of, ps, planes)), imp(extended(f, of, ps, planes, n) && n == len(planes) && len(g) == len(f) && len(f) == len(of) + nfill(ps, planes, n) && all(k, 0, len(g), trig(g[k]), fromlist(g[k], f)) && forall("l Path", trig(nline(g, l, len(g))), nline(g, l, len(g)) == nline(f, l, len(f))), infilled(g, of, ps, planes)))
lemma ext_len hide reveal extended : forall("f []Path, of []Path, ps []Path, planes []Plane, n int", trig(extended(f, of, ps, planes, n)), imp(extended(f, of, ps, planes, n), len(f) == len(of) + nfill(ps, planes, n)))

func FillLayers(layers, planes, fullPlane, settings) (r)
arg candtimeout 8000
modifies layers[*]
reveal sanelayer
use eqwalls_same
use ext_start
use ext_step
use ext_filled
use ext_len
requires all(k, 0, len(layers), trig(layers[k]), sanelayer(layers[k]))
ensures @C15 [number and order of the layers kept] len(r) == len(layers) && all(k, 0, len(layers), trig(r[k]), r[k] == layers[k])
ensures @C15 [walls and contours kept] all(k, 0, len(layers), trig(layers[k]), samewalls(layers[k], old(layers[k])))
ensures @C15 [filled with solid planes at bottom and top, else with the sparse ones] all(k, 0, len(layers), trig(layers[k]), infilled(layers[k].Fill, old(layers[k].Fill), old(inner(layers[k])), ite(k < settings.BottomLayers || k >= len(layers) - settings.TopLayers, fullPlane, planes)))
cand outer (i idx) :: all(k, i, len(layers), trig(layers[k]), layers[k] == old(layers[k]))
cand outer (i idx) :: all(k, 0, i, trig(layers[k]), samewalls(layers[k], old(layers[k])))
cand outer (i idx) :: all(k, 0, i, trig(layers[k]), infilled(layers[k].Fill, old(layers[k].Fill), old(inner(layers[k])), ite(k < settings.BottomLayers || k >= len(layers) - settings.TopLayers, fullPlane, planes)))
cand nested (i int const) :: i < len(layers) && all(k, i+1, len(layers), trig(layers[k]), layers[k] == old(layers[k]))
cand nested (i int const) :: i < len(layers) && all(k, 0, i, trig(layers[k]), samewalls(layers[k], old(layers[k])))
cand nested (i int const) :: i < len(layers) && all(k, 0, i, trig(layers[k]), infilled(layers[k].Fill, old(layers[k].Fill), old(inner(layers[k])), ite(k < settings.BottomLayers || k >= len(layers) - settings.TopLayers, fullPlane, planes)))
cand nested (i int const; q idx) :: i < len(layers) && samewalls(layers[i], old(layers[i])) && extended(layers[i].Fill, old(layers[i].Fill), old(inner(layers[i])), ite(i < settings.BottomLayers || i >= len(layers) - settings.TopLayers, fullPlane, planes), q)
cand nested (i int const) :: i < len(layers) && all(k, 0, len(layers[i].Fill), trig(layers[i].Fill[k]), saneline(layers[i].Fill[k]))
