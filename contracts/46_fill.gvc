package slicers

// the same line, in either direction
opaque sameline(a Path, b Path) bool = len(a.Points) == len(b.Points) && (all(k, 0, len(a.Points), trig(a.Points[k]), a.Points[k] == b.Points[k]) || all(k, 0, len(a.Points), trig(a.Points[k]), a.Points[k] == b.Points[len(a.Points)-1-k]))
fold nline(ps []Path, l Path, n int) int = ite(n <= 0, 0, nline(ps, l, n-1) + ite(sameline(ps[n-1], l), 1, 0))
// lines among the first n that are in use, and their number
fold uline(ps []Path, u []bool, l Path, n int) int = ite(n <= 0, 0, uline(ps, u, l, n-1) + ite(u[n-1] && sameline(ps[n-1], l), 1, 0))
fold nused(u []bool, n int) int = ite(n <= 0, 0, nused(u, n-1) + ite(u[n-1], 1, 0))
lemma nused_all ind n hide : forall("u []bool, n int", trig(nused(u, n)), imp(0 <= n && all(k, 0, n, trig(u[k]), u[k]), nused(u, n) == n))
lemma nused_set ind n hide : forall("u []bool, w []bool, j int, n int", trig(nused(u, n), nused(w, n), w[j]), imp(0 <= n && 0 <= j && !u[j] && w[j] && all(k, 0, n, trig(w[k]), imp(k != j, w[k] == u[k])), nused(w, n) == nused(u, n) + ite(j < n, 1, 0)))
lemma uline_set ind n hide : forall("ps []Path, u []bool, w []bool, l Path, j int, n int", trig(uline(ps, w, l, n), nused(u, n), w[j]), imp(0 <= n && 0 <= j && !u[j] && w[j] && all(k, 0, n, trig(w[k]), imp(k != j, w[k] == u[k])), uline(ps, w, l, n) == uline(ps, u, l, n) + ite(j < n && sameline(ps[j], l), 1, 0)))
lemma uline_full ind n hide : forall("ps []Path, u []bool, l Path, n int", trig(uline(ps, u, l, n), nline(ps, l, n)), imp(0 <= n, nused(u, n) <= n && imp(nused(u, n) == n, uline(ps, u, l, n) == nline(ps, l, n))))
lemma sameline_turned : forall("a Path, b Path, l Path", trig(sameline(a, l), sameline(b, l)), imp(len(a.Points) == len(b.Points) && all(k, 0, len(a.Points), trig(b.Points[k]), b.Points[k] == a.Points[len(a.Points)-1-k]), sameline(a, l) == sameline(b, l)))

// coordinates so large that distances overflow are out of scope
spec sane(p Point) bool = abs(p.X) <= 1000000000 && abs(p.Y) <= 1000000000 && abs(p.Z) <= 1000000000
opaque saneline(p Path) bool = len(p.Points) >= 1 && sane(p.Points[0]) && sane(p.Points[len(p.Points)-1])
lemma sane_dist hide : forall("a Point, b Point", trig(sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))), imp(sane(a) && sane(b), sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z)) < 10000000000))
lemma saneline_turned : forall("a Path, b Path", trig(saneline(a), saneline(b)), imp(saneline(a) && len(a.Points) == len(b.Points) && b.Points[0] == a.Points[len(a.Points)-1] && b.Points[len(b.Points)-1] == a.Points[0], saneline(b)))
lemma nused_first ind n hide : forall("u []bool, n int", trig(nused(u, n)), imp(1 <= n && u[0] && all(k, 1, n, trig(u[k]), !u[k]), nused(u, n) == 1))
lemma uline_first ind n hide : forall("ps []Path, u []bool, l Path, n int", trig(uline(ps, u, l, n)), imp(1 <= n && u[0] && all(k, 1, n, trig(u[k]), !u[k]), uline(ps, u, l, n) == ite(sameline(ps[0], l), 1, 0)))
lemma nline_least ind n hide : forall("ps []Path, l Path, n int", trig(nline(ps, l, n)), imp(0 <= n, nline(ps, l, n) >= 0))
lemma nline_same ind n hide : forall("ps []Path, qs []Path, l Path, m Path, n int", trig(nline(qs, l, n), nline(ps, m, n)), imp(0 <= n && all(k, 0, n, trig(qs[k]), qs[k] == ps[k]), nline(qs, l, n) == nline(ps, l, n)))

opaque fromlist(l Path, ps []Path) bool = exists("j int", trig(ps[j]), 0 <= j && j < len(ps) && sameline(ps[j], l))
lemma from_list : forall("ps []Path, j int", trig(fromlist(ps[j], ps)), imp(0 <= j && j < len(ps), fromlist(ps[j], ps)))
lemma from_turned : forall("ps []Path, j int, b Path", trig(fromlist(b, ps), sameline(ps[j], b)), imp(0 <= j && j < len(ps) && len(ps[j].Points) == len(b.Points) && all(k, 0, len(b.Points), trig(b.Points[k]), b.Points[k] == ps[j].Points[len(b.Points)-1-k]), fromlist(b, ps)))

func sortFillPathes(fill) (r)
reveal saneline
requires all(k, 0, len(fill), trig(fill[k]), saneline(fill[k]))
use nused_all
use nused_set
use nused_first
use uline_set
use uline_full
use uline_first
use sameline_turned
use nline_least
use nline_same
use sane_dist
use @C15 from_list
use @C15 from_turned
ensures @C16 [starts with the first line] len(r) == len(fill) && imp(len(fill) > 0, r[0] == fill[0])
ensures @C15 [as many lines] len(r) == len(fill)
ensures @C15 [every line is one of the given, as it was or reversed] all(k, 0, len(r), trig(r[k]), fromlist(r[k], fill))
ensures @C15 [no line lost] forall("l Path", trig(nline(r, l, len(r))), nline(r, l, len(r)) == nline(fill, l, len(fill)))
cand @C15 (res []Path) :: all(k, 0, len(res), trig(res[k]), fromlist(res[k], fill))
ensures @C16 [every line exactly once, as it was or reversed] forall("l Path", trig(nline(r, l, len(r))), nline(r, l, len(r)) == nline(fill, l, len(fill)))
cand (res []Path; i int) :: len(res) == i && i >= 1 && i <= len(fill) && res[0] == fill[0]
cand (res []Path; used []bool; i int) :: len(used) == len(fill) && used[0] && nused(used, len(fill)) == i
cand (res []Path; used []bool; i int) :: forall("l Path", trig(nline(res, l, len(res))), nline(res, l, len(res)) == uline(fill, used, l, len(fill)))
cand (res []Path) :: nline(res, fill[0], len(res)) >= 0
cand (res []Path) :: all(k, 0, len(res), trig(res[k]), saneline(res[k]))
cand (used []bool const; d real; sj int; j int) :: 0 <= sj && sj < j && j <= len(fill) && imp(sj > 0, !used[sj]) && imp(sj == 0, d > 10000000000 && all(k, 1, j, trig(used[k]), used[k]))

// ------------------------------------------------------------- fill planes
// planes ps[from], .., ps[from+n-1] are perpendicular to a and s*|a| apart
opaque family(ps []Plane, from int, n int, a Vector, s real) bool = all(k, from, from+n, trig(ps[k]), ps[k].N == a && ps[k].P == shift(ps[from].P, vmul(real(k-from)*s, a)))
// position of a point along a, times the length of a
opaque axis(q Point, a Vector) real = dot(asvec(q), a)
opaque asq2(a Vector) real = sq(a)
// a plane that is not farther than the spacing from q
spec jn(d real, e real, w real, s real) int = floor((d - w)/(s*e)) + 1
opaque kn(d real, e real, w real, s real, n int) int = ite(jn(d,e,w,s) < n, jn(d,e,w,s), n-1)
spec nearest(ps []Plane, from int, n int, a Vector, s real, q Point) int = from + kn(axis(q,a), asq2(a), axis(ps[from].P,a), s, n)
opaque covers(ps []Plane, from int, n int, a Vector, s real, q Point) bool = let(k, nearest(ps, from, n, a, s, q), from <= k && k < from+n && ps[k].N == a && abs(axis(q,a) - axis(ps[k].P,a)) <= s*asq2(a))

spec radius(m Mesh) real = sqrt(max(abs(lowest(m, vec3(1,0,0))), abs(highest(m, vec3(1,0,0))))*max(abs(lowest(m, vec3(1,0,0))), abs(highest(m, vec3(1,0,0)))) + max(abs(lowest(m, vec3(0,1,0))), abs(highest(m, vec3(0,1,0))))*max(abs(lowest(m, vec3(0,1,0))), abs(highest(m, vec3(0,1,0)))))
opaque start(r real, s real) real = real(floor((0-r)/s))*s
opaque count(r real, s real) int = ceil((r - start(r, s))/s)
// q lies within the sides of the box around triangle t
spec boxed(t Triangle, q Point) bool = tlo(t, vec3(1,0,0)) <= q.X && q.X <= thi(t, vec3(1,0,0)) && tlo(t, vec3(0,1,0)) <= q.Y && q.Y <= thi(t, vec3(0,1,0))

spec total(m Mesh, s real) int = max(0, count(radius(m), s))
// a family that starts before the far side of the model and ends behind it
opaque spans(ps []Plane, from int, n int, a Vector, s real, m Mesh) bool = n == total(m, s) && family(ps, from, n, a, s) && imp(n > 0, ps[from].P == aspt(vmul(start(radius(m), s) + s, a)))
lemma spans_move : forall("ps []Plane, qs []Plane, f int, g int, n int, a Vector, s real, m Mesh", trig(spans(ps, f, n, a, s, m), spans(qs, g, n, a, s, m)), imp(spans(ps, f, n, a, s, m) && all(k, g, g+n, trig(qs[k]), qs[k] == ps[k-g+f]), spans(qs, g, n, a, s, m)))

func calcFillPlanesCommon(mesh, settings, a, step) (r)
attr fresh
reveal start count family spans
requires !isnil(mesh) && step > 0 && a.Z == 0 && sq(a) >= 1
ensures @C14 [parallel planes at a fixed spacing, across the whole model] len(r) == total(*mesh, step) && spans(r, 0, len(r), a, step, *mesh)
cand (curP Point; planes []Plane; i int) :: len(planes) == i && imp(i == 0, curP == aspt(vmul(start(radius(*mesh), step), a))) && imp(i > 0, planes[0].P == aspt(vmul(start(radius(*mesh), step) + step, a)) && curP == shift(planes[0].P, vmul(real(i-1)*step, a)))
cand (planes []Plane; i int) :: all(k, 0, i, trig(planes[k]), planes[k].N == a && planes[k].P == shift(planes[0].P, vmul(real(k)*step, a)))

// spacing of each of so many families
spec apart(g Settings, parts int) real = real(parts)*100/real(g.FillDensity)*g.GcodeSettings.LineWidth
lemma density @C14 : forall("w real, d int, parts int", imp(w > 0 && d > 0 && parts > 0, real(parts)*(w/(real(parts)*100/real(d)*w)) == real(d)/100))
spec fillable(g Settings) bool = !isnil(g.GcodeSettings) && g.GcodeSettings.LineWidth > 0 && g.FillDensity >= 1
opaque lined(ps []Plane, s real, m Mesh) bool = len(ps) == total(m, s) && spans(ps, 0, len(ps), vec3(1,0,0), s, m)
opaque squared(ps []Plane, s real, m Mesh) bool = let(n, total(m, s), len(ps) == 2*n && spans(ps, 0, n, vec3(0.7071067812, 0.7071067812, 0), s, m) && spans(ps, n, n, vec3(0-0.7071067812, 0.7071067812, 0), s, m))
opaque triangled(ps []Plane, s real, m Mesh) bool = let(n, total(m, s), len(ps) == 3*n && spans(ps, 0, n, vec3(1,0,0), s, m) && spans(ps, n, n, vec3(0.5, 0.8660254038, 0), s, m) && spans(ps, 2*n, n, vec3(0-0.5, 0.8660254038, 0), s, m))

func CalcFillPlanesLines(mesh, settings) (r)
requires !isnil(mesh) && fillable(settings)
reveal lined
ensures @C14 [one family with the requested density] lined(r, apart(settings, 1), *mesh)

func CalcFillPlanesSquares(mesh, settings) (r)
requires !isnil(mesh) && fillable(settings)
reveal squared
use spans_move
ensures @C14 [two families with the requested density in sum] squared(r, apart(settings, 2), *mesh)

func CalcFillPlanesTriangles(mesh, settings) (r)
requires !isnil(mesh) && fillable(settings)
reveal triangled
use spans_move
ensures @C14 [three families with the requested density in sum] triangled(r, apart(settings, 3), *mesh)

func CalcFillFullPlane(mesh, settings) (r)
requires !isnil(mesh) && fillable(settings)
reveal lined
ensures @C14 [solid fill] lined(r, settings.GcodeSettings.LineWidth, *mesh)

func CalcFillPlanes(mesh, settings) (r, full)
requires !isnil(mesh) && fillable(settings)
ensures @C14 [planes of the configured type] ite(settings.FillingType == "Squares", squared(r, apart(settings, 2), *mesh), ite(settings.FillingType == "Triangles", triangled(r, apart(settings, 3), *mesh), lined(r, apart(settings, 1), *mesh)))
ensures @C14 [solid fill for top and bottom] lined(full, settings.GcodeSettings.LineWidth, *mesh)

lemma cauchy_step : forall("x real, y real, u real, v real", (x*u + y*v)*(x*u + y*v) <= (x*x + y*y)*(u*u + v*v))
lemma root_bound hide : forall("d real, r real, e real", imp(d*d <= r*r*e && e >= 1 && r >= 0, abs(d) <= r*e))
lemma scale_bound hide : forall("p real, r real, e real", imp(p <= r && e >= 1, p*e <= r*e))
lemma plane_bound @C14 hide : forall("x real, y real, u real, v real, r real", by(cauchy_step(x,y,u,v), by(scale_bound(x*x+y*y, r*r, u*u+v*v), by(root_bound(x*u+y*v, r, u*u+v*v), imp(x*x + y*y <= r*r && u*u + v*v >= 1 && r >= 0, abs(x*u + y*v) <= r*(u*u + v*v))))))
lemma steps_reach @C14 hide reveal start,count : forall("r real, s real", imp(s > 0 && r >= 0, start(r,s) <= 0-r && r <= start(r,s) + real(count(r,s))*s && imp(r > 0, count(r,s) >= 1) && count(r,s) >= 0))
// x = d/e is the position along the axis
lemma pick @C14 hide : forall("x real, o real, s real, r real, n int, j int", imp(s > 0 && o <= 0-r && r <= o + real(n)*s && n >= 1 && 0-r <= x && x <= r && real(j) <= (x-o)/s && (x-o)/s < real(j)+1, let(k, ite(j < n, j, n-1), 0 <= k && k < n && abs(x - (o + s + real(k)*s)) <= s)))
lemma along @C14 hide : forall("d real, e real, o real, s real", imp(e >= 1 && s > 0, (d - (o+s)*e)/(s*e) + 1 == (d/e - o)/s))
lemma unscale hide : forall("d real, e real, w real, s real", imp(e >= 1 && abs(d/e - w) <= s, abs(d - w*e) <= s*e))
lemma scaled hide : forall("d real, e real, r real", imp(e >= 1 && abs(d) <= r*e, 0-r <= d/e && d/e <= r))
lemma cover_scalar @C14 hide reveal kn : forall("d real, e real, w real, o real, s real, r real, n int", by(along(d,e,o,s), by(scaled(d,e,r), by(pick(d/e, o, s, r, n, jn(d,e,w,s)), by(unscale(d, e, o + s + real(kn(d,e,w,s,n))*s, s), imp(w == (o+s)*e && e >= 1 && s > 0 && abs(d) <= r*e && n >= 1 && o <= 0-r && r <= o + real(n)*s, 0 <= kn(d,e,w,s,n) && kn(d,e,w,s,n) < n && abs(d - (o + s + real(kn(d,e,w,s,n))*s)*e) <= s*e))))))
lemma axis_at @C14 hide reveal axis,asq2 : forall("p Point, r Point, k real, s real, a Vector, o real", imp(p == aspt(vmul(o+s, a)), axis(p,a) == (o+s)*asq2(a) && imp(r == shift(p, vmul(k*s, a)), axis(r, a) == (o + s + k*s)*asq2(a))))
lemma axis_bound @C14 hide reveal axis,asq2 : forall("q Point, a Vector, r real", by(plane_bound(q.X, q.Y, a.X, a.Y, r), imp(a.Z == 0 && asq2(a) >= 1 && r >= 0 && q.X*q.X + q.Y*q.Y <= r*r, abs(axis(q,a)) <= r*asq2(a))))
lemma cover_at @C14 hide reveal covers,family : forall("ps []Plane, from int, n int, a Vector, s real, q Point, r real, o real", by(axis_bound(q, a, r), by(cover_scalar(axis(q,a), asq2(a), axis(ps[from].P,a), o, s, r, n), by(axis_at(ps[from].P, ps[nearest(ps,from,n,a,s,q)].P, real(nearest(ps,from,n,a,s,q)-from), s, a, o), imp(family(ps,from,n,a,s) && ps[from].P == aspt(vmul(o+s, a)) && a.Z == 0 && asq2(a) >= 1 && s > 0 && r >= 0 && q.X*q.X + q.Y*q.Y <= r*r && n >= 1 && o <= 0-r && r <= o + real(n)*s, covers(ps, from, n, a, s, q))))))
lemma box_radius @C14 hide : forall("m Mesh, q Point, t int", by(mlo_least(m.Triangles, vec3(1,0,0), t, len(m.Triangles)), by(mlo_least(m.Triangles, vec3(0,1,0), t, len(m.Triangles)), by(mhi_most(m.Triangles, vec3(1,0,0), t, len(m.Triangles)), by(mhi_most(m.Triangles, vec3(0,1,0), t, len(m.Triangles)), imp(0 <= t && t < len(m.Triangles) && boxed(m.Triangles[t], q), q.X*q.X + q.Y*q.Y <= radius(m)*radius(m) && radius(m) >= 0 && imp(q.X != 0 || q.Y != 0, radius(m) > 0)))))))
lemma spans_cover @C14 hide reveal spans : forall("ps []Plane, from int, n int, a Vector, s real, m Mesh, q Point, t int", by(box_radius(m, q, t), by(steps_reach(radius(m), s), by(cover_at(ps, from, n, a, s, q, radius(m), start(radius(m), s)), imp(spans(ps, from, n, a, s, m) && a.Z == 0 && asq2(a) >= 1 && s > 0 && 0 <= t && t < len(m.Triangles) && boxed(m.Triangles[t], q) && (q.X != 0 || q.Y != 0), covers(ps, from, n, a, s, q))))))
