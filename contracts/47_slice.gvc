package primitives

// starts the workers; what they do is verified at the call
func DoInParallel(work) ()
attr trusted
attr farm

package slicers

// ------------------------------------------------------------- planes and layers
spec planecount(m Mesh, z Vector, t real) int = ceil((highest(m, z) - lowest(m, z)) / t)
// height after k steps
fold hgt(a real, d real, k int) real = ite(k <= 0, a, hgt(a, d, k-1) + d)
lemma hgt_lin @C03 ind k hide : forall("a real, d real, k int", trig(hgt(a, d, k)), imp(0 <= k, hgt(a, d, k) == a + real(k)*d))
lemma span @C03 hide reveal tlo,thi uses mlo_least,mhi_most : forall("m Mesh, z Vector", trig(lowest(m, z)), by(mlo_least(m.Triangles, z, 0, len(m.Triangles)), by(mhi_most(m.Triangles, z, 0, len(m.Triangles)), imp(len(m.Triangles) >= 0, lowest(m, z) <= highest(m, z)))))

// the layers are numbered by distinct places
opaque ranked(ls []Layer, n int) bool = all(a, 0, n, trig(ls[a]), 0 <= ls[a].Order && ls[a].Order < n) && forall("a int, b int", trig(ls[a], ls[b]), imp(0 <= a && a < b && b < n, ls[a].Order < ls[b].Order))
lemma rank_lo @C03 ind k hide reveal ranked : forall("ls []Layer, n int, k int", trig(ranked(ls, n), ls[k]), imp(ranked(ls, n) && 0 <= k && k < n, ls[k].Order >= k))
lemma rank_gap @C03 ind j hide reveal ranked : forall("ls []Layer, n int, k int, j int", trig(ranked(ls, n), ls[k], ls[j]), imp(ranked(ls, n) && 0 <= k && k <= j && j < n, ls[j].Order - ls[k].Order >= j - k))
lemma rank_top @C03 hide reveal ranked : forall("ls []Layer, n int, k int", trig(ranked(ls, n), ls[k]), imp(ranked(ls, n) && 0 <= k && k < n, ls[k].Order < n))
lemma rank_at @C03 hide : forall("ls []Layer, n int, k int", trig(ranked(ls, n), ls[k]), by(rank_lo(ls, n, k), by(rank_gap(ls, n, k, n-1), by(rank_top(ls, n, n-1), imp(ranked(ls, n) && 0 <= k && k < n, ls[k].Order == k)))))
lemma rank_intro @C03 hide reveal ranked : forall("ls []Layer, n int", trig(ranked(ls, n)), imp(all(a, 0, n, trig(ls[a]), 0 <= ls[a].Order && ls[a].Order < n) && forall("a int, b int", trig(ls[a], ls[b]), imp(0 <= a && a < b && b < n, ls[a].Order < ls[b].Order)), ranked(ls, n)))
lemma rank_all @C03 hide reveal ranked uses rank_at : forall("ls []Layer, n int", trig(ranked(ls, n)), imp(ranked(ls, n), all(k, 0, n, trig(ls[k]), by(rank_at(ls, n, k), ls[k].Order == k))))

// ------------------------------------------------------------- triangles of a job
// t is one of the first n
fold hast(ts []*Triangle, n int, t Triangle) bool = n > 0 && (*ts[n-1] == t || hast(ts, n-1, t))
lemma hast_same @C04 ind n hide : forall("ts []*Triangle, us []*Triangle, n int, t Triangle", trig(hast(ts, n, t), hast(us, n, t)), imp(0 <= n && all(k, 0, n, trig(us[k]), *us[k] == *ts[k]), hast(us, n, t) == hast(ts, n, t)))

func SliceByVector(mesh, Z, settings) (r)
arg opaquecalls primitives.JoinPaths3AndMinimize primitives.Plane.IntersectTriangle helpers.FilterTrianglesByColor helpers.IntersectTriangles helpers.MakeUndoubledLinesFromTriangles
requires settings.LayerHeight > 0 && sq(Z) > 0
use @C03 hgt_lin
use span
use @C04 hast_same
use @C03 rank_intro
use @C03 rank_all
atcall @C03 [a layer for its job] work.Layer(j, l) :: l.Order == j.order && l.Norm == j.plane.N
atcall @C03 [jobs numbered from the bottom] send.job(i, j) :: j.order == i
atcall @C03 [parallel planes across the direction] send.job(i, j) :: j.plane.N == dirof(Z) && sq(j.plane.N) == 1
atcall @C03 [evenly spaced from half a step above the lowest point] send.job(i, j) :: let(lo, lowest(*mesh, dirof(Z)), let(h, highest(*mesh, dirof(Z)) - lo, dot(asvec(j.plane.P), j.plane.N) == lo + h/real(planecount(*mesh, dirof(Z), settings.LayerHeight))*(real(i) + 0.5)))
atcall @C03 [in the order of their planes] sorted.Layer(ls) :: ranked(ls, len(ls))
atcall @C03 [each at its place] sorted.Layer(ls) :: all(k, 0, len(ls), trig(ls[k]), ls[k].Order == k)
atcall @C03 [one layer for each plane, planes no farther apart than the layer height] return() :: imp(!isnil(mesh), len(jobs("job")) == planecount(*mesh, dirof(Z), settings.LayerHeight)) && imp(len(jobs("job")) > 0, (highest(*mesh, dirof(Z)) - lowest(*mesh, dirof(Z)))/real(len(jobs("job"))) <= settings.LayerHeight)
atcall @C03 [all layers upwards, but for an empty first or last one] return() :: let(n, len(jobs("job")), len(r) == n && all(k, 0, len(r), trig(r[k]), r[k] == result("Layer", turn(k))) || len(r) == n-1 && len(result("Layer", turn(n-1)).Paths) == 0 && all(k, 0, len(r), trig(r[k]), r[k] == result("Layer", turn(k))) || len(r) == n-1 && len(result("Layer", turn(0)).Paths) == 0 && all(k, 0, len(r), trig(r[k]), r[k] == result("Layer", turn(k+1))) || len(r) == n-2 && len(result("Layer", turn(0)).Paths) == 0 && len(result("Layer", turn(n-1)).Paths) == 0 && all(k, 0, len(r), trig(r[k]), r[k] == result("Layer", turn(k+1))))
atcall @C04 [all triangles across the plane] send.job(i, j) :: let(z, dot(asvec(j.plane.P), j.plane.N), all(k, 0, len(mesh.Triangles), trig(mesh.Triangles[k]), imp(tlo(mesh.Triangles[k], j.plane.N) <= z && z <= thi(mesh.Triangles[k], j.plane.N), hast(j.triangles, len(j.triangles), mesh.Triangles[k]))))
cand @C03 (in chan:job) :: all(k, 0, len(*in), trig((*in)[k]), (*in)[k].order == k)
cand (in chan:job; i int) :: len(*in) == i
cand outer (c Point; s Vector const; i int) :: dot(asvec(c), dirof(Z)) == hgt(entry(dot(asvec(c), dirof(Z))), dot(s, dirof(Z)), i)
cand (as []*Triangle) :: all(k, 0, len(as), trig(as[k]), !isnil(as[k]))
cand (out chan:Layer any; i int) :: received(out) == i
cand @C03 (ls []Layer; i int) :: all(k, 0, i, trig(ls[k]), ls[k] == result("Layer", k))
