package primitives

// ------------------------------------------------------------- joining pieces of contours
// q is a and then b, which starts where a ends
opaque joined(q []Point, a []Point, b []Point) bool = len(a) >= 2 && len(b) >= 2 && len(q) == len(a) + len(b) - 1 && eqpt(a[len(a)-1], b[0]) && all(k, 0, len(a), trig(q[k]), q[k] == a[k]) && all(k, len(a), len(q), trig(q[k]), q[k] == b[k-len(a)+1])
opaque merged(q []Point, a []Point, b []Point) bool = joined(q, a, b) || joined(q, b, a)
// the path has a segment from a to b; its start may be replaced by a point coinciding with it, but not at the start of the path
opaque hasseg(ps []Point, a Point, b Point) bool = exists("k int", trig(ps[k]), 1 <= k && k < len(ps) && ps[k] == b && eqpt(ps[k-1], a) && imp(k == 1, ps[0] == a))
// all segments of the path are segments of the pieces, up to that
opaque segof(ps []Path, x Point, y Point, first bool) bool = exists("s int, k int", trig(ps[s].Points[k]), 0 <= s && s < len(ps) && 1 <= k && k < len(ps[s].Points) && y == ps[s].Points[k] && eqpt(x, ps[s].Points[k-1]) && imp(first, x == ps[s].Points[k-1]))
opaque segsof(ps []Path, q []Point) bool = all(m, 1, len(q), trig(q[m]), segof(ps, q[m-1], q[m], m == 1))

lemma seg_at reveal hasseg : forall("ps []Point, a Point, b Point, k int", trig(hasseg(ps, a, b), ps[k]), imp(1 <= k && k < len(ps) && ps[k] == b && eqpt(ps[k-1], a) && imp(k == 1, ps[0] == a), hasseg(ps, a, b)))
lemma joined_at hide reveal joined : forall("q []Point, a []Point, b []Point, k int", trig(joined(q, a, b), b[k]), imp(joined(q, a, b) && 1 <= k && k < len(b), q[len(a)+k-1] == b[k] && imp(k >= 2, q[len(a)+k-2] == b[k-1]) && eqpt(q[len(a)-1], b[0])))
lemma seg_front hide reveal joined,hasseg uses seg_at : forall("q []Point, p []Point, r []Point, a Point, b Point", trig(joined(q, p, r), hasseg(p, a, b)), imp(joined(q, p, r) && hasseg(p, a, b), hasseg(q, a, b)))
lemma seg_back_at hide : forall("q []Point, p []Point, r []Point, a Point, b Point, k int", trig(joined(q, p, r), hasseg(r, a, b), r[k]), imp(joined(q, p, r) && 1 <= k && k < len(r) && 2 <= len(p) && len(q) == len(p) + len(r) - 1 && r[k] == b && eqpt(r[k-1], a) && imp(k == 1, r[0] == a), by(joined_at(q, p, r, k), by(seg_at(q, a, b, len(p) + k - 1), hasseg(q, a, b)))))
lemma joined_len hide reveal joined : forall("q []Point, p []Point, r []Point", trig(joined(q, p, r)), imp(joined(q, p, r), 2 <= len(p) && 2 <= len(r) && len(q) == len(p) + len(r) - 1))
lemma seg_def hide reveal hasseg : forall("r []Point, a Point, b Point", trig(hasseg(r, a, b)), imp(hasseg(r, a, b), exists("k int", trig(r[k]), 1 <= k && k < len(r) && r[k] == b && eqpt(r[k-1], a) && imp(k == 1, r[0] == a))))
lemma seg_back hide uses seg_back_at,joined_len,seg_def : forall("q []Point, p []Point, r []Point, a Point, b Point", trig(joined(q, p, r), hasseg(r, a, b)), imp(joined(q, p, r) && hasseg(r, a, b), hasseg(q, a, b)))
lemma segof_weak hide reveal segof : forall("ps []Path, x Point, y Point", trig(segof(ps, x, y, true)), imp(segof(ps, x, y, true), segof(ps, x, y, false)))
lemma segof_near hide reveal segof : forall("ps []Path, x Point, z Point, y Point", trig(segof(ps, x, y, true), segof(ps, z, y, false)), imp(segof(ps, x, y, true) && eqpt(z, x), segof(ps, z, y, false)))
lemma segs_joined hide reveal joined,segsof uses segof_weak,segof_near : forall("ps []Path, q []Point, a []Point, b []Point", trig(joined(q, a, b), segsof(ps, a), segsof(ps, b)), imp(joined(q, a, b) && segsof(ps, a) && segsof(ps, b), segsof(ps, q)))

lemma onpath_join hide reveal onpath : forall("q Plane, a []Point, b []Point, c []Point, n int", trig(onpath(q,a), onpath(q,b), onpath(q,c)), imp(onpath(q,a) && onpath(q,b) && 1 <= len(b) && len(c) == len(a) + len(b) - 1 && all(k, 0, len(a), trig(c[k]), c[k] == a[k]) && all(k, len(a), len(c), trig(c[k]), c[k] == b[k-len(a)+1]), onpath(q,c)))
lemma onpaths_at hide reveal onpaths : forall("q Plane, ps []Path, k int", trig(onpaths(q, ps), ps[k]), imp(onpaths(q, ps) && 0 <= k && k < len(ps), onpath(q, ps[k].Points)))
lemma onpaths_set hide reveal onpaths : forall("q Plane, ps []Path, qs []Path, j int", trig(onpaths(q, ps), onpaths(q, qs), ps[j]), imp(onpaths(q, ps) && len(qs) == len(ps) && onpath(q, qs[j].Points) && all(k, 0, len(ps), trig(qs[k]), imp(k != j, qs[k] == ps[k])), onpaths(q, qs)))
lemma onpaths_add hide reveal onpaths : forall("q Plane, ps []Path, qs []Path", trig(onpaths(q, ps), onpaths(q, qs)), imp(onpaths(q, ps) && 0 <= len(ps) && len(qs) == len(ps) + 1 && onpath(q, qs[len(ps)].Points) && all(k, 0, len(ps), trig(qs[k]), qs[k] == ps[k]), onpaths(q, qs)))
lemma onpaths_none hide reveal onpaths : forall("q Plane, ps []Path", trig(onpaths(q, ps)), imp(len(ps) <= 0, onpaths(q, ps)))
func tryJoin(p1, p2) (r)
use @C07 onpath_join
ensures @C07 [stays in the plane] imp(!isnil(r), forall("q Plane", trig(onpath(q, r.Points)), imp(onpath(q, p1.Points) && onpath(q, p2.Points), onpath(q, r.Points))))
reveal joined merged
requires len(p1.Points) >= 1 && len(p2.Points) >= 1
ensures [the shared point once] imp(!isnil(r), len(r.Points) == len(p1.Points) + len(p2.Points) - 1)
ensures @C05 [one after the other, at coinciding ends] imp(!isnil(r) && len(p1.Points) >= 2 && len(p2.Points) >= 2, merged(r.Points, p1.Points, p2.Points))
ensures @C05 [not joined only if no ends coincide] isnil(r) == (!eqpt(p1.Points[len(p1.Points)-1], p2.Points[0]) && !eqpt(p2.Points[len(p2.Points)-1], p1.Points[0]))

// ------------------------------------------------------------- the union of the pieces
// segments of the first n paths
fold nsegs(ps []Path, n int) int = ite(n <= 0, 0, nsegs(ps, n-1) + len(ps[n-1].Points) - 1)
// segments of the paths among the first n that are still pieces of their own
fold nseg(ps []Path, w []int, n int) int = ite(n <= 0, 0, nseg(ps, w, n-1) + ite(w[n-1] == n-1, len(ps[n-1].Points) - 1, 0))
lemma nseg_all ind n hide : forall("ps []Path, w []int, n int", trig(nseg(ps, w, n)), imp(0 <= n && all(k, 0, n, trig(w[k]), w[k] == k), nseg(ps, w, n) == nsegs(ps, n)))
lemma nsegs_same ind n hide : forall("ps []Path, qs []Path, n int", trig(nsegs(ps, n), nsegs(qs, n)), imp(0 <= n && all(k, 0, n, trig(qs[k]), qs[k] == ps[k]), nsegs(qs, n) == nsegs(ps, n)))
lemma nseg_join ind n hide : forall("ps []Path, w []int, qs []Path, v []int, q []Point, i int, j int, n int", trig(nseg(ps, w, n), nseg(qs, v, n), merged(q, ps[i].Points, ps[j].Points)), imp(0 <= n && 0 <= i && 0 <= j && i != j && w[i] == i && w[j] == j && v[j] == i && all(k, 0, n, trig(qs[k]), imp(k != i, qs[k] == ps[k])) && all(k, 0, n, trig(v[k]), imp(k != j, v[k] == w[k])), nseg(qs, v, n) == nseg(ps, w, n) + ite(i < n, len(qs[i].Points) - len(ps[i].Points), 0) - ite(j < n, len(ps[j].Points) - 1, 0)))
lemma merged_len hide reveal merged,joined : forall("q []Point, a []Point, b []Point", trig(merged(q, a, b)), imp(merged(q, a, b), len(a) >= 2 && len(b) >= 2 && len(q) == len(a) + len(b) - 1))
lemma merged_seg hide reveal merged uses seg_front,seg_back : forall("q []Point, p []Point, r []Point, a Point, b Point", trig(merged(q, p, r), hasseg(q, a, b)), imp(merged(q, p, r) && (hasseg(p, a, b) || hasseg(r, a, b)), hasseg(q, a, b)))
lemma merged_segs hide reveal merged uses segs_joined : forall("ps []Path, q []Point, a []Point, b []Point", trig(merged(q, a, b), segsof(ps, a), segsof(ps, b)), imp(merged(q, a, b) && segsof(ps, a) && segsof(ps, b), segsof(ps, q)))
// the segment is in one of the paths; in one of the first n that are still pieces of their own
opaque hasout(ps []Path, a Point, b Point) bool = exists("j int", trig(ps[j]), 0 <= j && j < len(ps) && hasseg(ps[j].Points, a, b))
opaque hasin(ps []Path, w []int, n int, a Point, b Point) bool = exists("j int", trig(w[j]), 0 <= j && j < n && w[j] == j && hasseg(ps[j].Points, a, b))
lemma in_all hide reveal hasout,hasin : forall("ps []Path, w []int, n int, a Point, b Point", trig(hasin(ps, w, n, a, b), hasout(ps, a, b)), imp(n == len(ps) && all(k, 0, n, trig(w[k]), w[k] == k) && hasout(ps, a, b), hasin(ps, w, n, a, b)))
lemma in_at hide reveal hasin : forall("ps []Path, w []int, n int, j int, a Point, b Point", trig(hasin(ps, w, n, a, b), ps[j]), imp(0 <= j && j < n && w[j] == j && hasseg(ps[j].Points, a, b), hasin(ps, w, n, a, b)))
lemma in_def hide reveal hasin : forall("ps []Path, w []int, n int, a Point, b Point", trig(hasin(ps, w, n, a, b)), imp(hasin(ps, w, n, a, b), exists("j int", trig(ps[j]), 0 <= j && j < n && w[j] == j && hasseg(ps[j].Points, a, b))))
lemma in_join hide uses in_def,in_at : forall("ps []Path, w []int, qs []Path, v []int, q []Point, i int, j int, n int, a Point, b Point", trig(hasin(ps, w, n, a, b), hasin(qs, v, n, a, b), merged(q, ps[i].Points, ps[j].Points)), imp(0 <= i && i < n && 0 <= j && j < n && i != j && w[i] == i && w[j] == j && v[j] == i && qs[i].Points == q && merged(q, ps[i].Points, ps[j].Points) && all(k, 0, n, trig(ps[k]), imp(k != i, qs[k] == ps[k])) && all(k, 0, n, trig(w[k]), imp(k != j, v[k] == w[k])) && hasin(ps, w, n, a, b), by(merged_seg(q, ps[i].Points, ps[j].Points, a, b), by(in_at(qs, v, n, i, a, b), hasin(qs, v, n, a, b)))))

lemma in_step hide reveal hasin : forall("ps []Path, w []int, n int, m int, a Point, b Point", trig(hasin(ps, w, m, a, b), hasin(ps, w, n, a, b)), imp(m == n + 1 && hasin(ps, w, m, a, b), hasin(ps, w, n, a, b) || w[n] == n && hasseg(ps[n].Points, a, b)))
lemma in_none hide reveal hasin : forall("ps []Path, w []int, n int, a Point, b Point", trig(hasin(ps, w, n, a, b)), imp(n <= 0, !hasin(ps, w, n, a, b)))
lemma out_def hide reveal hasout : forall("ps []Path, a Point, b Point", trig(hasout(ps, a, b)), imp(hasout(ps, a, b), exists("j int", trig(ps[j]), 0 <= j && j < len(ps) && hasseg(ps[j].Points, a, b))))
lemma out_at hide reveal hasout : forall("ps []Path, j int, a Point, b Point", trig(hasout(ps, a, b), ps[j]), imp(0 <= j && j < len(ps) && hasseg(ps[j].Points, a, b), hasout(ps, a, b)))
lemma out_grow hide uses out_def,out_at : forall("ps []Path, qs []Path, a Point, b Point", trig(hasout(ps, a, b), hasout(qs, a, b)), imp(hasout(ps, a, b) && len(ps) <= len(qs) && all(k, 0, len(ps), trig(ps[k]), qs[k] == ps[k]), hasout(qs, a, b)))
lemma segs_self hide reveal segsof,segof : forall("ps []Path, j int", trig(segsof(ps, ps[j].Points)), imp(0 <= j && j < len(ps), segsof(ps, ps[j].Points)))

func JoinPaths3(p) (r)
attr fresh
attr anyorder
modifies p[*]
requires all(k, 0, len(p), trig(p[k]), len(p[k].Points) >= 2)
use @C07 onpaths_at
use @C07 onpaths_set
use @C07 onpaths_add
use @C07 onpaths_none
use @C05 merged_len
use @C05 nseg_all
use @C05 nsegs_same
use @C05 nseg_join
use @C05 merged_segs
use @C05 in_all
use @C05 in_join
use @C05 in_step
use @C05 in_none
use @C05 out_at
use @C05 out_grow
use @C05 segs_self
ensures @C05 [every segment is in some result] forall("a Point, b Point", trig(hasout(r, a, b)), imp(hasout(old(p), a, b), hasout(r, a, b)))
ensures @C05 [every result is made of segments of the pieces] all(k, 0, len(r), trig(r[k]), segsof(old(p), r[k].Points))
ensures @C05 [no segment lost or doubled] nsegs(r, len(r)) == nsegs(old(p), len(p))
cand (w []int) :: all(k, 0, len(w), trig(w[k]), 0 <= w[k] && w[k] < len(w))
cand (w []int; i int) :: i <= len(w) && all(k, 0, i, trig(w[k]), w[k] == k)
cand (a []sortp const; w []int) :: all(k, 0, len(a), trig(a[k]), 0 <= a[k].Ind && a[k].Ind < len(w))
cand (a []sortp; i int; w []int) :: len(a) == 2*len(w) && all(k, 0, 2*i, trig(a[k]), 0 <= a[k].Ind && a[k].Ind < len(w))
cand (j int; w []int const) :: 0 <= j && j < len(w)
cand (p []Path) :: all(k, 0, len(p), trig(p[k]), len(p[k].Points) >= 2)
cand @C05 (p []Path; w []int) :: nseg(p, w, len(w)) == nsegs(old(p), len(w))
cand @C05 (p []Path const; w []int const; res []Path; i int) :: i <= len(w) && nsegs(res, len(res)) == nseg(p, w, i)
cand @C05 (res []Path) :: all(k, 0, len(res), trig(res[k]), segsof(old(p), res[k].Points))
cand @C05 (p []Path; w []int) :: forall("a Point, b Point", trig(hasin(p, w, len(w), a, b)), imp(hasout(old(p), a, b), hasin(p, w, len(w), a, b)))
cand @C05 (p []Path const; w []int const; res []Path; i int) :: forall("a Point, b Point", trig(hasout(res, a, b)), imp(hasin(p, w, i, a, b), hasout(res, a, b)))
ensures @C07 [stays in the plane] forall("q Plane", trig(onpaths(q, old(p))), imp(onpaths(q, old(p)), onpaths(q, r)))
cand @C07 (res []Path) :: forall("q Plane", trig(onpaths(q, old(p))), imp(onpaths(q, old(p)), onpaths(q, res)))

func JoinPaths3AndMinimize(p) (r)
attr fresh
modifies p[*]
requires all(k, 0, len(p), trig(p[k]), len(p[k].Points) >= 2)
use @C07 onpaths_set
use @C07 onpaths_at
ensures @C07 [stays in the plane] forall("q Plane", trig(onpaths(q, old(p))), imp(onpaths(q, old(p)), onpaths(q, r)))
cand @C07 (joined []Path) :: forall("q Plane", trig(onpaths(q, old(p))), imp(onpaths(q, old(p)), onpaths(q, joined)))
