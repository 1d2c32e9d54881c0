package primitives

fold area(ps []Point, n int) real = ite(n <= 1, 0, area(ps, n-1) + (ps[n-1].X - ps[n-2].X)*(ps[n-1].Y + ps[n-2].Y))
spec winding(ps []Point) real = area(ps, len(ps)) + (ps[0].X - ps[len(ps)-1].X)*(ps[0].Y + ps[len(ps)-1].Y)
spec closedpts(ps []Point) bool = len(ps) <= 1 || eqpt(ps[0], ps[len(ps)-1])

func Path.Reverse(p) (r)
attr fresh
ensures @C31 @C16 @C15 [same points in reverse order] len(r.Points) == len(p.Points) && all(k, 0, len(p.Points), trig(r.Points[k]), r.Points[k] == p.Points[len(p.Points)-1-k])
cand (res Path; i idx) :: len(res.Points) == len(p.Points)-1-i
cand (res Path) :: all(k, 0, len(res.Points), trig(res.Points[k]), res.Points[k] == p.Points[len(p.Points)-1-k])

func Path.Equal(p, q) (r)
ensures @C31 [pointwise within tolerance] r == (len(p.Points) == len(q.Points) && all(k, 0, len(p.Points), trig(p.Points[k]), eqpt(p.Points[k], q.Points[k])))
cand (i idx) :: all(k, 0, i, trig(p.Points[k]), eqpt(p.Points[k], q.Points[k]))

func Path.IsWindingCW(p) (r)
requires len(p.Points) > 0
returns @C31 [sign of the winding area] winding(p.Points) > 0
cand (sum real; i idx) :: sum == area(p.Points, i)

func Path.IsHole(p) (r)
requires len(p.Points) > 0
returns @C31 winding(p.Points) <= 0

func Path.IsSolid(p) (r)
requires len(p.Points) > 0
returns @C31 winding(p.Points) > 0

func Path.IsClosed(p) (r)
returns @C31 [one point, or ends coincide] closedpts(p.Points)

func Path.Close(p) (r)
attr fresh
ensures @C31 [keeps the points] len(r.Points) >= len(p.Points) && all(k, 0, len(p.Points), trig(r.Points[k]), r.Points[k] == p.Points[k])
ensures @C31 [adds the first point once and only if needed] len(r.Points) == len(p.Points) + ite(closedpts(p.Points), 0, 1) && imp(!closedpts(p.Points), r.Points[len(p.Points)] == p.Points[0])
cand (res Path; i idx) :: len(res.Points) == i
cand (res Path) :: all(k, 0, len(res.Points), trig(res.Points[k]), res.Points[k] == p.Points[k])

lemma area_reverse ind m : forall("ps []Point, qs []Point, n int, m int", imp(1 <= m && m <= n && n == len(ps) && n == len(qs) && all(k, 0, n, trig(qs[k]), qs[k] == ps[n-1-k]), area(qs, m) == area(ps, n-m+1) - area(ps, n)))
lemma winding_reverse @C31 uses area_reverse : forall("ps []Point, qs []Point, n int", imp(1 <= n && n == len(ps) && n == len(qs) && all(k, 0, n, trig(qs[k]), qs[k] == ps[n-1-k]), winding(qs) == 0 - winding(ps)))

// ------------------------------------------------------------- merging collinear segments
opaque coll(a Line, b Line) bool = sqrt(sq(crs(vec(a.P1,a.P2), vec(b.P1,b.P2)))) < 0.000001

func Line.IsCollinear(l1, l2) (r)
reveal coll
returns coll(l1, l2)

// thin(ps, i, rs, n): rs[0..n) arises from ps[0..i) by leaving out points that are collinear with the point kept
// before them and their successor, never the first or last one. It is the least relation with these rules.
uf thin(ps []Point, i int, rs []Point, n int) bool
axiom thin_start : forall("ps []Point, rs []Point", trig(thin(ps,2,rs,2)), imp(rs[0] == ps[0] && rs[1] == ps[1], thin(ps,2,rs,2)))
axiom thin_take : forall("ps []Point, i int, rs []Point, rs2 []Point, n int", trig(thin(ps,i,rs,n), thin(ps,i+1,rs2,n+1)), imp(thin(ps,i,rs,n) && rs2[n] == ps[i] && all(k, 0, n, trig(rs2[k]), rs2[k] == rs[k]), thin(ps,i+1,rs2,n+1)))
axiom thin_drop : forall("ps []Point, i int, rs []Point, rs2 []Point, n int", trig(thin(ps,i,rs,n), thin(ps,i+1,rs2,n)), imp(thin(ps,i,rs,n) && 2 <= n && rs[n-1] == ps[i-1] && coll(Line{rs[n-2],ps[i-1]}, Line{ps[i-1],ps[i]}) && rs2[n-1] == ps[i] && all(k, 0, n-1, trig(rs2[k]), rs2[k] == rs[k]), thin(ps,i+1,rs2,n)))

// r is the closed path rs[0..n) without its first point, which is collinear with its neighbours on the ring
spec openjoint(rs []Point, n int, r []Point) bool = n >= 2 && len(r) == n-1 && coll(Line{rs[n-2],rs[n-1]}, Line{rs[0],rs[1]}) && ((r[n-2] == rs[1] && all(k, 0, n-2, trig(r[k]), r[k] == rs[k+1])) || (r[0] == rs[n-2] && all(k, 1, n-1, trig(r[k]), r[k] == rs[k])))

// every point of the path is on the plane within the tolerance
opaque onpath(q Plane, ps []Point) bool = all(k, 0, len(ps), trig(ps[k]), onp(q, ps[k]))
lemma onpath_def hide reveal onpath : forall("q Plane, ps []Point, k int", trig(onpath(q, ps), ps[k]), imp(onpath(q, ps) && 0 <= k && k < len(ps), onp(q, ps[k])))
lemma onpath_intro hide reveal onpath : forall("q Plane, ps []Point", trig(onpath(q, ps)), imp(all(k, 0, len(ps), trig(ps[k]), onp(q, ps[k])), onpath(q, ps)))
opaque onpaths(q Plane, ps []Path) bool = all(k, 0, len(ps), trig(ps[k]), onpath(q, ps[k].Points))

func Path.MinimizeLines(p) (r)
use @C06 thin_start
use @C06 thin_take
use @C06 thin_drop
use @C07 onpath_def
use @C07 onpath_intro
ensures @C07 [stays in the plane] forall("q Plane", trig(onpath(q, r.Points)), imp(onpath(q, p.Points), onpath(q, r.Points)))
cand @C07 (res Path) :: forall("q Plane, k int", trig(front(q, res.Points[k])), imp(onpath(q, p.Points) && 0 <= k && k < len(res.Points), onp(q, res.Points[k])))
ensures @C06 [nothing to merge in fewer than three points] imp(len(p.Points) < 3, r == p)
ensures @C06 [ends of an open path kept] imp(len(p.Points) >= 3 && !closedpts(p.Points), len(r.Points) >= 2 && r.Points[0] == p.Points[0] && r.Points[len(r.Points)-1] == p.Points[len(p.Points)-1])
ensures @C06 [a closed path stays closed] imp(closedpts(p.Points), closedpts(r.Points))
ensures @C06 [open: drops only collinear points] imp(len(p.Points) >= 3 && !closedpts(p.Points), thin(p.Points, len(p.Points), r.Points, len(r.Points)))
ensures @C06 [closed: drops only collinear points, then perhaps the joint] imp(len(p.Points) >= 3 && closedpts(p.Points), thin(p.Points, len(p.Points), r.Points, len(r.Points)) || exists("rs []Point, n int", trig(thin(p.Points, len(p.Points), rs, n)), thin(p.Points, len(p.Points), rs, n) && openjoint(rs, n, r.Points)))
cand (res Path; i int) :: 2 <= len(res.Points) && 2 <= i && i <= len(p.Points)
cand (res Path; i int) :: thin(p.Points, i, res.Points, len(res.Points))
cand (res Path; i int) :: res.Points[0] == p.Points[0] && res.Points[len(res.Points)-1] == p.Points[i-1]
cand (res Path; l1 Line; i int) :: l1 == Line{res.Points[len(res.Points)-2], res.Points[len(res.Points)-1]}
