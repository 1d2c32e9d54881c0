package helpers

// simp(ps, lo, hi, res, rl, rh, e): res[rl..rh] arises from ps[lo..hi] by dropping points between kept
// neighbours whose distance from the line through these neighbours is at most e. It is the least relation
// with the rules below; the last two say that it looks only at the points named.
uf simp(ps []Point, lo int, hi int, res []Point, rl int, rh int, e real) bool
axiom simp_line : forall("ps []Point, lo int, hi int, res []Point, rl int, rh int, e real", trig(simp(ps,lo,hi,res,rl,rh,e)), imp(0 <= lo && lo < hi && rh == rl+1 && res[rl] == ps[lo] && res[rh] == ps[hi] && all(k, lo+1, hi, trig(ps[k]), linedist(ps[k], ps[lo], ps[hi]) <= e), simp(ps,lo,hi,res,rl,rh,e)))
axiom simp_join : forall("ps []Point, lo int, mid int, hi int, res []Point, rl int, rm int, rh int, e real", trig(simp(ps,lo,mid,res,rl,rm,e), simp(ps,mid,hi,res,rm,rh,e)), imp(simp(ps,lo,mid,res,rl,rm,e) && simp(ps,mid,hi,res,rm,rh,e), simp(ps,lo,hi,res,rl,rh,e)))
axiom simp_move : forall("ps []Point, qs []Point, lo int, hi int, lo2 int, hi2 int, res []Point, out []Point, rl int, rh int, rl2 int, rh2 int, e real", trig(simp(ps,lo,hi,res,rl,rh,e), simp(qs,lo2,hi2,out,rl2,rh2,e)), imp(simp(ps,lo,hi,res,rl,rh,e) && 0 <= lo && 0 <= rl && 0 <= lo2 && 0 <= rl2 && hi2-lo2 == hi-lo && rh2-rl2 == rh-rl && all(k, lo, hi+1, trig(ps[k]), qs[k-lo+lo2] == ps[k]) && all(k, rl, rh+1, trig(res[k]), out[k-rl+rl2] == res[k]), simp(qs,lo2,hi2,out,rl2,rh2,e)))

func SimplifyLine(ps, epsilon) (r)
attr fresh
requires len(ps) >= 2
requires epsilon >= 0
use simp_line
use simp_join
use simp_move
ensures @C24 [ends kept] len(r) >= 2 && r[0] == ps[0] && r[len(r)-1] == ps[len(ps)-1]
ensures @C24 [drops only what is within epsilon of the line between kept neighbours, in order] simp(ps, 0, len(ps)-1, r, 0, len(r)-1, epsilon)
cand (d real; x int; i int) :: 0 <= d && imp(d > 0, 1 <= x && x < i)
cand (d real; x int; i int) :: imp(d > 0, x < len(ps)-1)
cand (d real; i int) :: all(k, 1, i, trig(ps[k]), linedist(ps[k], ps[0], ps[len(ps)-1]) <= d)

// ------------------------------------------------------------- overhangs
spec overhang(n Vector, a real, v Vector) bool = angf(n, Vector{0-v.X, 0-v.Y, 0-v.Z}) < 90-a
fold nover(ts []Triangle, a real, v Vector, n int) int = ite(n <= 0, 0, nover(ts, a, v, n-1) + ite(overhang(ts[n-1].N, a, v), 1, 0))
lemma nover_mono ind n : forall("ts []Triangle, a real, v Vector, k int, n int", trig(nover(ts,a,v,k), nover(ts,a,v,n)), imp(0 <= k && k <= n, 0 <= nover(ts,a,v,k) && nover(ts,a,v,k) <= nover(ts,a,v,n) && nover(ts,a,v,n) <= n))

func ColorizeTriangles(m, angle, v) (r)
attr fresh
ensures @C25 @C28 [one flag per triangle, by its own normal] len(r) == len(m.Triangles) && all(k, 0, len(m.Triangles), trig(r[k]), r[k] == overhang(m.Triangles[k].N, angle, v))
cand (r []bool; i idx) :: len(r) == i
cand (r []bool; i idx) :: all(k, 0, i, trig(r[k]), r[k] == overhang(m.Triangles[k].N, angle, v))

func FilterTrianglesByColor(m, angle, v) (r)
attr fresh
use nover_mono
ensures @C25 [exactly the flagged triangles in order] len(r) == nover(m.Triangles, angle, v, len(m.Triangles)) && all(k, 0, len(m.Triangles), trig(m.Triangles[k]), imp(overhang(m.Triangles[k].N, angle, v), r[nover(m.Triangles, angle, v, k)] == m.Triangles[k]))
cand (r []Triangle; i idx) :: len(r) == nover(m.Triangles, angle, v, i)
cand (r []Triangle; i idx) :: all(k, 0, i, trig(m.Triangles[k]), imp(overhang(m.Triangles[k].N, angle, v), nover(m.Triangles, angle, v, k) < len(r) && r[nover(m.Triangles, angle, v, k)] == m.Triangles[k]))

// ------------------------------------------------------------- supports
// the j-th edge of the triangles
spec edge(ts []Triangle, j int) Line = let(t, ts[idiv(j,3)], ite(j%3 == 0, Line{t.P1, t.P2}, ite(j%3 == 1, Line{t.P1, t.P3}, Line{t.P3, t.P2})))
spec sameedge(a Line, b Line) bool = a == b || a == Line{b.P2, b.P1}
opaque isedge(ts []Triangle, l Line, j int) bool = l == edge(ts, j)
// no other edge is the same one, in either direction
opaque single(ts []Triangle, j int) bool = all(i, 0, 3*len(ts), imp(i != j, !sameedge(edge(ts, j), edge(ts, i))))
fold nsingle(ts []Triangle, n int) int = ite(n <= 0, 0, nsingle(ts, n-1) + ite(single(ts, n-1), 1, 0))
lemma nsingle_mono ind n : forall("ts []Triangle, k int, n int", trig(nsingle(ts,k), nsingle(ts,n)), imp(0 <= k && k <= n, 0 <= nsingle(ts,k) && nsingle(ts,k) <= nsingle(ts,n) && nsingle(ts,n) <= n))
lemma edge_first : forall("ts []Triangle, l Line, i int, j int", trig(isedge(ts, l, j), ts[i]), imp(0 <= i && j == 3*i, isedge(ts, l, j) == (l == Line{ts[i].P1, ts[i].P2})))
lemma edge_second : forall("ts []Triangle, l Line, i int, j int", trig(isedge(ts, l, j), ts[i]), imp(0 <= i && j == 3*i+1, isedge(ts, l, j) == (l == Line{ts[i].P1, ts[i].P3})))
lemma edge_third : forall("ts []Triangle, l Line, i int, j int", trig(isedge(ts, l, j), ts[i]), imp(0 <= i && j == 3*i+2, isedge(ts, l, j) == (l == Line{ts[i].P3, ts[i].P2})))
lemma single_no : forall("ts []Triangle, l Line, m Line, i int, j int", trig(isedge(ts, l, j), isedge(ts, m, i)), imp(0 <= i && i < 3*len(ts) && i != j && isedge(ts, l, j) && isedge(ts, m, i) && sameedge(l, m), !single(ts, j)))
lemma single_yes : forall("ts []Triangle, ls []Line, j int", trig(single(ts, j), ls[j]), imp(0 <= j && j < len(ls) && len(ls) == 3*len(ts) && all(k, 0, len(ls), trig(ls[k]), isedge(ts, ls[k], k)) && all(k, 0, len(ls), trig(ls[k]), imp(k != j, !sameedge(ls[j], ls[k]))), single(ts, j)))

func MakeUndoubledLinesFromTriangles(col_triangles) (r)
attr fresh
use edge_first
use edge_second
use edge_third
use single_no
use single_yes
use nsingle_mono
ensures @C26 [exactly the unshared edges in order] len(r) == nsingle(col_triangles, 3*len(col_triangles)) && all(k, 0, 3*len(col_triangles), trig(single(col_triangles, k)), imp(single(col_triangles, k), isedge(col_triangles, r[nsingle(col_triangles, k)], k)))
cand (ls []Line; i idx) :: len(ls) == 3*i && all(k, 0, 3*i, trig(ls[k]), isedge(col_triangles, ls[k], k))
cand (r []Line; i idx) :: len(r) == nsingle(col_triangles, i)
cand (r []Line; i idx) :: all(k, 0, i, trig(single(col_triangles, k)), imp(single(col_triangles, k), nsingle(col_triangles, k) < len(r) && isedge(col_triangles, r[nsingle(col_triangles, k)], k)))
cand (l Line const; ls []Line const; j idx const; i idx) :: all(k, 0, len(ls), trig(ls[k]), imp(k != j && ite(k < j, k, k-1) < i, !sameedge(l, ls[k])))

func MakeSupportLines(lines, a) (r)
attr fresh
requires sq(a.N) > 0
ensures @C03 @C26 [one line for each] len(r) == len(lines)
ensures @C26 [every end projected on the plane, in order] len(r) == len(lines) && all(k, 0, len(lines), trig(r[k]), isproj(a, lines[k].P1, r[k].P1) && isproj(a, lines[k].P2, r[k].P2))
cand (r []Line; i idx) :: len(r) == i
cand (r []Line; i idx) :: all(k, 0, i, trig(r[k]), isproj(a, lines[k].P1, r[k].P1) && isproj(a, lines[k].P2, r[k].P2))
