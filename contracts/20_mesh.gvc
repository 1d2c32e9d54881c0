package primitives

// remainder of k by w, by repeated subtraction; the share of worker i of w are the k with modk(k, w) == i
fold modk(k int, w int) int = ite(k < w, k, modk(k-w, w))
lemma modk_range @C10 @C11 ind k : forall("k int, w int", trig(modk(k,w)), imp(0 <= k && 1 <= w, 0 <= modk(k,w) && modk(k,w) < w))
lemma modk_small : forall("k int, w int", trig(modk(k,w)), imp(0 <= k && k < w, modk(k,w) == k))
lemma modk_step : forall("k int, w int", trig(modk(k+w,w)), imp(0 <= k && 1 <= w, modk(k+w,w) == modk(k,w)))
lemma modk_gap ind i uses modk_range : forall("i int, k int, w int", trig(modk(i,w), modk(k,w)), imp(0 <= i && 1 <= w && i < k && k < i+w, modk(k,w) != modk(i,w)))

func DoInParallelAndWait(work)
attr par trusted
arg why runs work(wi, wn) for every wi in [0, wn) and returns when all have returned: goroutines and WaitGroup are not modelled; every caller is checked as the sequential loop over wi with the obligation that workers do not interfere

spec tri(a Point, b Point, c Point) Triangle = Triangle{crs(vec(a,b), vec(a,c)), a, b, c}
spec rpt(m RotationMatrix, c Point, p Point) Point = shift(aspt(rapply(m, vec(c,p))), asvec(c))

func Mesh.Rotate(m, rm, around) (r)
requires !isnil(m)
ensures @C10 [every triangle turned, in order, with its normal] len(r.Triangles) == len(m.Triangles) && all(k, 0, len(m.Triangles), trig(r.Triangles[k]), r.Triangles[k] == tri(rpt(rm, around, m.Triangles[k].P1), rpt(rm, around, m.Triangles[k].P2), rpt(rm, around, m.Triangles[k].P3)))
cand (q Mesh; i idx) :: len(q.Triangles) == len(m.Triangles) && all(k, 0, i, trig(q.Triangles[k]), q.Triangles[k] == tri(rpt(rm, around, m.Triangles[k].P1), rpt(rm, around, m.Triangles[k].P2), rpt(rm, around, m.Triangles[k].P3)))

func Mesh.Shift(m, v)
modifies m.Triangles[*]
ensures @C10 [every triangle moved, in order, with its normal] imp(!isnil(m), len(m.Triangles) == old(len(m.Triangles)) && all(k, 0, len(m.Triangles), trig(m.Triangles[k]), m.Triangles[k] == old(tri(shift(m.Triangles[k].P1, v), shift(m.Triangles[k].P2, v), shift(m.Triangles[k].P3, v)))))
cand (i idx) :: all(k, 0, i, trig(m.Triangles[k]), m.Triangles[k] == old(tri(shift(m.Triangles[k].P1, v), shift(m.Triangles[k].P2, v), shift(m.Triangles[k].P3, v))))
cand (i idx) :: all(k, i, len(m.Triangles), trig(m.Triangles[k]), m.Triangles[k] == old(m.Triangles[k]))

func Mesh.CopyTriangles(m) (r)
attr fresh
requires !isnil(m)
use modk_range
use modk_small
use modk_step
use modk_gap
ensures @C04 @C10 [same triangles in the same order] len(r) == len(m.Triangles) && all(k, 0, len(m.Triangles), trig(r[k]), r[k] == m.Triangles[k])
cand (r []Triangle) :: all(k, 0, len(m.Triangles), trig(r[k]), imp(modk(k, wn_) < wi_, r[k] == m.Triangles[k]))
cand (i int; r []Triangle) :: all(k, 0, len(m.Triangles), trig(r[k]), imp(modk(k, wn_) < wi_ || modk(k, wn_) == wi_ && k < i, r[k] == m.Triangles[k]))
cand (i int) :: modk(i, wn_) == wi_

// extent of a triangle and of a mesh along a direction
opaque tlo(t Triangle, z Vector) real = min(dot(asvec(t.P1), z), min(dot(asvec(t.P2), z), dot(asvec(t.P3), z)))
opaque thi(t Triangle, z Vector) real = max(dot(asvec(t.P1), z), max(dot(asvec(t.P2), z), dot(asvec(t.P3), z)))

func Triangle.MinZ(t, z) (r)
requires !isnil(t)
reveal tlo thi
returns [lowest of the three vertices] tlo(*t, z)

func Triangle.MaxZ(t, z) (r)
requires !isnil(t)
reveal tlo thi
returns [highest of the three vertices] thi(*t, z)

func Triangle.MinMaxZ(t, z) (r, s)
requires !isnil(t)
reveal tlo thi
ensures [lowest and highest vertex] r == tlo(*t, z) && s == thi(*t, z)

fold mlo(ts []Triangle, z Vector, n int) real = ite(n <= 0, maxfloat(), min(mlo(ts, z, n-1), tlo(ts[n-1], z)))
fold mhi(ts []Triangle, z Vector, n int) real = ite(n <= 0, 0 - maxfloat(), max(mhi(ts, z, n-1), thi(ts[n-1], z)))
spec maxfloat() real = 179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184124858368
lemma mlo_least hide ind n : forall("ts []Triangle, z Vector, k int, n int", trig(mlo(ts, z, n), ts[k]), imp(0 <= k && k < n, mlo(ts, z, n) <= tlo(ts[k], z)))
lemma mhi_most hide ind n : forall("ts []Triangle, z Vector, k int, n int", trig(mhi(ts, z, n), ts[k]), imp(0 <= k && k < n, mhi(ts, z, n) >= thi(ts[k], z)))
spec lowest(m Mesh, z Vector) real = ite(len(m.Triangles) == 0, 0, mlo(m.Triangles, z, len(m.Triangles)))
spec highest(m Mesh, z Vector) real = ite(len(m.Triangles) == 0, 0, mhi(m.Triangles, z, len(m.Triangles)))

func Mesh.MinMaxZ(m, z) (r, s)
requires !isnil(m)
ensures @C03 @C04 @C14 [lowest and highest of all triangles] r == lowest(*m, z) && s == highest(*m, z)
cand (lo real; hi real; i idx) :: lo == mlo(m.Triangles, z, i) && hi == mhi(m.Triangles, z, i)
