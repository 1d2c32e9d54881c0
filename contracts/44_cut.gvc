package helpers

// ------------------------------------------------------------- cutting
spec lerp(p Point, q Point, k real) Point = Point{p.X+k*(q.X-p.X), p.Y+k*(q.Y-p.Y), p.Z+k*(q.Z-p.Z)}
// x lies on the segment from p to q, at the fraction k
opaque at(x Point, p Point, q Point, k real) bool = 0 <= k && k <= 1 && x == lerp(p,q,k)
opaque asq(c Point, n Point, m Point) real = sq(crs(vec(c,n), vec(c,m)))
spec flat(c Point, n Point, m Point) bool = asq(c,n,m) == 0
spec joins(l Line, x Point, y Point) bool = l == Line{x,y} || l == Line{y,x}

// t has the vertices a, b, c, in this cyclic order
spec cyc(t Triangle, a Point, b Point, c Point) bool = t == tri(a,b,c) || t == tri(b,c,a) || t == tri(c,a,b)
// a triangle c n m cut along x (on the side to n) and y (on the side to m); the rest is divided by one of its diagonals
spec pieces(r []Triangle, c Point, n Point, m Point, x Point, y Point) bool = len(r) == 3 && cyc(r[0], c,x,y) && ((cyc(r[1], x,n,m) && cyc(r[2], m,y,x)) || (cyc(r[2], x,n,m) && cyc(r[1], m,y,x)) || (cyc(r[1], x,n,y) && cyc(r[2], n,m,y)) || (cyc(r[2], x,n,y) && cyc(r[1], n,m,y)))
// all pieces face as the triangle does, and their areas add up to its area
lemma piece_turned @C08 : forall("a Point, b Point, c Point", tri(a,b,c).N == tri(b,c,a).N && tri(a,b,c).N == tri(c,a,b).N)
lemma piece_corner @C08 : forall("c Point, n Point, m Point, a real, b real", tri(c, lerp(c,n,a), lerp(c,m,b)).N == vmul(a*b, tri(c,n,m).N))
lemma piece_far @C08 : forall("c Point, n Point, m Point, a real, b real", tri(lerp(c,n,a), n, m).N == vmul(1-a, tri(c,n,m).N))
lemma piece_mid @C08 : forall("c Point, n Point, m Point, a real, b real", tri(m, lerp(c,m,b), lerp(c,n,a)).N == vmul(a*(1-b), tri(c,n,m).N))
lemma piece_far2 @C08 : forall("c Point, n Point, m Point, a real, b real", tri(lerp(c,n,a), n, lerp(c,m,b)).N == vmul(b*(1-a), tri(c,n,m).N))
lemma piece_mid2 @C08 : forall("c Point, n Point, m Point, b real", tri(n, m, lerp(c,m,b)).N == vmul(1-b, tri(c,n,m).N))
lemma piece_shares @C08 : forall("a real, b real", imp(0 <= a && a <= 1 && 0 <= b && b <= 1, a*b >= 0 && 1-a >= 0 && a*(1-b) >= 0 && a*b + (1-a) + a*(1-b) == 1 && b*(1-a) >= 0 && 1-b >= 0 && a*b + b*(1-a) + (1-b) == 1))

// zero if x lies on the side from c to m and y on that from c to n, positive the other way round
opaque fits(c Point, n Point, m Point, x Point, y Point) real = dot(vadd(crs(vec(c,n), vec(c,y)), crs(vec(c,x), vec(c,m))), crs(vec(c,n), vec(c,m)))
lemma fits_value : forall("c Point, n Point, m Point, a real, b real", fits(c,n,m,lerp(c,n,a),lerp(c,m,b)) == (a+b)*asq(c,n,m) && fits(c,n,m,lerp(c,m,b),lerp(c,n,a)) == 0)
lemma asq_pos : forall("c Point, n Point, m Point", asq(c,n,m) >= 0)
lemma sum_pos : forall("a real, b real, q real", imp(a >= 0 && b >= 0 && q > 0, (a+b)*q >= 0 && imp((a+b)*q == 0, a == 0 && b == 0)))
lemma fits_right hide reveal at : forall("c Point, n Point, m Point, a real, b real, x Point, y Point", trig(fits(c,n,m,x,y), at(x,c,n,a), at(y,c,m,b)), imp(at(x,c,n,a) && at(y,c,m,b) && !flat(c,n,m), by(fits_value(c,n,m,a,b), by(asq_pos(c,n,m), by(sum_pos(a,b,asq(c,n,m)), fits(c,n,m,x,y) >= 0 && imp(fits(c,n,m,x,y) == 0, x == c && y == c))))))
lemma fits_wrong hide reveal at : forall("c Point, n Point, m Point, a real, b real, x Point, y Point", trig(fits(c,n,m,y,x), at(x,c,n,a), at(y,c,m,b)), imp(at(x,c,n,a) && at(y,c,m,b), by(fits_value(c,n,m,a,b), fits(c,n,m,y,x) == 0)))

// ------------------------------------------------------------- which piece goes where
spec in3(x Triangle, a Point, b Point, c Point) bool = (x.P1 == a || x.P1 == b || x.P1 == c) && (x.P2 == a || x.P2 == b || x.P2 == c) && (x.P3 == a || x.P3 == b || x.P3 == c)
spec in4(x Triangle, a Point, b Point, c Point, d Point) bool = (x.P1 == a || x.P1 == b || x.P1 == c || x.P1 == d) && (x.P2 == a || x.P2 == b || x.P2 == c || x.P2 == d) && (x.P3 == a || x.P3 == b || x.P3 == c || x.P3 == d)
spec corner(r []Triangle, c Point, n Point, m Point, v Point, l Line) bool = eqpt(c, v) && in3(r[0], c, l.P1, l.P2) && in4(r[1], n, m, l.P1, l.P2) && in4(r[2], n, m, l.P1, l.P2)
// the triangle t cut along l at its vertex v (or one coinciding with it): first the corner, then the rest
opaque parts(r []Triangle, t Triangle, v Point, l Line) bool = len(r) == 3 && (corner(r, t.P1, t.P2, t.P3, v, l) || corner(r, t.P2, t.P3, t.P1, v, l) || corner(r, t.P3, t.P1, t.P2, v, l))
spec nfront(p Plane, t Triangle) int = ite(infront(p, t.P1), 1, 0) + ite(infront(p, t.P2), 1, 0) + ite(infront(p, t.P3), 1, 0)
// v is the one vertex in front, or behind
spec lonefront(p Plane, t Triangle, v Point) bool = nfront(p, t) == 1 && infront(p, v) && (v == t.P1 || v == t.P2 || v == t.P3)
spec loneback(p Plane, t Triangle, v Point) bool = nfront(p, t) == 2 && !infront(p, v) && (v == t.P1 || v == t.P2 || v == t.P3)
spec allfront(p Plane, t Triangle) bool = nfront(p, t) == 3
spec allback(p Plane, t Triangle) bool = nfront(p, t) == 0
// only touched by the plane: the section is shorter than the tolerance; most of its vertices are in front, or behind
spec touchfront(p Plane, t Triangle) bool = nfront(p, t) == 2 && !longsec(p, t)
spec touchback(p Plane, t Triangle) bool = nfront(p, t) == 1 && !longsec(p, t)
spec sidefront(p Plane, x Triangle) bool = front(p, x.P1) && front(p, x.P2) && front(p, x.P3)
spec sideback(p Plane, x Triangle) bool = back(p, x.P1) && back(p, x.P2) && back(p, x.P3)
opaque got(ts []Triangle, x Triangle) bool = exists("k int", trig(ts[k]), 0 <= k && k < len(ts) && ts[k] == x)
lemma got_at hide reveal got : forall("ts []Triangle, x Triangle, k int", trig(got(ts, x), ts[k]), imp(0 <= k && k < len(ts) && ts[k] == x, got(ts, x)))
lemma got_last hide reveal got : forall("ts []Triangle, x Triangle", trig(got(ts, x)), imp(1 <= len(ts) && ts[len(ts)-1] == x || 2 <= len(ts) && ts[len(ts)-2] == x, got(ts, x)))
lemma parts_front hide reveal parts : forall("p Plane, r []Triangle, t Triangle, v Point, l Line", trig(parts(r, t, v, l), front(p, l.P1)), imp(lonefront(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2), by(on_side(p, t, v), sidefront(p, r[0]) && sideback(p, r[1]) && sideback(p, r[2]))))
lemma parts_back hide reveal parts : forall("p Plane, r []Triangle, t Triangle, v Point, l Line", trig(parts(r, t, v, l), front(p, l.P1)), imp(loneback(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2), by(on_side(p, t, v), sideback(p, r[0]) && sidefront(p, r[1]) && sidefront(p, r[2]))))
// vertices on their own side, and those coinciding with one on the other side, are on it within the tolerance
lemma near_sides hide reveal infront : forall("p Plane, a Point, v Point", by(front_near(p, a, v), by(front_near(p, v, a), by(back_near(p, a, v), by(back_near(p, v, a), imp(eqpt(a, v), imp(infront(p, a), front(p, v)) && imp(infront(p, v), front(p, a)) && imp(!infront(p, a), back(p, v)) && imp(!infront(p, v), back(p, a))))))))
lemma on_side hide : forall("p Plane, t Triangle, v Point", by(near_sides(p, t.P1, t.P1), by(near_sides(p, t.P2, t.P2), by(near_sides(p, t.P3, t.P3), by(near_sides(p, t.P1, v), by(near_sides(p, t.P2, v), by(near_sides(p, t.P3, v), imp(infront(p, t.P1), front(p, t.P1)) && imp(!infront(p, t.P1), back(p, t.P1)) && imp(infront(p, t.P2), front(p, t.P2)) && imp(!infront(p, t.P2), back(p, t.P2)) && imp(infront(p, t.P3), front(p, t.P3)) && imp(!infront(p, t.P3), back(p, t.P3)) && imp(eqpt(t.P1, v), imp(infront(p, t.P1), front(p, v)) && imp(infront(p, v), front(p, t.P1)) && imp(!infront(p, t.P1), back(p, v)) && imp(!infront(p, v), back(p, t.P1))) && imp(eqpt(t.P2, v), imp(infront(p, t.P2), front(p, v)) && imp(infront(p, v), front(p, t.P2)) && imp(!infront(p, t.P2), back(p, v)) && imp(!infront(p, v), back(p, t.P2))) && imp(eqpt(t.P3, v), imp(infront(p, t.P3), front(p, v)) && imp(infront(p, v), front(p, t.P3)) && imp(!infront(p, t.P3), back(p, v)) && imp(!infront(p, v), back(p, t.P3))))))))))

lemma infront_front hide reveal infront,front : forall("p Plane, v Point", trig(front(p, v), infront(p, v)), imp(infront(p, v), front(p, v)))
lemma behind_back hide reveal infront,back : forall("p Plane, v Point", trig(back(p, v), infront(p, v)), imp(!infront(p, v), back(p, v)))

func sidesFit(c, t2, t3, a, b) (r)
reveal fits
returns fits(c, t2, t3, a, b)

func splitOnThree(p1, line, t) (r)
attr fresh
requires @C08 !eqpt(t.P1, t.P2) && !eqpt(t.P1, t.P3) && !eqpt(t.P2, t.P3)
use @C08 fits_right
use @C08 fits_wrong
ensures @C08 [cut at the first vertex] forall("a real, b real, x Point, y Point", imp(p1 == t.P1 && !flat(t.P1,t.P2,t.P3) && joins(line,x,y) && at(x,t.P1,t.P2,a) && at(y,t.P1,t.P3,b), pieces(r, t.P1, t.P2, t.P3, x, y)))
ensures @C08 [cut at the second vertex] forall("a real, b real, x Point, y Point", imp(p1 == t.P2 && !flat(t.P2,t.P3,t.P1) && joins(line,x,y) && at(x,t.P2,t.P3,a) && at(y,t.P2,t.P1,b), pieces(r, t.P2, t.P3, t.P1, x, y)))
ensures @C08 [cut at the third vertex] forall("a real, b real, x Point, y Point", imp(p1 == t.P3 && !flat(t.P3,t.P1,t.P2) && joins(line,x,y) && at(x,t.P3,t.P1,a) && at(y,t.P3,t.P2,b), pieces(r, t.P3, t.P1, t.P2, x, y)))
ensures @C07 [three pieces] len(r) == 3
ensures @C07 [the corner first, the rest after it] imp(p1 == t.P1 || p1 == t.P2 || p1 == t.P3, parts(r, t, p1, line))
reveal parts

// upmem: what may be in the upper mesh cut from ts by p; the least relation with these rules
uf upmem(p Plane, ts []Triangle, x Triangle) bool
axiom up_whole : forall("p Plane, ts []Triangle, x Triangle", trig(upmem(p, ts, x)), imp(got(ts, x) && (allfront(p, x) || touchfront(p, x)), upmem(p, ts, x)))
axiom up_corner : forall("p Plane, ts []Triangle, x Triangle, r []Triangle, t Triangle, v Point, l Line", trig(upmem(p, ts, x), parts(r, t, v, l)), imp(got(ts, t) && lonefront(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && (x == r[0]), upmem(p, ts, x)))
axiom up_rest : forall("p Plane, ts []Triangle, x Triangle, r []Triangle, t Triangle, v Point, l Line", trig(upmem(p, ts, x), parts(r, t, v, l)), imp(got(ts, t) && loneback(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && (x == r[1] || x == r[2]), upmem(p, ts, x)))
axiom up_cap : forall("p Plane, ts []Triangle, x Triangle", trig(upmem(p, ts, x)), imp(onp(p, x.P1) && onp(p, x.P2) && onp(p, x.P3) && ownnormal(x) && facesback(p.N, x.P1, x.P2, x.P3), upmem(p, ts, x)))
// likewise the lower mesh
uf downmem(p Plane, ts []Triangle, x Triangle) bool
axiom down_whole : forall("p Plane, ts []Triangle, x Triangle", trig(downmem(p, ts, x)), imp(got(ts, x) && (allback(p, x) || touchback(p, x)), downmem(p, ts, x)))
axiom down_corner : forall("p Plane, ts []Triangle, x Triangle, r []Triangle, t Triangle, v Point, l Line", trig(downmem(p, ts, x), parts(r, t, v, l)), imp(got(ts, t) && loneback(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && (x == r[0]), downmem(p, ts, x)))
axiom down_rest : forall("p Plane, ts []Triangle, x Triangle, r []Triangle, t Triangle, v Point, l Line", trig(downmem(p, ts, x), parts(r, t, v, l)), imp(got(ts, t) && lonefront(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && (x == r[1] || x == r[2]), downmem(p, ts, x)))
axiom down_cap : forall("p Plane, ts []Triangle, x Triangle", trig(downmem(p, ts, x)), imp(onp(p, x.P1) && onp(p, x.P2) && onp(p, x.P3) && ownnormal(x) && facesfront(p.N, x.P1, x.P2, x.P3), downmem(p, ts, x)))
// placed: the triangle t is in the two meshes: whole on its side, or all its parts on theirs
uf placed(p Plane, up []Triangle, down []Triangle, t Triangle) bool
axiom placed_whole : forall("p Plane, up []Triangle, down []Triangle, t Triangle", trig(placed(p, up, down, t)), imp(got(up, t) && (allfront(p, t) || touchfront(p, t)) || got(down, t) && (allback(p, t) || touchback(p, t)), placed(p, up, down, t)))
axiom placed_front : forall("p Plane, up []Triangle, down []Triangle, r []Triangle, t Triangle, v Point, l Line", trig(placed(p, up, down, t), parts(r, t, v, l)), imp(lonefront(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && got(up, r[0]) && got(down, r[1]) && got(down, r[2]), placed(p, up, down, t)))
axiom placed_back : forall("p Plane, up []Triangle, down []Triangle, r []Triangle, t Triangle, v Point, l Line", trig(placed(p, up, down, t), parts(r, t, v, l)), imp(loneback(p, t, v) && parts(r, t, v, l) && onp(p, l.P1) && onp(p, l.P2) && got(down, r[0]) && got(up, r[1]) && got(up, r[2]), placed(p, up, down, t)))
axiom placed_more : forall("p Plane, up []Triangle, down []Triangle, up2 []Triangle, down2 []Triangle, t Triangle", trig(placed(p, up2, down2, t), placed(p, up, down, t)), imp(placed(p, up, down, t) && len(up) <= len(up2) && len(down) <= len(down2) && all(k, 0, len(up), trig(up2[k]), up2[k] == up[k]) && all(k, 0, len(down), trig(down2[k]), down2[k] == down[k]), placed(p, up2, down2, t)))

// a mesh of the upper side, of the lower side
opaque upmesh(p Plane, ts []Triangle, us []Triangle) bool = all(k, 0, len(us), trig(us[k]), upmem(p, ts, us[k]) && (sidefront(p, us[k]) || touchfront(p, us[k])))
opaque downmesh(p Plane, ts []Triangle, us []Triangle) bool = all(k, 0, len(us), trig(us[k]), downmem(p, ts, us[k]) && (sideback(p, us[k]) || touchback(p, us[k])))
opaque allplaced(p Plane, ts []Triangle, n int, up []Triangle, down []Triangle) bool = all(k, 0, n, trig(ts[k]), placed(p, up, down, ts[k]))

func CutMesh(mesh, p) (u, d, e)
attr fresh
reveal upmesh downmesh allplaced
arg candtimeout 8000
use got_at
use got_last
use parts_front
use infront_front
use behind_back
use onpaths_at
use onpaths_none
use onpaths_add
use onpath_def
use onpath_intro
use parts_back
use up_whole
use up_corner
use up_rest
use up_cap
use cap_faces
use down_whole
use down_corner
use down_rest
use down_cap
use placed_whole
use placed_front
use placed_back
use placed_more
ensures @C07 [no triangle disappears] imp(!isnil(mesh), allplaced(p, mesh.Triangles, len(mesh.Triangles), u.Triangles, d.Triangles))
ensures @C07 [the upper mesh has only parts in front and caps facing back] imp(!isnil(mesh), upmesh(p, mesh.Triangles, u.Triangles))
ensures @C07 [the lower mesh has only parts behind and caps facing front] imp(!isnil(mesh), downmesh(p, mesh.Triangles, d.Triangles))
cand (us []Triangle; ds []Triangle) :: upmesh(p, mesh.Triangles, us) && downmesh(p, mesh.Triangles, ds)
cand (us []Triangle; ds []Triangle; i idx) :: allplaced(p, mesh.Triangles, i, us, ds)
cand (us []Triangle; ds []Triangle) :: allplaced(p, mesh.Triangles, len(mesh.Triangles), us, ds)
cand (ps []Path) :: onpaths(p, ps)
cand (ps []Path) :: all(k, 0, len(ps), trig(ps[k]), len(ps[k].Points) == 2)
