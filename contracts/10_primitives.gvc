package primitives

func Plane.IntersectSegment(p, a, b) (r)
reveal hasx xx xy xz
ensures @C01 [no point exactly when parallel or both ends strictly on one side] isnil(r) == (side(p,a)==side(p,b) || (side(p,a) > 0 && side(p,b) > 0) || (side(p,a) < 0 && side(p,b) < 0))
ensures @C01 [the point lies on the plane] imp(!isnil(r), side(p, *r) == 0)
ensures @C01 [the point lies between the ends] imp(!isnil(r), let(t, xt(p,a,b), 0 <= t && t <= 1 && r.X == a.X + t*(b.X-a.X) && r.Y == a.Y + t*(b.Y-a.Y) && r.Z == a.Z + t*(b.Z-a.Z)))
ensures @C02 @C07 @C15 [crossing found exactly when it exists] isnil(r) == !hasx(p,a,b)
ensures @C02 @C07 @C15 [it is the crossing] imp(!isnil(r), *r == xpt(p,a,b))

func RoundPlaces(a, places) (r)
requires 0 <= places && places <= 16
ensures @C32 [multiple of the unit] exists("k int", r*p10(places) == real(k))
ensures [moves by at most half a unit] abs(r - a)*p10(places) <= 0.5

func Round(a) (r)
ensures [nearest integer] abs(real(r) - a) <= 0.5

func Point.Equal(a, b) (r)
returns @C32 [within the tolerance on every axis] eqpt(a, b)

func AlmostZero(f) (r)
returns abs(f) < 0.000001

func ParseFloat(s) (r)
returns [the number read, zero when there is none] app("parsefloat", "real", s)

func Point.RoundPlaces(a, n) (r)
requires 0 <= n && n <= 16
ensures [each axis moves by at most half a unit] abs(r.X-a.X)*p10(n) <= 0.5 && abs(r.Y-a.Y)*p10(n) <= 0.5 && abs(r.Z-a.Z)*p10(n) <= 0.5
ensures @C32 [multiples of the unit] exists("k int", r.X*p10(n) == real(k)) && exists("k int", r.Y*p10(n) == real(k)) && exists("k int", r.Z*p10(n) == real(k))

func Point.MapKey(a) (r)
ensures @C32 [eight decimals] near8(a, r)

func Plane.IntersectTriangle(p, t) (r)
use three_crossings
use same_side
ensures @C02 [ends at crossings] imp(!isnil(r), (hasx(p,t.P1,t.P2) && near8(r.P1, xpt(p,t.P1,t.P2)) || hasx(p,t.P2,t.P3) && near8(r.P1, xpt(p,t.P2,t.P3)) || hasx(p,t.P3,t.P1) && near8(r.P1, xpt(p,t.P3,t.P1))) && (hasx(p,t.P1,t.P2) && near8(r.P2, xpt(p,t.P1,t.P2)) || hasx(p,t.P2,t.P3) && near8(r.P2, xpt(p,t.P2,t.P3)) || hasx(p,t.P3,t.P1) && near8(r.P2, xpt(p,t.P3,t.P1))))
ensures @C02 [the ends are distinct] imp(!isnil(r), !eqpt(r.P1, r.P2))
ensures @C02 [directed with the solid on the same hand] imp(!isnil(r), dot(crs(vec(r.P1,r.P2), p.N), t.N) <= 0)
ensures @C02 [not missed 12] imp(!isnil(t) && hasx(p,t.P1,t.P2) && hasx(p,t.P2,t.P3) && far(xpt(p,t.P1,t.P2), xpt(p,t.P2,t.P3)), !isnil(r))
ensures @C02 [not missed 13] imp(!isnil(t) && hasx(p,t.P1,t.P2) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P1,t.P2), xpt(p,t.P3,t.P1)), !isnil(r))
ensures @C02 [not missed 23] imp(!isnil(t) && hasx(p,t.P2,t.P3) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P2,t.P3), xpt(p,t.P3,t.P1)), !isnil(r))
ensures @C02 [none when all on one side] imp(!isnil(t) && (side(p,t.P1) > 0 && side(p,t.P2) > 0 && side(p,t.P3) > 0 || side(p,t.P1) < 0 && side(p,t.P2) < 0 && side(p,t.P3) < 0), isnil(r))
ensures @C02 [no triangle, no section] imp(isnil(t), isnil(r))

ensures @C07 [on the plane] imp(!isnil(r), onp(p, r.P1) && onp(p, r.P2) && !eqpt(r.P1, r.P2))
ensures @C07 [missed only if the section is shorter than the tolerance] imp(isnil(r) && !isnil(t), !longsec(p, *t))
use @C07 cross_on
use @C07 longsec_def

spec far(a Point, b Point) bool = abs(a.X-b.X) >= 0.00000102 || abs(a.Y-b.Y) >= 0.00000102 || abs(a.Z-b.Z) >= 0.00000102
lemma zero_vertex : forall("p Plane, a Point, b Point, c Point", trig(hasx(p,a,b), hasx(p,b,c), hasx(p,c,a)), imp(hasx(p,a,b) && hasx(p,b,c) && hasx(p,c,a), side(p,a)==0 || side(p,b)==0 || side(p,c)==0))
lemma cross_start : forall("p Plane, a Point, b Point", trig(hasx(p,a,b)), imp(hasx(p,a,b) && side(p,a)==0, xpt(p,a,b)==a))
lemma cross_end : forall("p Plane, a Point, b Point", trig(hasx(p,a,b)), imp(hasx(p,a,b) && side(p,b)==0, xpt(p,a,b)==b))
lemma three_crossings hide uses zero_vertex,cross_start,cross_end : forall("p Plane, a Point, b Point, c Point", trig(hasx(p,a,b), hasx(p,b,c), hasx(p,c,a)), imp(hasx(p,a,b) && hasx(p,b,c) && hasx(p,c,a), xpt(p,a,b)==xpt(p,b,c) || xpt(p,b,c)==xpt(p,c,a) || xpt(p,c,a)==xpt(p,a,b)))
lemma same_side : forall("p Plane, a Point, b Point", trig(hasx(p,a,b)), imp(side(p,a) > 0 && side(p,b) > 0 || side(p,a) < 0 && side(p,b) < 0, !hasx(p,a,b)))

// ------------------------------------------------------------- points near a plane
spec tolof(p Plane) real = 0.000001*(abs(p.N.X) + abs(p.N.Y) + abs(p.N.Z))
opaque front(p Plane, v Point) bool = side(p, v) >= 0 - tolof(p)
opaque back(p Plane, v Point) bool = side(p, v) <= tolof(p)
spec onp(p Plane, v Point) bool = front(p, v) && back(p, v)
// the plane crosses two sides of the triangle at points that are not within the tolerance
opaque longsec(p Plane, t Triangle) bool = hasx(p,t.P1,t.P2) && hasx(p,t.P2,t.P3) && far(xpt(p,t.P1,t.P2), xpt(p,t.P2,t.P3)) || hasx(p,t.P1,t.P2) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P1,t.P2), xpt(p,t.P3,t.P1)) || hasx(p,t.P2,t.P3) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P2,t.P3), xpt(p,t.P3,t.P1))
lemma longsec_def hide reveal longsec : forall("p Plane, t Triangle", trig(longsec(p, t)), imp(longsec(p, t), hasx(p,t.P1,t.P2) && hasx(p,t.P2,t.P3) && far(xpt(p,t.P1,t.P2), xpt(p,t.P2,t.P3)) || hasx(p,t.P1,t.P2) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P1,t.P2), xpt(p,t.P3,t.P1)) || hasx(p,t.P2,t.P3) && hasx(p,t.P3,t.P1) && far(xpt(p,t.P2,t.P3), xpt(p,t.P3,t.P1))))
lemma prod_near : forall("d real, n real, e real", imp(abs(d) <= e, d*n <= e*abs(n) && d*n >= 0 - e*abs(n)))
lemma side_diff hide : forall("p Plane, a Point, b Point, e real", imp(abs(a.X-b.X) <= e && abs(a.Y-b.Y) <= e && abs(a.Z-b.Z) <= e, by(prod_near(a.X-b.X, p.N.X, e), by(prod_near(a.Y-b.Y, p.N.Y, e), by(prod_near(a.Z-b.Z, p.N.Z, e), abs(side(p,a) - side(p,b)) <= e*abs(p.N.X) + e*abs(p.N.Y) + e*abs(p.N.Z))))))
lemma cross_zero : forall("p Plane, a Point, b Point", imp(hasx(p,a,b), side(p, xpt(p,a,b)) == 0))
lemma front_near hide reveal front : forall("p Plane, a Point, b Point", trig(front(p,a), front(p,b)), imp(side(p,a) >= 0 && eqpt(a,b), by(side_diff(p,a,b,0.000001), front(p,b))))
lemma back_near hide reveal back : forall("p Plane, a Point, b Point", trig(back(p,a), back(p,b)), imp(side(p,a) <= 0 && eqpt(a,b), by(side_diff(p,a,b,0.000001), back(p,b))))
lemma cross_on hide reveal front,back : forall("p Plane, a Point, b Point, x Point", trig(hasx(p,a,b), front(p,x)), imp(hasx(p,a,b) && near8(x, xpt(p,a,b)), by(cross_zero(p,a,b), by(side_diff(p,x,xpt(p,a,b),0.000001), onp(p,x)))))

opaque infront(p Plane, v Point) bool = side(p, v) >= 0

func Plane.PointInFront(p, v) (r)
reveal infront
returns infront(p, v)
