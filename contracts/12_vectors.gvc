package primitives

func Vector.Cross(a, b) (r)
returns @C13 crs(a, b)

func Vector.Dot(a, b) (r)
returns @C13 dot(a, b)

func Vector.LengthSquare(a) (r)
returns @C13 sq(a)

func Vector.Length(a) (r)
returns @C13 [Euclidean length] sqrt(sq(a))

spec dirof(a Vector) Vector = ite(sqrt(sq(a)) == 0, a, Vector{a.X/sqrt(sq(a)), a.Y/sqrt(sq(a)), a.Z/sqrt(sq(a))})
func Vector.Normalize(a) (r)
returns [divided by its length, zero stays] dirof(a)
ensures @C13 [unit length] imp(sq(a) > 0, sq(r) == 1)
ensures @C13 [same direction] a == vmul(sqrt(sq(a)), r)
ensures @C13 [zero stays zero] imp(sq(a) == 0, r == a)

opaque prx(a Vector, b Vector) real = ite(sq(b) == 0, b.X, dot(a,b)/sq(b)*b.X)
opaque pry(a Vector, b Vector) real = ite(sq(b) == 0, b.Y, dot(a,b)/sq(b)*b.Y)
opaque prz(a Vector, b Vector) real = ite(sq(b) == 0, b.Z, dot(a,b)/sq(b)*b.Z)
spec prj(a Vector, b Vector) Vector = Vector{prx(a,b), pry(a,b), prz(a,b)}

func Vector.ProjectOn(a, b) (r)
ensures @C13 [parallel component] imp(sq(b) > 0, dot(vsub(a, r), b) == 0 && crs(r, b) == Vector{0,0,0})
returns [exact] prj(a, b)
reveal prx pry prz

func Vector.ProjectOnPlane(a, p) (r)
reveal prx pry prz
ensures @C13 [orthogonal to the normal] dot(r, p.N) == 0
ensures @C13 [differs by a multiple of the normal] crs(vsub(a, r), p.N) == Vector{0,0,0}

// the angle in terms of what Dot and Length return
opaque angf(a Vector, b Vector) real = let(q, app("call_primitives.Vector.Dot","real",a,b)/app("call_primitives.Vector.Length","real",a)/app("call_primitives.Vector.Length","real",b), ite(q < 0-1, 180, ite(q > 1, 0, acos(q)*180/pi)))
func Vector.Angle(a, b) (r)
attr nodiv
arg opaquecalls primitives.Vector.Dot primitives.Vector.Length
reveal angf
returns [arc cosine of the normalised dot product, overshoot clamped to the nearer end] angf(a, b)
ensures @C13 [between 0 and 180] 0 <= r && r <= 180

func Point.DistanceTo(a, b) (r)
returns @C13 [Euclidean distance] sqrt((a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) + (a.Z-b.Z)*(a.Z-b.Z))

func Line.Len(l) (r)
returns @C13 [Euclidean length] sqrt(sq(vec(l.P1, l.P2)))

opaque foot(a Point, b Point, c Point, r Point) bool = ite(sq(vec(b,c)) > 0, crs(vec(b, r), vec(b,c)) == Vector{0,0,0} && dot(vec(a, r), vec(b,c)) == 0, r == b)
func Point.ProjectOnLine(a, b, c) (r)
ensures @C13 [on the line] imp(sq(vec(b,c)) > 0, crs(vec(b, r), vec(b,c)) == Vector{0,0,0})
ensures @C13 [foot of the perpendicular] imp(sq(vec(b,c)) > 0, dot(vec(a, r), vec(b,c)) == 0)
reveal foot
ensures @C24 [foot of the perpendicular, or the only point] foot(a, b, c, r)

// distance of a point from the line through b and c, or from b where they coincide
opaque linedist(a Point, b Point, c Point) real = ite(sq(vec(b,c)) > 0, sqrt(sq(crs(vec(b,a), vec(b,c)))/sq(vec(b,c))), sqrt(sq(vec(a,b))))
lemma foot_cross : forall("u Vector, w Vector, e Vector", imp(crs(w,e) == Vector{0,0,0}, crs(vsub(w,u), e) == vmul(0-1, crs(u,e))))
lemma lagrange : forall("u Vector, e Vector", sq(vmul(0-1, crs(u,e))) == sq(u)*sq(e) - dot(u,e)*dot(u,e))
lemma foot_sq : forall("u Vector, w Vector, e Vector", by(foot_cross(u,w,e), by(lagrange(u,e), imp(crs(w,e) == Vector{0,0,0} && dot(u,e) == 0, sq(crs(vsub(w,u), e)) == sq(u)*sq(e)))))
lemma foot_dist : forall("a Point, b Point, c Point, r Point", by(foot_sq(vec(a,r), vec(b,r), vec(b,c)), imp(crs(vec(b,r), vec(b,c)) == Vector{0,0,0} && dot(vec(a,r), vec(b,c)) == 0, sq(vec(a,r))*sq(vec(b,c)) == sq(crs(vec(b,a), vec(b,c))))))
lemma quotient : forall("x real, y real, z real", imp(y > 0 && x*y == z, x == z/y))
lemma linedist_foot : forall("a Point, b Point, c Point, r Point", trig(foot(a,b,c,r)), by(foot_dist(a,b,c,r), by(quotient(sq(vec(a,r)), sq(vec(b,c)), sq(crs(vec(b,a), vec(b,c)))), imp(foot(a,b,c,r), sqrt((r.X-a.X)*(r.X-a.X) + (r.Y-a.Y)*(r.Y-a.Y) + (r.Z-a.Z)*(r.Z-a.Z)) == linedist(a,b,c)))))

func Point.DistanceToLine(a, b, c) (r)
use linedist_foot
returns @C24 [distance from the line] linedist(a, b, c)

// r is the orthogonal projection of m on the plane
opaque isproj(p Plane, m Point, r Point) bool = side(p, r) == 0 && crs(vec(m, r), p.N) == Vector{0,0,0}
func Plane.ProectionPointToPlane(p, m) (r)
requires sq(p.N) > 0
ensures @C13 @C26 [on the plane] side(p, r) == 0
ensures @C13 @C26 [along the normal] crs(vec(m, r), p.N) == Vector{0,0,0}
reveal isproj
ensures @C26 [orthogonal projection] isproj(p, m, r)
returns shift(m, vmul((p.N.X*(p.P.X - m.X) + p.N.Y*(p.P.Y - m.Y) + p.N.Z*(p.P.Z - m.Z))/(p.N.X*p.N.X + p.N.Y*p.N.Y + p.N.Z*p.N.Z), p.N))

func RotationAroundX(angle) (r)
returns @C09 [turn about the X axis] rotx(angle)

func RotationAroundZ(angle) (r)
returns @C09 [turn about the Z axis] rotz(angle)

func Vector.Rotate(a, m) (r)
returns @C09 [components are the dot products with the rows] rapply(m, a)

func Plane.Rotate(p, m) (r)
returns @C09 Plane{aspt(rapply(m, asvec(p.P))), rapply(m, p.N)}

func Vector.RotateAbout(a, b, angle) (r)
use prj_facts(a, b)
use cross_len(b, vsub(a, prj(a,b)))
use rot_step(prj(a,b), a, b, sqrt(sq(b)), sqrt(sq(vsub(a, prj(a,b)))), sqrt(sq(crs(b, vsub(a, prj(a,b))))), cos(rad(angle)), sin(rad(angle)), dot(a,b)/sq(b))
ensures @C09 @C27 @C28 [turn about the axis by the angle, counterclockwise] imp(sq(b) > 0, r == rod(a, b, sqrt(sq(b)), cos(rad(angle)), sin(rad(angle))))

// Rodrigues: l is the length of the axis b, c and s the cosine and sine of the angle
spec rod(a Vector, b Vector, l real, c real, s real) Vector = vadd(vadd(vmul(c, a), vmul(s/l, crs(b, a))), vmul((1-c)*dot(a,b)/(l*l), b))

lemma rod_dot @C09 : forall("a Vector, d Vector, b Vector, l real, c real, s real", imp(l > 0 && l*l == sq(b) && c*c + s*s == 1, dot(rod(a,b,l,c,s), rod(d,b,l,c,s)) == dot(a,d)))
lemma rod_axis @C09 : forall("b Vector, l real, c real, s real", imp(l > 0 && l*l == sq(b), rod(b,b,l,c,s) == b))
lemma rod_inverse @C09 : forall("a Vector, b Vector, l real, c real, s real", imp(l > 0 && l*l == sq(b) && c*c + s*s == 1, rod(rod(a,b,l,c,s),b,l,c,0-s) == a))
lemma rotx_rigid @C09 : forall("a Vector, b Vector, t real", dot(rapply(rotx(t), a), rapply(rotx(t), b)) == dot(a, b))
lemma rotz_rigid @C09 : forall("a Vector, b Vector, t real", dot(rapply(rotz(t), a), rapply(rotz(t), b)) == dot(a, b))
lemma rotx_proper @C09 : forall("a Vector, b Vector, t real", crs(rapply(rotx(t), a), rapply(rotx(t), b)) == rapply(rotx(t), crs(a, b)))
lemma rotz_proper @C09 : forall("a Vector, b Vector, t real", crs(rapply(rotz(t), a), rapply(rotz(t), b)) == rapply(rotz(t), crs(a, b)))
lemma rotx_inverse @C09 : forall("a Vector, t real", rapply(rotx(0-t), rapply(rotx(t), a)) == a)
lemma rotz_inverse @C09 : forall("a Vector, t real", rapply(rotz(0-t), rapply(rotz(t), a)) == a)
lemma cross_len : forall("b Vector, p Vector", imp(dot(b,p) == 0, sqrt(sq(crs(b,p))) == sqrt(sq(b))*sqrt(sq(p))))
lemma prj_facts : forall("a Vector, b Vector", imp(sq(b) > 0, prj(a,b) == vmul(dot(a,b)/sq(b), b) && dot(b, vsub(a, prj(a,b))) == 0 && crs(b, vsub(a, prj(a,b))) == crs(b, a)))
lemma unit_scale : forall("w Vector, l real, p real, m real", imp(l > 0 && p >= 0 && m == l*p && m*m == sq(w), vmul(p, ite(m == 0, w, Vector{w.X/m, w.Y/m, w.Z/m})) == vmul(1/l, w)))
spec unit(w Vector, m real) Vector = ite(m == 0, w, Vector{w.X/m, w.Y/m, w.Z/m})
spec rotsum(p Vector, a Vector, b Vector, pl real, m real, c real, s real) Vector = vadd(vadd(p, vmul(c, vsub(a, p))), vmul(s, vmul(pl, unit(crs(b, vsub(a, p)), m))))
lemma rot_step : forall("p Vector, a Vector, b Vector, l real, pl real, m real, c real, s real, k real", imp(l > 0 && l*l == sq(b) && pl >= 0 && m == l*pl && m*m == sq(crs(b, vsub(a,p))) && crs(b, vsub(a, p)) == crs(b, a) && p == vmul(k, b) && k*l*l == dot(a,b), rotsum(p, a, b, pl, m, c, s) == rod(a, b, l, c, s)))
lemma rod_proper @C09 : forall("a Vector, d Vector, b Vector, l real, c real, s real", imp(l > 0 && l*l == sq(b) && c*c + s*s == 1, crs(rod(a,b,l,c,s), rod(d,b,l,c,s)) == rod(crs(a,d),b,l,c,s)))
