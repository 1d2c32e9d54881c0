// Mathematical vocabulary used by the contracts. Everything here is a definition; nothing is assumed.
package primitives

spec dot(a Vector, b Vector) real = a.X*b.X + a.Y*b.Y + a.Z*b.Z
spec crs(a Vector, b Vector) Vector = Vector{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
spec vec(p Point, q Point) Vector = Vector{q.X-p.X, q.Y-p.Y, q.Z-p.Z}
spec asvec(p Point) Vector = Vector{p.X, p.Y, p.Z}
spec aspt(p Vector) Point = Point{p.X, p.Y, p.Z}
spec vadd(a Vector, b Vector) Vector = Vector{a.X+b.X, a.Y+b.Y, a.Z+b.Z}
spec vsub(a Vector, b Vector) Vector = Vector{a.X-b.X, a.Y-b.Y, a.Z-b.Z}
spec vmul(k real, a Vector) Vector = Vector{k*a.X, k*a.Y, k*a.Z}
spec shift(p Point, v Vector) Point = Point{p.X+v.X, p.Y+v.Y, p.Z+v.Z}
spec sq(v Vector) real = dot(v, v)
spec rapply(m RotationMatrix, v Vector) Vector = Vector{dot(v, m.X), dot(v, m.Y), dot(v, m.Z)}
spec det3(a Vector, b Vector, c Vector) real = dot(crs(a, b), c)

// signed distance (times |N|) of a point from a plane
spec side(p Plane, q Point) real = dot(vec(p.P, q), p.N)

// the library's coincidence test, and its rounding
spec eqpt(a Point, b Point) bool = abs(a.X-b.X) < 0.000001 && abs(a.Y-b.Y) < 0.000001 && abs(a.Z-b.Z) < 0.000001
spec near8(a Point, b Point) bool = abs(a.X-b.X) <= 0.000000005 && abs(a.Y-b.Y) <= 0.000000005 && abs(a.Z-b.Z) <= 0.000000005
spec p10(n int) real = ite(n==0, 1, ite(n==1, 10, ite(n==2, 100, ite(n==3, 1000, ite(n==4, 10000, ite(n==5, 100000, ite(n==6, 1000000, ite(n==7, 10000000, ite(n==8, 100000000, ite(n==9, 1000000000, ite(n==10, 10000000000, ite(n==11, 100000000000, ite(n==12, 1000000000000, ite(n==13, 10000000000000, ite(n==14, 100000000000000, ite(n==15, 1000000000000000, 10000000000000000))))))))))))))))

// crossing of a plane with a segment
opaque hasx(p Plane, a Point, b Point) bool = side(p,a) != side(p,b) && !(side(p,a) > 0 && side(p,b) > 0) && !(side(p,a) < 0 && side(p,b) < 0)
spec xt(p Plane, a Point, b Point) real = side(p,a) / (side(p,a) - side(p,b))
opaque xx(p Plane, a Point, b Point) real = a.X + xt(p,a,b)*(b.X-a.X)
opaque xy(p Plane, a Point, b Point) real = a.Y + xt(p,a,b)*(b.Y-a.Y)
opaque xz(p Plane, a Point, b Point) real = a.Z + xt(p,a,b)*(b.Z-a.Z)
spec xpt(p Plane, a Point, b Point) Point = Point{xx(p,a,b), xy(p,a,b), xz(p,a,b)}

// angles
spec rad(x real) real = pi * x / 180
opaque ang(a Vector, b Vector) real = let(q, dot(a,b)/sqrt(sq(a))/sqrt(sq(b)), ite(q < 0-1, 180, ite(q > 1, 0, acos(q)*180/pi)))
spec rotz(angle real) RotationMatrix = RotationMatrix{Vector{cos(rad(angle)), sin(rad(angle)), 0}, Vector{0-sin(rad(angle)), cos(rad(angle)), 0}, Vector{0,0,1}}
spec rotx(angle real) RotationMatrix = RotationMatrix{Vector{1,0,0}, Vector{0, cos(rad(angle)), sin(rad(angle))}, Vector{0, 0-sin(rad(angle)), cos(rad(angle))}}
spec vec3(x real, y real, z real) Vector = Vector{x, y, z}
spec pnt3(x real, y real, z real) Point = Point{x, y, z}
