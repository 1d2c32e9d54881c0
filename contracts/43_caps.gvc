package primitives

// which way the triangle a b c faces
opaque facesfront(n Vector, a Point, b Point, c Point) bool = dot(tri(a,b,c).N, n) >= 0
opaque facesback(n Vector, a Point, b Point, c Point) bool = dot(tri(a,b,c).N, n) <= 0
opaque ownnormal(x Triangle) bool = x.N == tri(x.P1,x.P2,x.P3).N
opaque codir(a Vector, b Vector) bool = dot(a, b) >= 0
lemma cap_turned @C07 : forall("n Vector, a Point, b Point, c Point", dot(tri(c,b,a).N, n) == 0 - dot(tri(a,b,c).N, n))
lemma cap_faces @C07 hide reveal facesfront,facesback : forall("n Vector, a Point, b Point, c Point", trig(facesfront(n,a,b,c)), by(cap_turned(n,a,b,c), ite(facesfront(n,a,b,c), facesback(n,c,b,a), facesback(n,a,b,c) && facesfront(n,c,b,a))))

func NewTriangle(p1, p2, p3) (r)
arg only C07
reveal ownnormal facesfront codir
ensures r.P1 == p1 && r.P2 == p2 && r.P3 == p3 && ownnormal(r)
ensures forall("n Vector", trig(codir(r.N, n)), codir(r.N, n) == facesfront(n, p1, p2, p3))

func Vector.CodirectedWith(a, b) (r)
arg only C07
reveal codir
returns codir(a, b)

