package simplify

// simplified(in, f, out): out is the outcome of the external simplifier on the triangles in
uf simplified(in []*simplify.Triangle, f real, out []*simplify.Triangle) bool

func Mesh.Simplify(m, factor) (r)
attr trusted fresh
arg why external library github.com/fogleman/simplify: gives a mesh without missing triangles for a mesh without missing triangles
requires !isnil(m) && all(k, 0, len(m.Triangles), trig(m.Triangles[k]), !isnil(m.Triangles[k]))
ensures !isnil(r) && all(k, 0, len(r.Triangles), trig(r.Triangles[k]), !isnil(r.Triangles[k]))
ensures simplified(m.Triangles, factor, r.Triangles)

package helpers
spec fpt(p Point, v simplify.Vector) bool = p.X == v.X && p.Y == v.Y && p.Z == v.Z
spec ftri(a Triangle, b simplify.Triangle) bool = fpt(a.P1, b.V1) && fpt(a.P2, b.V2) && fpt(a.P3, b.V3)
opaque handed(ts []Triangle, fs []*simplify.Triangle) bool = len(ts) == len(fs) && all(k, 0, len(ts), trig(ts[k]), trig(fs[k]), !isnil(fs[k]) && ftri(ts[k], *fs[k]))
opaque takenback(fs []*simplify.Triangle, ts []Triangle) bool = len(ts) == len(fs) && all(k, 0, len(ts), trig(ts[k]), trig(fs[k]), ftri(ts[k], *fs[k]) && ts[k].N == crs(vec(ts[k].P1, ts[k].P2), vec(ts[k].P1, ts[k].P3)))

func toFoglemanMesh(mesh) (r)
attr fresh
requires !isnil(mesh)
reveal handed
ensures @C33 [every triangle handed over in order] !isnil(r) && handed(mesh.Triangles, r.Triangles)
ensures all(k, 0, len(r.Triangles), trig(r.Triangles[k]), !isnil(r.Triangles[k]))
cand (s []*simplify.Triangle; i idx) :: len(s) == i && all(k, 0, i, trig(s[k]), !isnil(s[k]) && ftri(mesh.Triangles[k], *s[k]))

func toGoosliMesh(mesh) (r)
attr fresh
requires !isnil(mesh) && all(k, 0, len(mesh.Triangles), trig(mesh.Triangles[k]), !isnil(mesh.Triangles[k]))
reveal takenback
ensures @C33 [every triangle taken back in order] !isnil(r) && takenback(mesh.Triangles, r.Triangles)
cand (s []Triangle; i idx) :: len(s) == i && all(k, 0, i, trig(s[k]), ftri(s[k], *mesh.Triangles[k]) && s[k].N == crs(vec(s[k].P1, s[k].P2), vec(s[k].P1, s[k].P3)))

func SimplifyMesh(mesh, resSize) (r, err)
requires resSize >= 0
ensures @C33 [a missing mesh is an error] iff(isnil(mesh), !isnil(err))
ensures @C33 [a small mesh is returned as it is] imp(!isnil(mesh) && len(mesh.Triangles) <= resSize, !isnil(r) && *r == *mesh)
ensures @C33 [the simplifier gets every triangle and all of its triangles come back] imp(!isnil(mesh) && len(mesh.Triangles) > resSize, !isnil(r) && exists("in []*simplify.Triangle, out []*simplify.Triangle, f real", handed(mesh.Triangles, in) && simplified(in, f, out) && takenback(out, r.Triangles)))
