package vip

spec word(line string, i int) string = app("fields", "[]string", line)[i]
spec tail(s string) string = app("substr", "string", s, 1, app("strlen", "int", s))
spec num(line string, i int) real = app("parsefloat", "real", tail(word(line, i)))
spec flag(line string, i int) bool = app("parsebool", "bool", tail(word(line, i)))
// the normal of a plane printed with the bed tilted, after turning it by a
spec lean(t bool, a real) primitives.Vector = ite(t, vec3(0 - sin(rad(a))*sin(rad(angleX)), cos(rad(a))*sin(rad(angleX)), cos(rad(angleX))), vec3(0,0,1))
lemma lean_unit @C27 : forall("t bool, a real", sq(lean(t, a)) == 1)
lemma lean_angle @C27 : forall("t bool, a real", lean(t, a).Z == ite(t, cos(rad(angleX)), 1))
lemma lean_vertical @C27 : forall("a real", rapply(rotx(0-angleX), rapply(rotz(a), lean(true, a))) == vec3(0,0,1))

func ParsePlane(line) (r)
requires len(app("fields", "[]string", line)) >= 5
requires all(i, 0, 5, app("strlen", "int", word(line, i)) >= 1)
ensures @C27 [written point] r.Plane.P == pnt3(num(line,0), num(line,1), num(line,2))
ensures @C27 [written flag and rotation] r.tilted == flag(line, 3) && r.rotz == num(line, 4)
ensures @C27 [normal leans as written] r.Plane.N == lean(r.tilted, r.rotz)
