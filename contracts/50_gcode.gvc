// The G-code machine behind the output buffer: gm(b) its state, prints(b), retracts(b), travels(b) what it has done.
package gcode

spec pdist(a primitives.Point, b primitives.Point) real = sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))
spec amount(g GcodeSettings, d real) real = 4*g.LineWidth*g.LayerHeight*d/(pi*g.BarDiameter*g.BarDiameter)
fold pvol(g GcodeSettings, ps []primitives.Point, n int) real = ite(n <= 0, 0, pvol(g, ps, n-1) + amount(g, pdist(ps[n-1], ps[n])))
fold tvol(g GcodeSettings, ps []primitives.Path, n int) real = ite(n <= 0, 0, tvol(g, ps, n-1) + pvol(g, ps[n-1].Points, len(ps[n-1].Points)-1))
fold segs(ps []primitives.Path, n int) int = ite(n <= 0, 0, segs(ps, n-1) + len(ps[n-1].Points) - 1)
spec nonempty(ps []primitives.Path) bool = len(ps) >= 0 && all(k, 0, len(ps), trig(ps[k]), len(ps[k].Points) >= 1)
spec speedof(s State, g GcodeSettings) int = ite(s.layerIndex == 0, g.PrintSpeedLayer1, ite(s.isWall, g.PrintSpeedWall, g.PrintSpeed))
spec goodset(g GcodeSettings) bool = g.PrintSpeed > 0 && g.PrintSpeedLayer1 > 0 && g.PrintSpeedWall > 0 && g.RetractionSpeed > 0 && g.BarDiameter > 0

// what the program knows about the machine between two commands
spec known(s State, m GState, g GcodeSettings) bool = m.Tool == 0 && (m.E == rounded(s.eOff) || g.Retraction && m.E == rounded(s.eOff - g.RetractionDistance)) && m.P1 == rounded(s.t1) && m.P2 == rounded(s.t2) && m.Fan == s.fan && (s.feedrate == 0 || m.F == real(s.feedrate)) && !m.Bad
// and about the layers
spec counted(s State, m GState) bool = m.Seq && m.Layers == s.layerIndex && s.layerIndex >= 0
// while a layer is being printed its announcement has been made
spec counting(s State, m GState) bool = m.Seq && m.Layers == s.layerIndex + 1 && s.layerIndex >= 0

spec sg(ps []primitives.Path) int = segs(ps, len(ps))
spec lsegs(l primitives.Layer) int = sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs) + sg(l.Fill)
fold gsegs(ls []primitives.Layer, n int) int = ite(n <= 0, 0, gsegs(ls, n-1) + lsegs(ls[n-1]))
spec filled(l primitives.Layer) bool = nonempty(l.Paths) && nonempty(l.MiddlePs) && nonempty(l.InnerPs) && nonempty(l.Fill)
spec allfilled(ls []primitives.Layer) bool = all(k, 0, len(ls), trig(ls[k]), filled(ls[k]))

lemma segs_in ind n : forall("ps []primitives.Path, a int, n int", trig(segs(ps,a), segs(ps,n)), imp(0 <= a && a < n && n <= len(ps) && nonempty(ps), 0 <= segs(ps, a) && segs(ps, a) + len(ps[a].Points) - 1 <= segs(ps, n)))
lemma segs_mono ind n : forall("ps []primitives.Path, a int, n int", trig(segs(ps,a), segs(ps,n)), imp(0 <= a && a <= n && n <= len(ps) && nonempty(ps), segs(ps, a) <= segs(ps, n)))

func printSpeedToGCode(state, sett, b) (r)
requires goodset(sett)
requires known(state, gm(b), sett)
modifies *b
ensures [only the feed rate] r.fan == state.fan && r.layerIndex == state.layerIndex && r.eOff == state.eOff && r.isWall == state.isWall && r.pos == state.pos && r.t1 == state.t1 && r.t2 == state.t2
ensures known(r, gm(b), sett)
ensures @C20 [the machine has the speed for this layer and kind] gm(b).F == real(speedof(state, sett)) && r.feedrate == speedof(state, sett)
ensures [nothing moves] kept(b) && idle(b) && gm(b).E == old(gm(b).E) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)

func retractionToGCode(b, sett, state) (r)
requires goodset(sett)
requires known(state, gm(b), sett)
modifies *b
ensures [only the feed rate] r.fan == state.fan && r.layerIndex == state.layerIndex && r.eOff == state.eOff && r.isWall == state.isWall && r.pos == state.pos && r.t1 == state.t1 && r.t2 == state.t2
ensures known(r, gm(b), sett)
ensures kept(b) && len(prints(b)) == old(len(prints(b))) && len(travels(b)) == old(len(travels(b))) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq) && gm(b).X == old(gm(b).X) && gm(b).Y == old(gm(b).Y) && gm(b).Z == old(gm(b).Z)
ensures @C23 [none when off] imp(!sett.Retraction, len(retracts(b)) == old(len(retracts(b))))
ensures @C23 [the configured distance at the configured speed] imp(sett.Retraction, len(retracts(b)) == old(len(retracts(b)))+1 && let(q, retracts(b)[old(len(retracts(b)))], q.E == rounded(state.eOff - sett.RetractionDistance) && q.F == real(sett.RetractionSpeed) && q.N == len(prints(b))))

spec close3(e GPrint, p primitives.Point) bool = abs(e.X-p.X) <= 0.001 && abs(e.Y-p.Y) <= 0.001 && abs(e.Z-p.Z) <= 0.001
spec from3(e GPrint, p primitives.Point) bool = abs(e.FX-p.X) <= 0.001 && abs(e.FY-p.Y) <= 0.001 && abs(e.FZ-p.Z) <= 0.001
spec at3(e GPrint, p primitives.Point) bool = e.X == rounded(p.X) && e.Y == rounded(p.Y) && e.Z == rounded(p.Z)
spec left3(e GPrint, p primitives.Point) bool = e.FX == rounded(p.X) && e.FY == rounded(p.Y) && e.FZ == rounded(p.Z)

// the printing moves from number n on follow the paths ps
opaque visits(pr []GPrint, n int, ps []primitives.Path) bool = all(a, 0, len(ps), trig(ps[a]), all(c, 1, len(ps[a].Points), trig(ps[a].Points[c]), close3(pr[n + segs(ps,a) + c - 1], ps[a].Points[c])) && all(c, 0, len(ps[a].Points)-1, trig(ps[a].Points[c]), from3(pr[n + segs(ps,a) + c], ps[a].Points[c])))
lemma visits_frame uses segs_in : forall("p []GPrint, q []GPrint, n int, m int, ps []primitives.Path", trig(visits(p,n,ps), visits(q,m,ps)), imp(visits(p,n,ps) && n == m && nonempty(ps) && 0 <= n && n + sg(ps) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), visits(q,m,ps)))
// and leave the extruder at e plus the volume of what has been printed of ps
opaque amounts(g GcodeSettings, pr []GPrint, n int, e real, ps []primitives.Path) bool = all(a, 0, len(ps), trig(ps[a]), all(c, 1, len(ps[a].Points), trig(ps[a].Points[c]), abs(pr[n + segs(ps,a) + c - 1].E - (e + tvol(g, ps, a) + pvol(g, ps[a].Points, c))) <= 0.001))
lemma amounts_frame uses segs_in : forall("g GcodeSettings, p []GPrint, q []GPrint, n int, m int, e real, f real, ps []primitives.Path", trig(amounts(g,p,n,e,ps), amounts(g,q,m,f,ps)), imp(amounts(g,p,n,e,ps) && n == m && e == f && nonempty(ps) && 0 <= n && n + sg(ps) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), amounts(g,q,m,f,ps)))
// printing moves lo, .., hi-1 ran with this fan, at this feed rate, after this many announcements
opaque paced(pr []GPrint, lo int, hi int, fan bool, f int, layer int) bool = all(n, lo, hi, trig(pr[n]), pr[n].Fan == fan && pr[n].F == real(f) && pr[n].Layer == layer)
lemma paced_frame : forall("p []GPrint, q []GPrint, lo int, hi int, lo2 int, hi2 int, fan bool, fan2 bool, f int, f2 int, l int, l2 int", trig(paced(p,lo,hi,fan,f,l), paced(q,lo2,hi2,fan2,f2,l2)), imp(paced(p,lo,hi,fan,f,l) && lo == lo2 && hi == hi2 && fan == fan2 && f == f2 && l == l2 && 0 <= lo && hi <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), paced(q,lo2,hi2,fan2,f2,l2)))
// retractions number m, m+1, .. come before the paths of ps, which are printed from move n on and extruder position e
opaque pulls(g GcodeSettings, rt []GRetr, m int, n int, e real, ps []primitives.Path) bool = all(a, 0, len(ps), trig(ps[a]), rt[m+a].N == n + segs(ps, a) && rt[m+a].F == real(g.RetractionSpeed) && abs(rt[m+a].E - (e + tvol(g, ps, a) - g.RetractionDistance)) <= 0.001)
lemma pulls_frame uses segs_in : forall("g GcodeSettings, p []GRetr, q []GRetr, m int, n int, e real, m2 int, n2 int, e2 real, ps []primitives.Path", trig(pulls(g,p,m,n,e,ps), pulls(g,q,m2,n2,e2,ps)), imp(pulls(g,p,m,n,e,ps) && m == m2 && n == n2 && e == e2 && 0 <= m && m + len(ps) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), pulls(g,q,m2,n2,e2,ps)))

func pathesToGCode(pths, comment, sett, state, b) (r)
use segs_in
reveal visits amounts paced pulls
requires goodset(sett) && nonempty(pths) && plain(comment)
requires known(state, gm(b), sett)
modifies *b
ensures [offset, feed rate and position only] r.fan == state.fan && r.layerIndex == state.layerIndex && r.isWall == state.isWall && r.t1 == state.t1 && r.t2 == state.t2
ensures known(r, gm(b), sett)
ensures kept(b) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)
ensures @C19 @C23 [the known amount grows by the volume of what is printed] r.eOff == state.eOff + tvol(sett, pths, len(pths))
ensures [one printing move per segment] len(prints(b)) == old(len(prints(b))) + segs(pths, len(pths))
ensures @C18 [every move starts at its path point and ends at the next one] visits(prints(b), old(len(prints(b))), pths)
ensures @C19 [every move advances the extruder by its volume] amounts(sett, prints(b), old(len(prints(b))), state.eOff, pths)
ensures @C20 [printed with the fan as set and at the speed for this layer and kind] paced(prints(b), old(len(prints(b))), len(prints(b)), state.fan, speedof(state, sett), gm(b).Layers)
ensures @C23 [no retraction when off] imp(!sett.Retraction, len(retracts(b)) == old(len(retracts(b))))
ensures @C23 [one retraction before each path] imp(sett.Retraction, len(retracts(b)) == old(len(retracts(b))) + len(pths))
ensures @C23 [it pulls back the configured distance from the amount extruded so far, at the configured speed] imp(sett.Retraction, pulls(sett, retracts(b), old(len(retracts(b))), old(len(prints(b))), state.eOff, pths))
ensures @C23 [every travel comes after one] imp(sett.Retraction, all(n, old(len(travels(b))), len(travels(b)), trig(travels(b)[n]), travels(b)[n].R > old(len(retracts(b))) && travels(b)[n].R <= len(retracts(b)) && retracts(b)[travels(b)[n].R - 1].N == travels(b)[n].N))
cand (i idx) :: len(prints(b)) == old(len(prints(b))) + segs(pths, i)
cand (i idx) :: 0 <= i && i <= len(pths)
cand (s State; i idx) :: known(s, gm(b), sett)
cand (s State; i idx) :: s.fan == state.fan && s.layerIndex == state.layerIndex && s.isWall == state.isWall && s.t1 == state.t1 && s.t2 == state.t2
cand @C19 @C23 (s State; i idx) :: s.eOff == state.eOff + tvol(sett, pths, i)
cand @C18 (i idx) :: all(a, 0, i, trig(pths[a]), all(c, 1, len(pths[a].Points), trig(pths[a].Points[c]), at3(prints(b)[old(len(prints(b))) + segs(pths,a) + c - 1], pths[a].Points[c])))
cand @C18 (i idx) :: all(a, 0, i, trig(pths[a]), all(c, 0, len(pths[a].Points)-1, trig(pths[a].Points[c]), left3(prints(b)[old(len(prints(b))) + segs(pths,a) + c], pths[a].Points[c])))
cand @C19 (i idx) :: all(a, 0, i, trig(pths[a]), all(c, 1, len(pths[a].Points), trig(pths[a].Points[c]), prints(b)[old(len(prints(b))) + segs(pths,a) + c - 1].E == rounded(state.eOff + tvol(sett, pths, a) + pvol(sett, pths[a].Points, c))))
cand @C20 all(n, old(len(prints(b))), len(prints(b)), trig(prints(b)[n]), prints(b)[n].Fan == state.fan && prints(b)[n].F == real(speedof(state, sett)) && prints(b)[n].Layer == gm(b).Layers)
cand @C20 (s State) :: s.feedrate == speedof(state, sett) && gm(b).F == real(speedof(state, sett))
cand @C23 (i idx) :: len(retracts(b)) == old(len(retracts(b))) + ite(sett.Retraction, i, 0)
cand @C23 (i idx) :: imp(sett.Retraction, all(a, 0, i, trig(pths[a]), let(q, retracts(b)[old(len(retracts(b))) + a], q.N == old(len(prints(b))) + segs(pths, a) && q.F == real(sett.RetractionSpeed) && q.E == rounded(state.eOff + tvol(sett, pths, a) - sett.RetractionDistance))))
cand @C23 imp(sett.Retraction, all(n, old(len(travels(b))), len(travels(b)), trig(travels(b)[n]), travels(b)[n].R > old(len(retracts(b))) && travels(b)[n].R <= len(retracts(b)) && retracts(b)[travels(b)[n].R - 1].N == travels(b)[n].N))
cand (j idx; i idx const) :: len(prints(b)) == old(len(prints(b))) + segs(pths, i) + j - 1
cand (j idx; i idx const) :: 1 <= j && j <= len(pths[i].Points)
cand @C19 @C23 (s State; j idx; i idx const) :: s.eOff == state.eOff + tvol(sett, pths, i) + pvol(sett, pths[i].Points, j-1)
cand @C18 (j idx; i idx const) :: gm(b).X == rounded(pths[i].Points[j-1].X) && gm(b).Y == rounded(pths[i].Points[j-1].Y) && gm(b).Z == rounded(pths[i].Points[j-1].Z)
cand @C18 (j idx; i idx const) :: all(c, 1, j, trig(pths[i].Points[c]), at3(prints(b)[old(len(prints(b))) + segs(pths,i) + c - 1], pths[i].Points[c]))
cand @C18 (j idx; i idx const) :: all(c, 0, j-1, trig(pths[i].Points[c]), left3(prints(b)[old(len(prints(b))) + segs(pths,i) + c], pths[i].Points[c]))
cand @C19 (j idx; i idx const) :: all(c, 1, j, trig(pths[i].Points[c]), prints(b)[old(len(prints(b))) + segs(pths,i) + c - 1].E == rounded(state.eOff + tvol(sett, pths, i) + pvol(sett, pths[i].Points, c)))

func switchFanGCode(state, sett, b) (r)
requires known(state, gm(b), sett)
modifies *b
ensures [only the fan] r.layerIndex == state.layerIndex && r.eOff == state.eOff && r.isWall == state.isWall && r.pos == state.pos && r.t1 == state.t1 && r.t2 == state.t2 && r.feedrate == state.feedrate
ensures known(r, gm(b), sett)
ensures @C20 [off exactly on a first layer configured so] r.fan == !(state.layerIndex == 0 && sett.FanOffLayer1)
ensures [nothing moves] kept(b) && idle(b) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq) && gm(b).F == old(gm(b).F)

func decreaseEOff(state, b) (r)
requires gm(b).Tool == 0
modifies *b
ensures [what the machine holds is known] gm(b).E == rounded(r.eOff) || r.eOff == state.eOff && gm(b).E == old(gm(b).E)
ensures [only the offset] r.fan == state.fan && r.layerIndex == state.layerIndex && r.isWall == state.isWall && r.pos == state.pos && r.t1 == state.t1 && r.t2 == state.t2 && r.feedrate == state.feedrate
ensures @C19 @C23 [reset above 4000] r.eOff == ite(state.eOff > 4000, 0, state.eOff)
ensures [nothing moves] kept(b) && len(prints(b)) == old(len(prints(b))) && len(retracts(b)) == old(len(retracts(b))) && len(travels(b)) == old(len(travels(b))) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq) && gm(b).F == old(gm(b).F) && gm(b).X == old(gm(b).X) && gm(b).Y == old(gm(b).Y) && gm(b).Z == old(gm(b).Z) && gm(b).P1 == old(gm(b).P1) && gm(b).P2 == old(gm(b).P2) && gm(b).Tool == old(gm(b).Tool) && gm(b).Bad == old(gm(b).Bad) && gm(b).Fan == old(gm(b).Fan)

lemma gsegs_pos ind n uses segs_pos : forall("ls []primitives.Layer, n int", trig(gsegs(ls,n)), imp(n <= len(ls) && allfilled(ls), 0 <= gsegs(ls, n)))
lemma segs_pos ind n : forall("ps []primitives.Path, n int", trig(segs(ps,n)), imp(n <= len(ps) && nonempty(ps), 0 <= segs(ps, n)))
lemma gsegs_in ind n uses segs_pos : forall("ls []primitives.Layer, a int, n int", trig(gsegs(ls,a), gsegs(ls,n)), imp(0 <= a && a < n && n <= len(ls) && allfilled(ls), 0 <= gsegs(ls, a) && gsegs(ls, a) + lsegs(ls[a]) <= gsegs(ls, n)))

spec lvisits(pr []GPrint, n int, l primitives.Layer) bool = visits(pr, n, l.Paths) && visits(pr, n + sg(l.Paths), l.MiddlePs) && visits(pr, n + sg(l.Paths) + sg(l.MiddlePs), l.InnerPs) && visits(pr, n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs), l.Fill)

spec tv(g GcodeSettings, ps []primitives.Path) real = tvol(g, ps, len(ps))
spec lvol(g GcodeSettings, l primitives.Layer) real = tv(g, l.Paths) + tv(g, l.MiddlePs) + tv(g, l.InnerPs) + tv(g, l.Fill)
spec cut(x real) real = ite(x > 4000, 0, x)
fold eo(g GcodeSettings, e real, ls []primitives.Layer, n int) real = ite(n <= 0, e, cut(eo(g, e, ls, n-1) + lvol(g, ls[n-1])))
spec lamounts(g GcodeSettings, pr []GPrint, n int, e real, l primitives.Layer) bool = amounts(g, pr, n, e, l.Paths) && amounts(g, pr, n + sg(l.Paths), e + tv(g, l.Paths), l.MiddlePs) && amounts(g, pr, n + sg(l.Paths) + sg(l.MiddlePs), e + tv(g, l.Paths) + tv(g, l.MiddlePs), l.InnerPs) && amounts(g, pr, n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs), e + tv(g, l.Paths) + tv(g, l.MiddlePs) + tv(g, l.InnerPs), l.Fill)
spec wallspeed(g GcodeSettings, li int) int = ite(li == 0, g.PrintSpeedLayer1, g.PrintSpeedWall)
spec fillspeed(g GcodeSettings, li int) int = ite(li == 0, g.PrintSpeedLayer1, g.PrintSpeed)
spec lpaced(g GcodeSettings, pr []GPrint, n int, li int, l primitives.Layer) bool = let(fan, !(li == 0 && g.FanOffLayer1), paced(pr, n, n + sg(l.Paths), fan, wallspeed(g,li), li+1) && paced(pr, n + sg(l.Paths), n + sg(l.Paths) + sg(l.MiddlePs), fan, wallspeed(g,li), li+1) && paced(pr, n + sg(l.Paths) + sg(l.MiddlePs), n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs), fan, wallspeed(g,li), li+1) && paced(pr, n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs), n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs) + sg(l.Fill), fan, fillspeed(g,li), li+1))
spec lpaths(l primitives.Layer) int = len(l.Paths) + len(l.MiddlePs) + len(l.InnerPs) + len(l.Fill)
fold gpaths(ls []primitives.Layer, n int) int = ite(n <= 0, 0, gpaths(ls, n-1) + lpaths(ls[n-1]))
lemma gpaths_in ind n : forall("ls []primitives.Layer, a int, n int", trig(gpaths(ls,a), gpaths(ls,n)), imp(0 <= a && a < n && n <= len(ls) && allfilled(ls), 0 <= gpaths(ls, a) && gpaths(ls, a) + lpaths(ls[a]) <= gpaths(ls, n)))
spec lpulls(g GcodeSettings, rt []GRetr, m int, n int, e real, l primitives.Layer) bool = pulls(g, rt, m, n, e, l.Paths) && pulls(g, rt, m + len(l.Paths), n + sg(l.Paths), e + tv(g, l.Paths), l.MiddlePs) && pulls(g, rt, m + len(l.Paths) + len(l.MiddlePs), n + sg(l.Paths) + sg(l.MiddlePs), e + tv(g, l.Paths) + tv(g, l.MiddlePs), l.InnerPs) && pulls(g, rt, m + len(l.Paths) + len(l.MiddlePs) + len(l.InnerPs), n + sg(l.Paths) + sg(l.MiddlePs) + sg(l.InnerPs), e + tv(g, l.Paths) + tv(g, l.MiddlePs) + tv(g, l.InnerPs), l.Fill)
// from travel number t on, every one comes right after a retraction that came after retraction number r
spec retracted(tr []GTrav, rt []GRetr, t int, r int) bool = all(n, t, len(tr), trig(tr[n]), tr[n].R > r && tr[n].R <= len(rt) && rt[tr[n].R - 1].N == tr[n].N)

func LayersMoving.ToGCode(lm, b, state, sett) (r)
use segs_in
use segs_pos
reveal gvisits gamounts gpaced gpulls
use gsegs_pos
use gsegs_in
use @C23 gpaths_in
use @C18 visits_frame
use @C19 amounts_frame
use @C20 paced_frame
use @C23 pulls_frame
requires goodset(sett) && allfilled(lm.Layers)
requires known(state, gm(b), sett)
requires counted(state, gm(b))
modifies *b
ensures known(r, gm(b), sett)
ensures kept(b)
ensures [layers are counted as announced] counted(r, gm(b))
ensures @C20 @C21 [each layer announced with the next number] r.layerIndex == state.layerIndex + len(lm.Layers) && gm(b).Layers == old(gm(b).Layers) + len(lm.Layers)
ensures [one printing move per segment] len(prints(b)) == old(len(prints(b))) + gsegs(lm.Layers, len(lm.Layers))
ensures @C22 [the bed axes stay] r.t1 == state.t1 && r.t2 == state.t2
ensures @C18 [every list of every layer is followed] all(k, 0, len(lm.Layers), trig(lm.Layers[k]), lvisits(prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), lm.Layers[k]))
ensures @C19 @C23 [the known amount grows by the volume of the layers, and is reset above 4000] r.eOff == eo(sett, state.eOff, lm.Layers, len(lm.Layers))
ensures @C19 [every list of every layer advances the extruder by its volume] all(k, 0, len(lm.Layers), trig(lm.Layers[k]), lamounts(sett, prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), eo(sett, state.eOff, lm.Layers, k), lm.Layers[k]))
ensures @C20 [every layer runs with the fan and at the speeds configured for it] all(k, 0, len(lm.Layers), trig(lm.Layers[k]), lpaced(sett, prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), state.layerIndex + k, lm.Layers[k]))
ensures @C23 [none when off] imp(!sett.Retraction, len(retracts(b)) == old(len(retracts(b))))
ensures @C23 [one for each path] imp(sett.Retraction, len(retracts(b)) == old(len(retracts(b))) + gpaths(lm.Layers, len(lm.Layers)))
ensures @C23 [from the amount extruded so far] imp(sett.Retraction, all(k, 0, len(lm.Layers), trig(lm.Layers[k]), lpulls(sett, retracts(b), old(len(retracts(b))) + gpaths(lm.Layers, k), old(len(prints(b))) + gsegs(lm.Layers, k), eo(sett, state.eOff, lm.Layers, k), lm.Layers[k])))
ensures @C23 [every travel comes after one] imp(sett.Retraction, retracted(travels(b), retracts(b), old(len(travels(b))), old(len(retracts(b)))))
cand @C19 @C23 (s State; i int) :: s.eOff == eo(sett, state.eOff, lm.Layers, i)
cand @C19 (i int) :: all(k, 0, i, trig(lm.Layers[k]), lamounts(sett, prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), eo(sett, state.eOff, lm.Layers, k), lm.Layers[k]))
cand @C20 (i int) :: all(k, 0, i, trig(lm.Layers[k]), lpaced(sett, prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), state.layerIndex + k, lm.Layers[k]))
cand @C23 (i int) :: len(retracts(b)) == old(len(retracts(b))) + ite(sett.Retraction, gpaths(lm.Layers, i), 0)
cand @C23 (i int) :: imp(sett.Retraction, all(k, 0, i, trig(lm.Layers[k]), lpulls(sett, retracts(b), old(len(retracts(b))) + gpaths(lm.Layers, k), old(len(prints(b))) + gsegs(lm.Layers, k), eo(sett, state.eOff, lm.Layers, k), lm.Layers[k])))
cand @C23 imp(sett.Retraction, retracted(travels(b), retracts(b), old(len(travels(b))), old(len(retracts(b)))))
cand (i int) :: 0 <= i && i <= len(lm.Layers)
cand (s State) :: known(s, gm(b), sett)
cand @C22 (s State) :: s.t1 == state.t1 && s.t2 == state.t2
cand (s State) :: counted(s, gm(b))
cand (s State; i int) :: s.layerIndex == state.layerIndex + i
cand (i int) :: len(prints(b)) == old(len(prints(b))) + gsegs(lm.Layers, i)
cand @C18 (i int) :: all(k, 0, i, trig(lm.Layers[k]), lvisits(prints(b), old(len(prints(b))) + gsegs(lm.Layers, k), lm.Layers[k]))

// ---- commands

spec parked(m GState) bool = m.X == 0 && m.Y == 0 && m.Z == 200
spec same4(r State, s State) bool = r.fan == s.fan && r.layerIndex == s.layerIndex && r.isWall == s.isWall && r.eOff == s.eOff && r.pos == s.pos

func RotateZ.ToGCode(c, b, state, sett) (r)
requires known(state, gm(b), sett)
modifies *b
ensures known(r, gm(b), sett) && kept(b)
ensures same4(r, state)
ensures @C22 [the rotation axis reaches the angle, the tilt axis stays] gm(b).P1 == rounded(c.Angle) && gm(b).P2 == old(gm(b).P2) && r.t1 == c.Angle && r.t2 == state.t2
ensures @C22 [back on the print tool, which has not moved; the head is parked above] gm(b).Tool == 0 && gm(b).E == rounded(state.eOff) && parked(gm(b)) && gm(b).Fan == old(gm(b).Fan)
ensures @C22 [one move] gm(b).Moves == old(gm(b).Moves) + 1
ensures [nothing printed] len(prints(b)) == old(len(prints(b))) && len(retracts(b)) == old(len(retracts(b))) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)

func InclineX.ToGCode(c, b, state, sett) (r)
requires known(state, gm(b), sett)
modifies *b
ensures known(r, gm(b), sett) && kept(b)
ensures same4(r, state)
ensures @C22 [the tilt axis reaches 60, the rotation axis stays] gm(b).P2 == 60 && gm(b).P1 == old(gm(b).P1) && r.t1 == state.t1 && r.t2 == 60
ensures @C22 [back on the print tool, which has not moved; the head is parked above] gm(b).Tool == 0 && gm(b).E == rounded(state.eOff) && parked(gm(b)) && gm(b).Fan == old(gm(b).Fan)
ensures @C22 [one move] gm(b).Moves == old(gm(b).Moves) + 1
ensures [nothing printed] len(prints(b)) == old(len(prints(b))) && len(retracts(b)) == old(len(retracts(b))) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)

func InclineXBack.ToGCode(c, b, state, sett) (r)
requires known(state, gm(b), sett)
modifies *b
ensures known(r, gm(b), sett) && kept(b)
ensures same4(r, state)
ensures @C22 [the tilt axis returns to zero, the rotation axis stays] gm(b).P2 == 0 && gm(b).P1 == old(gm(b).P1) && r.t1 == state.t1 && r.t2 == 0
ensures @C22 [back on the print tool, which has not moved; the head is parked above] gm(b).Tool == 0 && gm(b).E == rounded(state.eOff) && parked(gm(b)) && gm(b).Fan == old(gm(b).Fan)
ensures @C22 [one move] gm(b).Moves == old(gm(b).Moves) + 1
ensures [nothing printed] len(prints(b)) == old(len(prints(b))) && len(retracts(b)) == old(len(retracts(b))) && gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)

func RotateXZ.ToGCode(c, b, state, sett) (r)
requires known(state, gm(b), sett)
modifies *b
ensures known(r, gm(b), sett) && kept(b) && idle(b) && r == state
ensures [nothing else] gm(b).Layers == old(gm(b).Layers) && gm(b).Seq == old(gm(b).Seq)

spec lm(c Command) []primitives.Layer = unbox("gcode.LayersMoving", c).Layers
spec islm(c Command) bool = isbox("gcode.LayersMoving", c)
opaque gvisits(pr []GPrint, n int, ls []primitives.Layer) bool = all(k, 0, len(ls), trig(ls[k]), lvisits(pr, n + gsegs(ls, k), ls[k]))
opaque gamounts(g GcodeSettings, pr []GPrint, n int, e real, ls []primitives.Layer) bool = all(k, 0, len(ls), trig(ls[k]), lamounts(g, pr, n + gsegs(ls, k), eo(g, e, ls, k), ls[k]))
opaque gpaced(g GcodeSettings, pr []GPrint, n int, li int, ls []primitives.Layer) bool = all(k, 0, len(ls), trig(ls[k]), lpaced(g, pr, n + gsegs(ls, k), li + k, ls[k]))
opaque gpulls(g GcodeSettings, rt []GRetr, m int, n int, e real, ls []primitives.Layer) bool = all(k, 0, len(ls), trig(ls[k]), lpulls(g, rt, m + gpaths(ls, k), n + gsegs(ls, k), eo(g, e, ls, k), ls[k]))

func Command.ToGCode(c, b, state, sett) (r)
attr iface
reveal gvisits gamounts gpaced gpulls
requires goodset(sett)
requires imp(islm(c), allfilled(lm(c)))
requires known(state, gm(b), sett)
requires counted(state, gm(b))
modifies *b
ensures known(r, gm(b), sett)
ensures kept(b)
ensures [layers are counted as announced] counted(r, gm(b))
ensures @C20 @C21 [only layers are announced, each with the next number] r.layerIndex == state.layerIndex + ite(islm(c), len(lm(c)), 0) && gm(b).Layers == old(gm(b).Layers) + ite(islm(c), len(lm(c)), 0)
ensures [layers print one move per segment, nothing else prints] len(prints(b)) == old(len(prints(b))) + ite(islm(c), gsegs(lm(c), len(lm(c))), 0)
ensures @C18 [layers are followed] imp(islm(c), gvisits(prints(b), old(len(prints(b))), lm(c)))
ensures @C19 @C23 [what is known of the axis] r.eOff == ite(islm(c), eo(sett, state.eOff, lm(c), len(lm(c))), state.eOff)
ensures @C19 [layers advance the extruder by their volume] imp(islm(c), gamounts(sett, prints(b), old(len(prints(b))), state.eOff, lm(c)))
ensures @C20 [layers run with the fan and at the speeds configured] imp(islm(c), gpaced(sett, prints(b), old(len(prints(b))), state.layerIndex, lm(c)))
ensures @C23 [retractions come before paths only] len(retracts(b)) == old(len(retracts(b))) + ite(islm(c) && sett.Retraction, gpaths(lm(c), len(lm(c))), 0)
ensures @C23 [and pull back from the amount extruded so far] imp(islm(c) && sett.Retraction, gpulls(sett, retracts(b), old(len(retracts(b))), old(len(prints(b))), state.eOff, lm(c)))

func Command.LayersCount(c) (r)
attr iface
ensures @C21 [layers count themselves, nothing else counts] r == ite(islm(c), len(lm(c)), 0)

fold klayers(cs []Command, n int) int = ite(n <= 0, 0, klayers(cs, n-1) + ite(islm(cs[n-1]), len(lm(cs[n-1])), 0))
fold ksegs(cs []Command, n int) int = ite(n <= 0, 0, ksegs(cs, n-1) + ite(islm(cs[n-1]), gsegs(lm(cs[n-1]), len(lm(cs[n-1]))), 0))
fold kpaths(cs []Command, n int) int = ite(n <= 0, 0, kpaths(cs, n-1) + ite(islm(cs[n-1]), gpaths(lm(cs[n-1]), len(lm(cs[n-1]))), 0))
fold ke(g GcodeSettings, cs []Command, n int) real = ite(n <= 0, 0, ite(islm(cs[n-1]), eo(g, ke(g, cs, n-1), lm(cs[n-1]), len(lm(cs[n-1]))), ke(g, cs, n-1)))

func Gcode.LayerCount(g) (r)
requires g != nil
returns @C21 [the count announced is the number of layers printed] klayers(g.Cmds, len(g.Cmds))
cand (c int; i idx) :: c == klayers(g.Cmds, i)

func Gcode.ToOutput(g, b)
requires g != nil
use @C18 gvisits_frame
use @C19 gamounts_frame
use @C20 gpaced_frame
use @C23 gpulls_frame
use ksegs_in
use @C23 kpaths_in
requires goodset(g.Settings)
requires [no path is empty] all(k, 0, len(g.Cmds), trig(g.Cmds[k]), imp(islm(g.Cmds[k]), len(lm(g.Cmds[k])) >= 0 && allfilled(lm(g.Cmds[k]))))
requires [the machine is as the header leaves it] known(State{}, gm(b), g.Settings) && counted(State{}, gm(b))
modifies *b
ensures kept(b)
ensures @C21 [every layer is announced once, in order] gm(b).Seq && gm(b).Layers == klayers(g.Cmds, len(g.Cmds))
ensures @C18 [one printing move per segment] len(prints(b)) == old(len(prints(b))) + ksegs(g.Cmds, len(g.Cmds))
ensures @C18 [every path of every layer is followed] all(k, 0, len(g.Cmds), trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gvisits(prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), lm(g.Cmds[k]))))
ensures @C19 [every move advances the extruder by its volume] all(k, 0, len(g.Cmds), trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gamounts(g.Settings, prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), ke(g.Settings, g.Cmds, k), lm(g.Cmds[k]))))
ensures @C20 [every layer runs with the fan and at the speeds configured] all(k, 0, len(g.Cmds), trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gpaced(g.Settings, prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), klayers(g.Cmds, k), lm(g.Cmds[k]))))
ensures @C22 [every command starts from the bed as it is and leaves it as it says] !gm(b).Bad && gm(b).Tool == 0
ensures @C23 [one retraction for each path, none when off] len(retracts(b)) == old(len(retracts(b))) + ite(g.Settings.Retraction, kpaths(g.Cmds, len(g.Cmds)), 0)
ensures @C23 [from the amount extruded so far] imp(g.Settings.Retraction, all(k, 0, len(g.Cmds), trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gpulls(g.Settings, retracts(b), old(len(retracts(b))) + kpaths(g.Cmds, k), old(len(prints(b))) + ksegs(g.Cmds, k), ke(g.Settings, g.Cmds, k), lm(g.Cmds[k])))))
cand (s State) :: known(s, gm(b), g.Settings)
cand (s State) :: counted(s, gm(b))
cand @C20 @C21 (s State; i idx) :: s.layerIndex == klayers(g.Cmds, i)
cand (i idx) :: len(prints(b)) == old(len(prints(b))) + ksegs(g.Cmds, i)
cand @C18 (i idx) :: all(k, 0, i, trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gvisits(prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), lm(g.Cmds[k]))))
cand @C19 @C23 (s State; i idx) :: s.eOff == ke(g.Settings, g.Cmds, i)
cand @C19 (i idx) :: all(k, 0, i, trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gamounts(g.Settings, prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), ke(g.Settings, g.Cmds, k), lm(g.Cmds[k]))))
cand @C20 (i idx) :: all(k, 0, i, trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gpaced(g.Settings, prints(b), old(len(prints(b))) + ksegs(g.Cmds, k), klayers(g.Cmds, k), lm(g.Cmds[k]))))
cand @C23 (i idx) :: len(retracts(b)) == old(len(retracts(b))) + ite(g.Settings.Retraction, kpaths(g.Cmds, i), 0)
cand @C23 (i idx) :: imp(g.Settings.Retraction, all(k, 0, i, trig(g.Cmds[k]), imp(islm(g.Cmds[k]), gpulls(g.Settings, retracts(b), old(len(retracts(b))) + kpaths(g.Cmds, k), old(len(prints(b))) + ksegs(g.Cmds, k), ke(g.Settings, g.Cmds, k), lm(g.Cmds[k])))))

spec oklm(c Command) bool = imp(islm(c), len(lm(c)) >= 0 && allfilled(lm(c)))
lemma ksegs_in ind n uses gsegs_pos : forall("cs []Command, a int, n int", trig(ksegs(cs,a), ksegs(cs,n)), imp(0 <= a && a < n && n <= len(cs) && all(k, 0, len(cs), trig(cs[k]), oklm(cs[k])), 0 <= ksegs(cs, a) && ksegs(cs, a) + ite(islm(cs[a]), gsegs(lm(cs[a]), len(lm(cs[a]))), 0) <= ksegs(cs, n)))
lemma gpaths_pos ind n : forall("ls []primitives.Layer, n int", trig(gpaths(ls,n)), imp(n <= len(ls) && allfilled(ls), 0 <= gpaths(ls, n)))
lemma kpaths_in ind n uses gpaths_pos : forall("cs []Command, a int, n int", trig(kpaths(cs,a), kpaths(cs,n)), imp(0 <= a && a < n && n <= len(cs) && all(k, 0, len(cs), trig(cs[k]), oklm(cs[k])), 0 <= kpaths(cs, a) && kpaths(cs, a) + ite(islm(cs[a]), gpaths(lm(cs[a]), len(lm(cs[a]))), 0) <= kpaths(cs, n)))
lemma gvisits_frame uses visits_frame,gsegs_in,segs_pos reveal gvisits : forall("p []GPrint, q []GPrint, n int, m int, ls []primitives.Layer", trig(gvisits(p,n,ls), gvisits(q,m,ls)), imp(gvisits(p,n,ls) && n == m && allfilled(ls) && 0 <= n && n + gsegs(ls,len(ls)) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), gvisits(q,m,ls)))
lemma gamounts_frame uses amounts_frame,gsegs_in,segs_pos reveal gamounts : forall("g GcodeSettings, p []GPrint, q []GPrint, n int, m int, e real, f real, ls []primitives.Layer", trig(gamounts(g,p,n,e,ls), gamounts(g,q,m,f,ls)), imp(gamounts(g,p,n,e,ls) && n == m && e == f && allfilled(ls) && 0 <= n && n + gsegs(ls,len(ls)) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), gamounts(g,q,m,f,ls)))
lemma gpaced_frame uses paced_frame,gsegs_in,segs_pos reveal gpaced : forall("g GcodeSettings, p []GPrint, q []GPrint, n int, m int, i int, j int, ls []primitives.Layer", trig(gpaced(g,p,n,i,ls), gpaced(g,q,m,j,ls)), imp(gpaced(g,p,n,i,ls) && n == m && i == j && allfilled(ls) && 0 <= n && n + gsegs(ls,len(ls)) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), gpaced(g,q,m,j,ls)))
lemma gpulls_frame uses pulls_frame,gpaths_in reveal gpulls : forall("g GcodeSettings, p []GRetr, q []GRetr, m int, n int, e real, m2 int, n2 int, e2 real, ls []primitives.Layer", trig(gpulls(g,p,m,n,e,ls), gpulls(g,q,m2,n2,e2,ls)), imp(gpulls(g,p,m,n,e,ls) && m == m2 && n == n2 && e == e2 && allfilled(ls) && 0 <= m && m + gpaths(ls,len(ls)) <= len(p) && all(k, 0, len(p), trig(q[k]), q[k] == p[k]), gpulls(g,q,m2,n2,e2,ls)))
