#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place to edit the property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": n, "where": w, "meaning": m} for n, w, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

p("C01", "Plane/segment intersection is sound and complete",
  "Intersecting a plane with a segment yields a point that lies on the plane and between the two end points of the segment. No point is reported exactly when the segment is parallel to the plane or both of its ends lie strictly on the same side.",
  ["inputs"], "every plane (point and any normal, unit or not) and every pair of end points",
  "The tests have no case that calls the segment intersection directly; they reach it through a handful of triangles with axis-aligned planes.",
  ["primitives/plane.go", "primitives/vector.go", "primitives/point.go"],
  [("Plane.IntersectSegment", "primitives/plane.go")])

p("C02", "A triangle's plane section is exact, consistently oriented and not missed",
  "When a plane cuts a triangle, the reported segment has two distinct ends, each within the 8-decimal rounding step of a true crossing of an edge of the triangle with the plane, and is directed so that the solid (given by the triangle normal) is always on the same hand. A section is reported whenever two edge crossings are further apart than the coincidence tolerance, and none is reported when all vertices lie strictly on one side.",
  ["inputs"], "every plane and every triangle, degenerate ones included",
  "Seven sampled triangles; orientation and completeness for arbitrary planes, and planes through a vertex or an edge, are not explored.",
  ["primitives/plane.go", "primitives/triangle.go", "primitives/utils.go"],
  [("Plane.IntersectTriangle", "primitives/plane.go"), ("RoundPlaces", "primitives/utils.go")])

p("C03", "Slicing planes cover the model evenly and slicing never crashes",
  "Slicing a mesh along a direction places ceil(height / layer height) parallel planes, equally spaced by height / count (never more than the layer height), the first half a step above the lowest point, and returns the layers in increasing height with none but an empty first or last layer left out. It does so for every mesh, including empty and flat ones, without crashing.",
  ["inputs", "configurations"], "every mesh, slicing direction and positive layer height",
  "Only the number of layers of five models with one setting is compared; plane positions, order and degenerate meshes are never looked at.",
  ["slicers/slice_by_vector.go", "primitives/mesh.go", "primitives/triangle.go"],
  [("SliceByVector", "slicers/slice_by_vector.go"), ("Mesh.MinMaxZ", "primitives/mesh.go")])

p("C04", "Every layer is cut from all triangles that cross its plane",
  "While sweeping the mesh upwards, the job handed out for each layer plane contains every triangle of the mesh whose extent along the slicing direction contains that plane's height, however the triangles are ordered in the file. No triangle is skipped, or dropped before the sweep has passed it.",
  ["inputs"], "every mesh in every triangle order, every direction and layer height",
  "A dropped triangle leaves an open contour but the same number of layers, which is all the tests compare.",
  ["slicers/slice_by_vector.go", "primitives/triangle.go", "primitives/mesh.go"],
  [("SliceByVector sweep over active triangles", "slicers/slice_by_vector.go")])

p("C05", "Joining contour pieces neither loses nor invents segments",
  "Joining a set of path pieces of at least two points each returns chains in which every segment of every input piece appears, in its original direction, with its points unchanged up to the coincidence tolerance at the joints, and the total number of segments is exactly that of the input. Pieces are joined only end to start, at coincident points.",
  ["inputs"], "every list of pieces of at least two points, in every order",
  "Seven fixed examples, four of which fail in the pinned tree because they expect pieces to be reversed; conservation over arbitrary lists is not tested.",
  ["primitives/path.go"],
  [("JoinPaths3", "primitives/path.go"), ("tryJoin", "primitives/path.go")])

p("C06", "Merging collinear segments preserves the contour",
  "Merging collinear segments of a path keeps only vertices of the path, keeps the two end points of an open path exactly, keeps a closed path closed, and drops a vertex only if it is collinear, within tolerance, with the vertex kept before it and its own successor; of a closed path the joint itself may be dropped if it is collinear with its neighbours.",
  ["inputs"], "every path of any length, open or closed",
  "Not tested at all on its own; the slicing tests compare layer counts only.",
  ["primitives/path.go", "primitives/line.go"],
  [("Path.MinimizeLines", "primitives/path.go"), ("Line.IsCollinear", "primitives/line.go")])

p("C07", "Cutting a mesh loses nothing and puts every piece on its own side",
  "Cutting a mesh by a plane sends every triangle with no vertex strictly behind the plane (a vertex on the plane counts as in front) unchanged to the upper mesh, every triangle with all vertices strictly behind it unchanged to the lower mesh, and every other triangle either in parts to both meshes - the corner at its lone vertex to that vertex's side, the rest to the other - or, only if its section by the plane is shorter than the coincidence tolerance (1e-6), whole to the side of most of its vertices; no triangle disappears. Nothing else is in the two meshes but caps lying in the plane: every vertex of a piece or cap is on its mesh's side of the plane within tolerance, and the caps closing the upper mesh face against the plane normal, those closing the lower one along it.",
  ["inputs"], "every mesh and every plane, including planes through vertices and edges",
  "The helpers package has no tests; the cutter is only exercised by commands nobody runs in the suite.",
  ["helpers/cut_mesh.go", "primitives/plane.go", "primitives/path.go"],
  [("CutMesh", "helpers/cut_mesh.go"), ("Plane.PointInFront", "primitives/plane.go")])

p("C08", "A cut triangle is tiled by its pieces with the same facing",
  "A triangle split along a segment that joins two of its edges is replaced by three triangles that together have exactly the area of the original, each facing the same way as the original, with the corner cut off as the first piece.",
  ["inputs"], "every non-degenerate triangle, every corner, every pair of points on the two edges at that corner, given in either order",
  "splitOnThree is unexported and untested; wrong pairings flip normals without changing any layer count.",
  ["helpers/cut_mesh.go", "primitives/triangle.go"],
  [("splitOnThree", "helpers/cut_mesh.go")])

p("C09", "Rotations are rigid and proper",
  "Rotating a vector by any of the rotation matrices the library builds, or about an arbitrary non-zero axis, preserves lengths and dot products and keeps handedness; the axis of the rotation stays fixed, and rotating by an angle and then by its negation is the identity. RotateAbout turns counterclockwise about its axis by the given angle; the matrices for the X and Z axes turn by the negated angle (they are the transposed matrices).",
  ["inputs"], "every vector, every axis and every angle",
  "The tests sample RotateAbout and matrices at a few multiples of 90 degrees; rigidity for all angles is an identity.",
  ["primitives/rotation_matrix.go", "primitives/vector.go", "primitives/plane.go"],
  [("RotationAroundX / RotationAroundZ", "primitives/rotation_matrix.go"), ("Vector.Rotate, Vector.RotateAbout", "primitives/vector.go"), ("Plane.Rotate", "primitives/plane.go")])

p("C10", "Mesh transforms act on every triangle alike and keep normals consistent",
  "Shifting, rotating and copying a mesh transform every vertex of every triangle by the same rigid map, keep the number and order of triangles, and leave every stored normal equal to the cross product of its triangle's edges. Rotation and copying leave the source mesh unchanged, and copying gives the same result however the work is divided among workers.",
  ["inputs", "schedules"], "every mesh of any size, every shift, rotation and centre, every number of workers",
  "One shift test on two triangles; rotation about a centre, copying and the frame condition are untested.",
  ["primitives/mesh.go", "primitives/triangle.go", "primitives/utils.go"],
  [("Mesh.Shift, Mesh.Rotate, Mesh.CopyTriangles", "primitives/mesh.go"), ("Triangle.Fill, Triangle.Shift, NewTriangle", "primitives/triangle.go")])

p("C11", "Binary STL files are decoded and encoded exactly",
  "Loading a binary STL of n facets yields exactly n triangles, the i-th with the three vertices stored in the i-th 50-byte record, however the decoding is divided among workers; saving a mesh writes an 84-byte header with the count and one such record per triangle in order, so that saving and loading returns every vertex rounded to single precision. Saving reports success only if all bytes reached the file.",
  ["inputs", "schedules", "fault_sequences"], "every file content, every mesh, every number of workers, a failing write at any point",
  "The tests load five models but compare only layer counts; saving is untested and write errors are never produced.",
  ["primitives/stl.go", "primitives/utils.go"],
  [("LoadSTL, loadSTLBinary, makeFloat", "primitives/stl.go"), ("SaveSTL", "primitives/stl.go")])

p("C12", "Text STL files are decoded vertex by vertex without loss",
  "Loading a text STL turns the sequence of well-formed vertex lines, in order, into triangles of three consecutive vertices each, ignores every other line, and never crashes, whatever text the file contains.",
  ["inputs"], "every text, well-formed or not",
  "No test loads a text STL.",
  ["primitives/stl.go", "primitives/utils.go"],
  [("loadSTLAscii", "primitives/stl.go"), ("ParseFloat", "primitives/utils.go")])

p("C13", "Vector and point projections satisfy their geometric definitions",
  "Normalising gives a unit vector of the same direction (zero stays zero); projecting on a vector or plane gives the parallel or orthogonal component; projecting a point on a line or plane gives the foot of the perpendicular; distances are Euclidean; and the angle between two non-zero vectors lies in [0,180] degrees, being the arc cosine of their normalised dot product with rounding overshoot clamped to the nearer end.",
  ["inputs"], "every vector, point, line and plane",
  "Between two and seven samples per operation, almost all axis-aligned.",
  ["primitives/vector.go", "primitives/point.go", "primitives/plane.go", "primitives/line.go"],
  [("Vector.*", "primitives/vector.go"), ("Point.ProjectOnLine, Point.DistanceTo", "primitives/point.go"), ("Plane.ProectionPointToPlane", "primitives/plane.go")])

p("C14", "Fill lines have the requested density and span the whole model",
  "For each filling type the fill planes come in one, two or three families of vertical parallel planes with a fixed spacing, such that the line width divided by the spacing, summed over the families, equals the requested density (100% for the solid fill of top and bottom layers). Every point of the model lies within one spacing of a plane of each family (points on the Z axis itself excepted).",
  ["inputs", "configurations"], "every mesh, positive line width, density of at least 1 and filling type",
  "The slicing test runs one density and one filling type and does not look at the fill.",
  ["slicers/fill_layer.go", "primitives/mesh.go"],
  [("calcFillPlanesCommon, CalcFillPlanes*", "slicers/fill_layer.go")])

p("C15", "Filling never alters contours and its lines end on contours",
  "Filling a list of layers keeps the number, order, walls and contours of the layers and only extends their fill; top and bottom layers, as many as configured, are filled with the solid planes and all others with the sparse ones. Both ends of an added fill line lie on one and the same of those planes and on segments of the innermost contours of its layer, and every plane adds one line for each pair of its crossings with them.",
  ["inputs", "configurations"], "every list of layers with coordinates of at most 1e9, plane families and top/bottom counts",
  "Fill content is not inspected by any test.",
  ["slicers/fill_layer.go"],
  [("FillLayers, intersectByPlane", "slicers/fill_layer.go")])

p("C16", "Reordering the fill lines loses and duplicates none",
  "Ordering the fill lines of a layer for travel returns every line exactly once, each either as it was or with its direction reversed, and starts with the first line.",
  ["inputs"], "every list of non-empty fill lines whose ends have coordinates of at most 1e9",
  "No test looks at fill lines.",
  ["slicers/fill_layer.go", "primitives/path.go"],
  [("sortFillPathes", "slicers/fill_layer.go"), ("Path.Reverse", "primitives/path.go")])

p("C17", "Walls follow the configured thickness and leave the contour untouched",
  "Preparing layers adds to each contour of at least two points floor(wall thickness / line width) - 1 inner walls, fewer only where an offset vanishes, each offset once from the previous one by the line width, the last of which becomes the inner boundary; the outer contours, order and number of layers are unchanged. A skirt puts the configured number of such offsets outside each contour of at least two points of the first layer, outermost first, and keeps that contour.",
  ["inputs", "configurations"], "every list of layers and every wall thickness, line width and skirt count",
  "TestVip_Slice has an empty body; nothing in the vip package is tested.",
  ["slicers/vip/utils.go", "slicers/vip/offset_path.go"],
  [("PrepareLayers, offset, SkirtPathes", "slicers/vip/utils.go"), ("MakeOffset", "slicers/vip/offset_path.go")])

p("C18", "The emitted G-code visits every path point in order",
  "For every path of every layer, the G-code first travels to the start of the path and then moves, extruding, through each of its points in order, such that after each move the commanded machine position differs from the path point by no more than the output resolution on each axis, however short the steps are.",
  ["inputs", "histories"], "every sequence of layers and paths, including paths of very small steps",
  "No test reads any G-code.",
  ["gcode/cmds.go", "primitives/point.go"],
  [("pathesToGCode", "gcode/cmds.go"), ("Point.StringGcode, StringDelta, StringDeltaZ", "primitives/point.go")])

p("C19", "Extrusion equals the deposited volume and the axis is never lost",
  "Each printing move advances the extruder by 4 * line width * layer height * distance / (pi * filament diameter squared), so the extruded amount is proportional to the printed length; the extruder value known to the program always equals the one the machine holds for the print tool (after a retraction, that value less the configured distance), through resets and bed rotations, and never decreases except by an explicit reset of the axis.",
  ["inputs", "histories"], "every sequence of commands, layers and paths",
  "No test reads any G-code.",
  ["gcode/cmds.go"],
  [("pathesToGCode, decreaseEOff", "gcode/cmds.go"), ("RotateZ / InclineX / InclineXBack ToGCode", "gcode/cmds.go")],
  state=[("State.eOff", "gcode/cmds.go", "extruder position of tool 0")])

p("C20", "Fan and feed rate on the machine are the configured ones while printing",
  "While a layer is printed the fan is off if and only if it is the first layer and the fan is configured off for it, and every printing move runs at the configured speed for its layer and kind (first layer, wall or fill), whatever commands, including bed rotations and retractions, came before.",
  ["inputs", "histories", "configurations"], "every sequence of commands and every settings record",
  "No test reads any G-code.",
  ["gcode/cmds.go"],
  [("switchFanGCode, printSpeedToGCode", "gcode/cmds.go")],
  state=[("State.fan, State.feedrate", "gcode/cmds.go", "fan and feed rate last commanded")])

p("C21", "Layers are numbered consecutively and counted correctly",
  "The layers in the output are announced exactly once each, numbered 0, 1, 2, ... across all groups of layers and bed moves, and the layer count announced in the header equals their number.",
  ["inputs", "histories"], "every sequence of commands",
  "Only LayerCount is compared, for programs of one single command.",
  ["gcode/gcode.go", "gcode/cmds.go", "cmd/goosli/goosli.go"],
  [("Gcode.ToOutput, Gcode.LayerCount", "gcode/gcode.go"), ("LayersMoving.ToGCode", "gcode/cmds.go")],
  state=[("State.layerIndex", "gcode/cmds.go", "layers already emitted")])

p("C22", "Bed tilt and rotation axes end where the program thinks they are",
  "Each bed rotation or inclination parks the head, drives the corresponding bed axis from the position it really has to the requested one, returns to the print tool, and leaves the other bed axis and the extruder as they were; inclining back returns the tilt axis to zero.",
  ["inputs", "histories"], "every sequence of rotations, inclinations and layers",
  "No test reads any G-code.",
  ["gcode/cmds.go"],
  [("RotateZ, InclineX, InclineXBack", "gcode/cmds.go")],
  state=[("State.t1, State.t2", "gcode/cmds.go", "positions of the bed axes")])

p("C23", "Retraction pulls back exactly the configured length",
  "With retraction on, every travel between paths is preceded by one retraction that moves the extruder, at the configured speed, to exactly the configured distance behind the amount extruded so far, and printing resumes from that amount; with retraction off no retraction is emitted.",
  ["inputs", "histories", "configurations"], "every sequence of paths and every retraction setting",
  "No test reads any G-code or switches retraction on.",
  ["gcode/cmds.go"],
  [("retractionToGCode", "gcode/cmds.go")])

p("C24", "Line simplification stays within epsilon",
  "Simplifying a polyline keeps its first and last point, returns a subsequence of its points in order, and drops a point only if its distance to the line through two input points enclosing it is at most epsilon.",
  ["inputs"], "every polyline of two or more points and every non-negative epsilon",
  "The function has no test.",
  ["helpers/simplify_line.go", "primitives/point.go"],
  [("SimplifyLine", "helpers/simplify_line.go"), ("Point.DistanceToLine", "primitives/point.go")])

p("C25", "Overhang colouring classifies every triangle by its own normal",
  "Colouring a mesh yields one flag per triangle, in the mesh's order, true exactly if the angle between the triangle's normal and the reversed build direction is below 90 degrees minus the given bias; filtering returns exactly the flagged triangles in order.",
  ["inputs"], "every mesh, angle and direction",
  "The helpers package has no tests.",
  ["helpers/colorize_triangles.go", "primitives/vector.go"],
  [("ColorizeTriangles, FilterTrianglesByColor", "helpers/colorize_triangles.go")])

p("C26", "Supports stand on the base plane below unshared edges",
  "The outline edges used for supports are exactly the triangle edges that no other edge of the list equals in either direction, and each support line is the orthogonal projection of its edge onto the base plane, in the same order.",
  ["inputs"], "every list of triangles and every base plane",
  "The helpers package has no tests and no test switches supports on.",
  ["helpers/supports_by_vector.go", "primitives/plane.go"],
  [("MakeUndoubledLinesFromTriangles, MakeSupportLines", "helpers/supports_by_vector.go"), ("Plane.ProectionPointToPlane", "primitives/plane.go")])

p("C27", "A cutting plane's normal agrees with its written rotation",
  "Reading a cutting plane description yields the written point and flags and a unit normal that is vertical if the plane is not tilted and otherwise leans by the machine's tilt angle in the direction of the written rotation; that normal becomes vertical once the bed is rotated and tilted accordingly.",
  ["inputs"], "every line of five words of at least one character each, every rotation angle, tilted or not; numbers are read as ParseFloat reads them",
  "The vip package has no effective tests.",
  ["slicers/vip/analyze.go", "primitives/vector.go"],
  [("ParsePlane", "slicers/vip/analyze.go")])

p("C28", "The analyser proposes planes at real overhangs of the remaining mesh",
  "Every plane the analyser proposes passes through the lowest vertex of a triangle of the mesh still to be printed that is flagged as overhanging, and planes alternate between tilted and level; at most six planes are proposed, and the analyser never fails on any mesh. The rotation written for a tilted plane describes the same normal as the plane itself.",
  ["inputs"], "every mesh and bias angle",
  "The vip package has no effective tests.",
  ["slicers/vip/analyze.go"],
  [("Analyze", "slicers/vip/analyze.go")])

p("C29", "Slicing by planes pairs each part with its own bed position",
  "Slicing by n cutting planes produces n+1 parts, cut from the last plane to the first, and each part is sliced with the bed rotated and tilted as its own plane says: the rotation of the mesh part and the emitted bed commands use the same angles, and the tilt axis is inclined exactly while tilted parts are printed.",
  ["inputs", "histories"], "every mesh and every list of cutting planes",
  "TestVip_Slice has an empty body.",
  ["slicers/vip/slice_by_planes.go"],
  [("SliceByPlanes, calcBedPlanes", "slicers/vip/slice_by_planes.go")])

p("C30", "Bed rotations turn the growth direction of a part to the vertical",
  "Whenever a five-axis slicer rotates the rest of the model, for any growth direction the rotation about Z followed by the tilt brings the horizontal component of that direction onto the tilting side, so that the direction becomes vertical when tilted by its own inclination; no direction, the vertical one included, produces an undefined angle.",
  ["inputs"], "every growth direction, in every quadrant and exactly vertical",
  "No test runs a five-axis slicer.",
  ["slicers/slice_by_profile.go", "slicers/slice_5axes.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go"],
  [("bed angle computation", "slicers/slice_by_profile.go")])

p("C31", "Contour direction and closure are judged consistently",
  "A path is closed exactly if it has at most one point or its ends coincide within tolerance; closing a path adds its first point once and only if needed; reversing a path reverses the order of its points exactly and so flips the sign of its winding area, by the sign of which it is judged solid or a hole.",
  ["inputs"], "every path of any length",
  "One to three sample paths per function.",
  ["primitives/path.go", "primitives/point.go", "primitives/utils.go"],
  [("IsClosed, Close, Reverse, IsWindingCW, IsHole, IsSolid, Equal", "primitives/path.go")])

p("C32", "Rounding and coincidence tolerances are uniform",
  "Rounding a coordinate to n decimals moves it by at most half a unit of the n-th decimal and gives a multiple of that unit; two points coincide exactly if they differ by less than the tolerance on every axis, independently of the order in which they are compared.",
  ["inputs"], "every coordinate within the exactly representable range, every n from 0 to 16",
  "A few samples of rounding through Point.RoundPlaces.",
  ["primitives/utils.go", "primitives/point.go"],
  [("Round, RoundPlaces, AlmostZero", "primitives/utils.go"), ("Point.Equal, Point.RoundPlaces", "primitives/point.go")])

p("C33", "Mesh simplification keeps what it must",
  "Simplifying a mesh that is already small enough returns it unchanged; otherwise every triangle is handed to the simplifier and taken back with its three vertices unchanged and in order, and a missing mesh is reported as an error.",
  ["inputs"], "every mesh and non-negative target size",
  "The helpers package has no tests.",
  ["helpers/simplify_mesh.go"],
  [("SimplifyMesh, toFoglemanMesh, toGoosliMesh", "helpers/simplify_mesh.go")])

p("C34", "Parallel loops run every share of the work exactly once and wait for it",
  "A parallel loop runs the given work once for every worker number from 0 to the worker count less one, and does not return before all of them have finished, under every schedule.",
  ["schedules"], "every interleaving of the workers",
  "The tests see the schedules of one machine only.",
  ["primitives/utils.go"],
  [("DoInParallelAndWait", "primitives/utils.go")])

p("C35", "Supports avoid triangles they would cross",
  "A support triangle is kept only if it crosses no triangle of the model other than those it touches at a vertex.",
  ["inputs"], "every pair of triangles",
  "Support generation is not tested; triangle/triangle intersection has no test.",
  ["primitives/triangle.go", "primitives/line.go", "helpers/supports_by_vector.go"],
  [("Triangle.IntersectTriangle, Line.IntersectLine", "primitives/triangle.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
