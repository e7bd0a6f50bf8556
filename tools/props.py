#!/usr/bin/env python3
"""writes properties.jsonl (run by hand)"""
import json
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}})

p("C01", "Bezier curves and surfaces evaluate to their Bernstein form",
  "A Bezier curve or surface of any degree, evaluated at any parameter, yields the Bernstein-weighted sum of its control points (the tensor-product sum for a surface), and the rational variants yield that sum of the homogeneous points divided by its weight. Hence curves start at the first and end at the last control point and stay inside the control points' bounds for parameters in [0,1].",
  "every number of control points, every control point and weight (non-vanishing denominator), every real parameter",
  "one test compares the basis for degree 3 at one parameter; no test evaluates a curve, a surface or a rational form",
  ["src/basis.rs", "src/curve/bezier.rs", "src/surface/bezier.rs"],
  [("triangular recurrence of the basis", "src/basis.rs bernstein"), ("weighted sums", "src/curve/bezier.rs get_point, src/surface/bezier.rs get_point")])
p("C02", "B-spline curves and surfaces evaluate to the Cox-de Boor form",
  "For any non-decreasing knot vector and any degree, evaluating a B-spline curve or surface at a parameter of its domain (both ends included) gives the sum of the control points weighted by the Cox-de Boor basis functions, rational variants divided by the weight sum. In particular a clamped curve starts at its first and ends at its last control point.",
  "every degree, every valid knot vector with repeated knots allowed (distinct knots further apart than the comparison tolerance), every control net, every domain parameter",
  "one test evaluates the basis for a single Bezier-type knot vector at three parameters; interior knots, multiplicities, surfaces and rational forms are never evaluated",
  ["src/knot.rs", "src/curve/bspline.rs", "src/surface/bspline.rs", "src/utils.rs"],
  [("span lookup", "src/knot.rs span_index"), ("in-place basis triangle", "src/knot.rs bspline_basis"), ("zero-length spans", "src/utils.rs inv_or_zero"), ("weighted sums", "src/curve/bspline.rs, src/surface/bspline.rs get_point")])
p("C03", "Derivative curves, surface partials and normals are the true derivatives",
  "The derivative of a Bezier or B-spline curve of degree at least one is a curve of one degree less over the matching knots whose control points are the scaled control point differences, so that it evaluates to the derivative of the curve; the two partial derivatives of a B-spline surface behave likewise in each direction. Surface normals are the unit vectors along the cross product of the two partials, one per requested parameter pair in request order.",
  "every degree, control net, knot vector and parameter",
  "no test calls a derivative or a normal",
  ["src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs", "src/knot.rs"],
  [("difference control points", "derivative, derivative_u, derivative_v"), ("knot vector without its end knots and its spans", "src/knot.rs shrink, spans"), ("normals", "src/surface/bspline.rs get_normals")])
p("C04", "Knot insertion, clamping, splitting and Bezier decomposition keep the curve",
  "Inserting a knot leaves every point of a B-spline curve unchanged and keeps control point count, knot count and degree consistent. Splitting inside the domain yields two curves that together trace the original over the two parts of its domain, clamping gives end knots of full multiplicity without moving the curve, and decomposition into Bezier pieces gives one piece per distinct knot span, in order, each tracing its part of the curve, joined end to end wherever the curve is continuous.",
  "every curve (clamped or not) with non-decreasing knots further apart than the tolerance, every inserted value of the domain and split parameter inside it, including existing knots and repeated insertions; multiplicities up to degree plus one for the decomposition",
  "no test inserts a knot, splits or decomposes a curve",
  ["src/curve/bspline.rs", "src/knot.rs"],
  [("Boehm insertion", "src/curve/bspline.rs add_knot"), ("split at a fully inserted knot", "src/curve/bspline.rs split"), ("clamp", "src/curve/bspline.rs clamp"), ("decomposition", "src/curve/bspline.rs to_piecewise_bezier")], over=("inputs", "histories"))
p("C05", "Knot vectors are built, edited and queried consistently",
  "Knot vectors built from values and multiplicities, for a Bezier curve, or uniformly, contain exactly the prescribed non-decreasing values in order; inserting a knot adds exactly that value at the reported position and keeps the order. Normalising maps affinely onto [0,1], and multiplicity, range, span list, span lookup, end-dropping and sub-ranges report exactly what the stored values say.",
  "every list of values and multiplicities, every degree and division count, every inserted value, every query index or parameter",
  "tests and doc examples cover one Bezier and two uniform vectors; insertion, multiplicities, normalisation, spans and span lookup inside a vector are untested",
  ["src/knot.rs"],
  [("constructors", "src/knot.rs from_values_and_multiplicities, bezier_knot, uniform_knot, normalize"), ("sorted insertion", "src/knot.rs add_knot"), ("queries", "src/knot.rs multiplicity, span_index, spans, shrink, range, sub_vec")])
p("C06", "Surface patches tessellate into a consistent triangle grid",
  "Sampling a parameter range uniformly gives division+1 evenly spaced parameters with exact ends, and a surface patch has one vertex per parameter pair, in row order, equal to the surface point there. Its triangles use only valid vertices, form two equally oriented triangles per grid cell so that every interior edge is shared by two triangles in opposite directions and only the grid border is open, and undefined normals take the value of a neighbour while all others stay as computed.",
  "every surface, parameter range (descending ones included) and pair of division counts of at least one",
  "the tessellation tests only write files for one umbrella and one cylinder and never inspect vertices, triangles or normals",
  ["src/utils.rs", "src/surface.rs", "src/face.rs", "src/mesh.rs"],
  [("uniform parameters", "src/utils.rs uniform_divide"), ("sample grid", "src/surface.rs get_points, get_point_grid"), ("triangle grid", "src/mesh.rs create_triangles"), ("normal repair", "src/face.rs get_triangle_mesh")])
p("C07", "Curve sampling and edge loops keep end points, order and tolerance",
  "Sampling a curve segment yields curve points at parameters running strictly monotonically from the start to the end of its range, both included exactly, each piece passing within the tolerance of its chord at a probe in its middle fifth, and a straight segment is not subdivided. An edge loop's polygon is the concatenation of its edges' samples in order with consecutive coincident points and the closing duplicate removed, so no two cyclically consecutive vertices coincide.",
  "every curve, parameter range, tolerance, every internal random choice of probe point, every list of edges",
  "tests print samples of one circle and one spline and check nothing; loops are never converted in a test",
  ["src/utils.rs", "src/curve.rs", "src/surface.rs"],
  [("recursive bisection with a random probe", "src/utils.rs parameter_division"), ("sampling", "src/curve.rs get_points"), ("duplicate removal", "src/surface.rs to_polygon")])
p("C08", "Polylines are parameterised by arc length and project to the nearest point",
  "A polyline evaluates at a fraction of its total length to the point reached after travelling that fraction along its segments, clamped to its end vertices outside [0,1]. Projecting any point returns a fraction in [0,1] whose point is at the smallest distance from the given point among all points of the polyline.",
  "every vertex list with positive total length, every fraction, every query point",
  "no test evaluates a polyline; one test projects two end points of a single-segment spline",
  ["src/curve/polyline.rs", "src/utils.rs"],
  [("segment lengths", "src/curve/polyline.rs new"), ("walk along the segments", "src/curve/polyline.rs get_point"), ("nearest segment and foot point", "src/curve/polyline.rs project, src/utils.rs distance_to_line_segment")])
p("C09", "Projection inverts evaluation for lines, circles, planes and cylinders",
  "Projecting a point that lies on a line, circle, plane or cylinder with orthonormal axes recovers parameters that evaluate back to that point, angles being reported within one non-negative full turn. The flattening of a cylinder onto a ring and its inverse recover the same point, and a circle's parameter range for given end angles and sense covers the arc in that direction.",
  "every position and orientation, every point of the primitive, every parameter, both senses",
  "one test flattens one cylinder patch; projections of lines, circles and planes are printed or not exercised",
  ["src/curve/line.rs", "src/curve/circle.rs", "src/surface/plane.rs", "src/surface/cylinder.rs"],
  [("inner products with the axes", "project functions"), ("angle wrap", "src/curve/circle.rs project, src/surface/cylinder.rs project"), ("sense handling", "src/curve/circle.rs refine_parameter_range"), ("ring map", "src/surface/cylinder.rs project_to_ring, generate_point_from_ring")])
p("C10", "Lines, circles, planes, cylinders and generated surfaces follow their formulas",
  "Lines, circles, planes, cylinders, surfaces of revolution, translational sweeps and the cycloid umbrella evaluate at every parameter to their defining formula. In particular circle points keep the radius, revolution keeps height along and distance from the axis, and angle zero reproduces the section.",
  "every parameter, position, orientation (unit axes) and section curve",
  "no test compares an evaluated point of any of these with an expected value",
  ["src/curve/line.rs", "src/curve/circle.rs", "src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs"],
  [("evaluation", "get_point of each primitive")])
p("C11", "Advancing-front meshing fills exactly the given boundary",
  "For any valid set of boundary loops the advancing-front mesher returns all boundary points first and unchanged, then any points it added, and triangles whose indices are valid. When it finishes, the directed edges of the triangles cancel except for exactly the given boundary edges, each in its given direction, so the mesh closes up on the boundary and nothing else.",
  "every point set, loops of any number and size, every order in which the front advances",
  "one test meshes one polygon into a file and checks nothing",
  ["src/utils/meshgen.rs"],
  [("front as a list of directed edges", "src/utils/meshgen.rs generate_triangular_mesh"), ("choice of the apex", "src/utils/meshgen.rs find_intersection_with_front"), ("predicates", "src/utils/meshgen.rs, src/utils/point.rs")], over=("inputs", "histories"))
p("C12", "Polygon orientation, convexity and ear clipping are sound",
  "The orientation test agrees with the sign of the signed area, and the convexity classification lists every vertex that turns left or right, in order, marks exactly the right turns as reflex and leaves out the straight ones. Ear clipping uses only the given vertices; every clipped corner turns left and has no other vertex still listed as reflex inside its triangle; it comes to its end at three remaining corners, which are the last triangle, or when no ear is left. A corner leaves alone, or together with a reflex neighbour that becomes straight, so when clipping ends at three corners the triangles' signed areas add up to the area of the polygon (exactly when corners leave alone, up to the straightness tolerance when at most one neighbour leaves with a corner); a simple counter-clockwise polygon is covered completely.",
  "every polygon",
  "tests print the convexity of one triple; orientation and ear clipping are never run",
  ["src/utils/polygon.rs"],
  [("shoelace sum", "src/utils/polygon.rs is_polygon_counter_clockwise"), ("turn classification", "src/utils/polygon.rs compute_vertex_convexity, find_concave_vertices"), ("ear clipping", "src/utils/polygon.rs trianglate_polygon, is_ear")], over=("inputs", "histories"))
p("C13", "Hole merging yields one ring visiting every boundary edge once",
  "Merging an outer polygon with its holes gives a single cyclic vertex list in which the loop reaching furthest in the positive x direction is the outer one, every vertex of every loop occurs, and each hole is spliced in through one bridge edge walked in both directions, which leads from a vertex of the ring whose edge is nearest to the hole's furthest vertex in that direction. The directed edges of the ring are therefore exactly the directed edges of all loops plus the bridges in both directions, so its signed area is the sum of the loops' signed areas.",
  "every number of holes, loop sizes and positions",
  "no test merges polygons",
  ["src/utils/polygon.rs"],
  [("choice of the outer loop", "src/utils/polygon.rs merge_polygons"), ("splice", "src/utils/polygon.rs merge_two_polygons")])
p("C14", "Faces trimmed on a plane mesh their outlines",
  "The mesh of a planar face trimmed by edge loops has the boundary points of the loops (C07), in order, as its vertices, no normals, and whole triangles whose indices are valid. A single outline that only turns left becomes one triangle per edge around an added vertex, the centroid, with the orientation and the total signed area of the outline; a single outline with right and left turns is ear-clipped (C12); an outline with holes is joined into one ring (C13) and ear-clipped, which leaves the holes out. No outline, only empty loops, or an outline that never turns left give an empty mesh; empty loops among others change nothing.",
  "every plane, every number of edge loops in any order, every set of boundary points within the index type",
  "no test trims a surface",
  ["src/surface/plane.rs", "src/utils/polygon.rs"],
  [("planar cases", "src/surface/plane.rs trim"), ("projection", "src/surface/plane.rs project")])
p("C23", "Faces trimmed on a cylinder or a B-spline surface stay on it",
  "The mesh of a curved face trimmed by loops contains the boundary points of the loops as vertices, any further vertex lies on the surface, all triangle indices are valid, and the open edges of the mesh are exactly the boundary loops.",
  "every cylinder and B-spline surface, every set of edge loops on it",
  "no test trims a surface",
  ["src/surface/cylinder.rs", "src/surface/bspline.rs"],
  [("ring development", "src/surface/cylinder.rs trim"), ("parameter-space meshing", "src/surface/bspline.rs trim, project_points")])
p("C15", "OBJ export writes every vertex, normal and triangle with consistent numbering",
  "Exporting a mesh or a model as OBJ writes one vertex line per vertex, one normal line per normal and one face line per triangle, in order, with coordinates that read back exactly. Face indices are one-based and, over several faces in one file, offset by the vertices and normals already written, so that reading the file back reproduces all triangles.",
  "every mesh and every sequence of faces, with and without normals",
  "tests write OBJ files but never read or check them",
  ["src/mesh.rs", "src/model.rs"],
  [("line writer", "src/mesh.rs write_obj"), ("running offsets", "src/model.rs save_as_obj")])
p("C16", "STL export is a well-formed binary file with every triangle",
  "Exporting a model as STL writes an 80-byte header, the total triangle count of all faces in little-endian order, and for each triangle of each face in order a 50-byte record: a zero normal, the three vertices in single precision in their given order, a zero attribute count. Success is reported only when everything is in the file. The file length therefore equals 84 plus 50 times the triangle count.",
  "every model (any number of faces and triangles) and every file name",
  "no test writes an STL file",
  ["src/model.rs"],
  [("record writer", "src/model.rs save_as_stl"), ("count patched afterwards", "src/model.rs save_as_stl")])
p("C17", "SVG export draws every curve as one path in its own coordinates",
  "Exporting a model as SVG writes one path per curve, in order, whose commands trace the curve's segments: lines and polylines by their end points or vertices, cubic splines by their Bezier pieces and every other curve by its samples, starting with a move command. The page has the requested size and flips the y axis.",
  "every list of curves, segment kinds and page sizes",
  "no test writes an SVG file",
  ["src/model.rs"],
  [("path data per segment kind", "src/model.rs save_as_svg")])
p("C18", "Point cloud files round-trip",
  "Saving a point cloud writes one line per point in order (success is reported only when all of it is in the file), and loading such a file gives back exactly the same points; the variants with normals and for planar points write all their components. Loading skips comment lines and lines with another number of fields, accepts blanks, commas and tabs, and ignores a leading label when there are four fields; scaling multiplies every coordinate.",
  "every list of finite points, every text file in the format",
  "a test only saves a cloud; loading is never run",
  ["src/points.rs"],
  [("line writer", "src/points.rs save_*"), ("field parser", "src/points.rs load_point_cloud")])
p("C19", "Nearest-point searches and parameter refinement stay in range and optimal",
  "The nearest point of a list or grid is an entry at minimal distance (the first such), and the minimum and maximum by key bound every item and are attained. Nearest-parameter search on a curve or surface returns a parameter within the given range even when the iteration misbehaves, and returns an exact hit when the point is one of its initial samples, and clamping to a range or interpolating in it respects the range in both directions.",
  "every non-empty list, grid, key function, curve, range (descending ones included), query point",
  "no test calls these searches directly",
  ["src/utils.rs", "src/surface/bspline.rs"],
  [("linear scans", "src/utils.rs find_nearest_point, find_nearest_point_in_grid, get_min_max_by_key"), ("clamped Newton iteration", "src/utils.rs find_nearest_parameter, src/surface/bspline.rs project_points"), ("range helpers", "src/utils.rs clamp_in_range, range_at")])
p("C20", "Distance, inside and intersection predicates are geometrically exact",
  "The distance from a point to a segment, in the plane and in space, is the minimum of the distances to all points of the segment. The inside-triangle tests accept exactly the points on the inner side of all three edges (up to the stated tolerance), and the segment test never misses two segments that share a point nor reports segments that a line or a bounding box separates properly.",
  "every point, segment and triangle",
  "tests print one distance and one inside result; one pair of collinear segments is checked",
  ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs", "src/utils/meshgen.rs"],
  [("distance by foot point cases", "src/utils.rs, src/utils/point.rs distance_to_line_segment"), ("orientation tests", "src/utils/point.rs is_inside_triangle, src/utils/polygon.rs is_inside_triangle, src/utils/meshgen.rs is_segments_intersect")])
p("C21", "STEP import keeps the geometry of the file",
  "Reading a STEP file gives one curve per composite curve and one face per advanced face of a supported surface kind, each edge loop with its edges in order. Coordinates, radii, axes, degrees, knots with multiplicities, weights (control points pre-multiplied) and edge end points are those of the file, and each edge runs from its start vertex to its end vertex along its curve.",
  "every STEP file built from the supported entities",
  "no test reads a STEP file",
  ["src/model/step_reader.rs"],
  [("entity conversion", "src/model/step_reader.rs extract_*"), ("edge trimming", "src/model/step_reader.rs extract_edge_curve"), ("model assembly", "src/model/step_reader.rs read_model")])
p("C22", "Boxed geometry and containers are transparent",
  "A curve or surface behind a boxed trait object evaluates, projects, refines ranges, returns normals and trims exactly like the concrete object it holds. Models keep faces and curves in insertion order, a mesh used as a face is itself, reversing the winding of a mesh flips every triangle and nothing else and is its own inverse on triangle lists' orientation, and the triangle count is a third of the index count.",
  "every concrete curve and surface, every mesh, every sequence of additions",
  "no test goes through a boxed trait object or inspects a container",
  ["src/curve.rs", "src/surface.rs", "src/face.rs", "src/model.rs", "src/mesh.rs"],
  [("forwarding impls", "src/curve.rs, src/surface.rs"), ("containers", "src/model.rs, src/mesh.rs, src/face.rs")], over=("inputs", "histories"))
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), [x["id"] for x in P if len(x["title"]) > 80], [x["id"] for x in P if x["statement"].count(". ") > 2])
