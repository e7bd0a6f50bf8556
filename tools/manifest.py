#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand)"""
import json
T = "deductive contracts: Verus on the functions mechanically extracted from /repo, with executable-contract replay on the real code"
G = " (f64 read as exact reals); the replay of the contract on the real f64 code is bounded."
CLAIMED = {
 "C11": ("proof", "the mesher is verified for any boundary loops and any outcome of its geometric tests: theorem_closed counts the directed edges of the final triangles; the indices are within u32 (assumed below 2^32 vertices), termination is not proved, std's sort is assumed to permute" + G),
 "C12": ("proof", "the classification, the ear test and the clipping loop are verified for any polygon and any ring; thm_clip and thm_triangles bound the area the triangles cover; that a simple polygon always has an ear (so clipping comes to its end) is not proved but sampled, areas are not bounded for clips where both neighbours straighten at once; sort, binary_search and the two-ended queue as documented are assumed; indices within u32" + G),
 "C13": ("proof", "the merge and the splice are verified for any loops against the exact ring (which loop is outer, the nearest edge, the spliced order); theorem_edges gives the directed edges for every weight, theorem_area the signed area, theorem_vertices the vertices; that std's sort yields a sorted permutation is assumed" + G),
 "C16": ("proof", "the STL writer is verified for any list of faces (any implementation of the trait) against the exact byte sequence, with theorem_length; the encodings of numbers and the file and buffer operations are assumed as documented in std" + G),
 "C04": ("proof", "knot insertion (theorem_insert: Boehm's recombination keeps every point), clamping, splitting and the decomposition into Bezier pieces are verified for every curve, degree and history of calls" + G),
 "C17": ("proof", "save_as_svg and the sampling are verified: the saved document tree has the page size, the flip and one path per curve in order, its data exactly the characters for each segment; the decomposition into Bezier pieces is a contract here (C04), downcasting and what the svg crate writes for a tree are assumed (and replayed by reading the files)" + G),
 "C18": ("proof", "the three writers, the loader and the scaling are verified for any points and any file content against the exact characters, and theorem_round_trip composes them; that a printed f64 reads back exactly and that lines/split/parse behave as documented is assumed of std (and replayed)" + G),
 "C15": ("proof", "the OBJ writers are verified for any mesh, any list of faces and any writer against the exact character sequence, with theorem_numbering on the running offsets; that a printed f64 reads back exactly is std's documented behaviour (assumed, and replayed)" + G),
 "C07": ("proof", "the recursive bisection is verified for any curve (any implementation of the trait) and every value of the random probe, the sampling and the loop polygon for any list of edges; termination of the recursion (which needs a continuous curve) is not proved" + G),
 "C14": ("proof", "Plane::project and Plane::trim are verified for every plane and every set of loops against the prescribed mesh (which loops count, which case applies, fan, ears, merged ring), over the contracts of C07, C12 and C13; theorem_indices and theorem_fan_area; that ear clipping of a simple polygon comes to its end is sampled (C12)" + G),
 "C22": ("proof", "the forwarding implementations, the mesh and trimmed-surface faces, model insertion, winding reversal and the triangle count are verified for any object behind the box (any implementation of the trait) and any mesh" + G),
 "C09": ("proof", "projections, angle wrap, range refinement and the ring map are verified for every orthonormal placement, with the sine, cosine and arctangent facts of prelude/trig.rs assumed; the ring round trip is theorem_ring over the contracts" + G),
 "C10": ("proof", "every evaluator is verified against its formula for every orthonormal placement and parameter (glam's quaternion product as documented, facts on sine and cosine assumed), with the theorems on radius, height, axis distance and angle zero" + G),
 "C19": ("proof", "nearest-point scans, min/max by key (any key function), clamping, range interpolation, Newton refinement on any curve, projection on Bezier/B-spline curves and on B-spline surfaces of degree at least 2 with clamped ends are verified; surfaces of degree 1 in a direction and the NaN behaviour of the iteration are covered by the bounded replay" + G),
    "C08": ("proof", "polyline construction, evaluation and projection (with the segment distance of C20) verified for any vertex list; the theorems arc_unique and project compose them" + G),
    "C20": ("proof", "The two point-segment distances, both inside-triangle tests and the segment test are proved by Verus/Z3 against exact geometry for every input (minimum over the segment, convex hull of the corners, common points of two segments)" + G),
 "C06": ("proof", "Uniform division, the sample grid, the triangle grid and the repair of undefined normals are proved by Verus/Z3 for every division, range and surface (any evaluator and any set of undefined normals)" + G),
 "C03": ("proof", "All obligations for the derivative constructors, the partial-derivative surfaces and the normals are discharged by Verus/Z3 for every degree, knot vector and control net, together with the theorems that the difference splines are the derivative" + G),
 "C05": ("proof", "Every construction, editing and query function of the knot vector is proved by Verus/Z3 against its contract for all lengths, degrees and values (f64 read as exact reals, distinct knots further apart than the tolerance); the replay on machine floats is bounded."),
 "C02": ("proof", "All obligations for span lookup, the in-place basis triangle and the spline evaluators are discharged by Verus/Z3 for every degree, knot vector and domain parameter, with f64 read as exact reals and distinct knots further apart than the tolerance; the replay on machine floats is bounded."),
 "C01": ("proof", "All obligations for the Bezier evaluators are discharged by Verus/Z3 for every size and parameter, with f64 read as exact reals; the replay on machine floats is bounded."),
}
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {
 "C21": "the reader takes the entity tables of iso_10303 and the generated AP214 types apart (trait-object lookups, downcasts of dyn Any, a parser in a dependency): none of these has a contract, so what the file says cannot be stated over functions within the verifier's reach; entity by entity the conversion would be proved only against contracts assumed for the dependency",
 "C23": "that the open edges of a mesh on a curved surface are exactly the loops is a planarity argument over the advancing-front mesher (C11 proves the balance of its edges, not that fronts never cross), over a numeric inversion of the surface whose result is only bounded by the replay of C19, and Cylinder::trim and BSplineSurface::trim contain suspected defects (DESIGN section 6) that would have to be settled first",
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ALL:
    if i in CLAIMED:
        lv, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "technique": T, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts for this property are not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
