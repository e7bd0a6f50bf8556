//! C22: boxed geometry and containers are transparent.
use crate::c10::{angle, org, radius};
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;

fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn same3(a: Point3, b: Point3) -> bool { same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) }
fn mesh_eq(a: &TriangleMesh, b: &TriangleMesh) -> Result<(), String> {
    ensure(a.vertices.len() == b.vertices.len() && a.vertices.iter().zip(&b.vertices).all(|(x, y)| same3(*x, *y)), || format!("vertices {:?} != {:?}", a.vertices, b.vertices))?;
    ensure(a.normals.len() == b.normals.len() && a.normals.iter().zip(&b.normals).all(|(x, y)| same3(*x, *y)), || format!("normals {:?} != {:?}", a.normals, b.normals))?;
    ensure(a.triangles == b.triangles, || format!("triangles {:?} != {:?}", a.triangles, b.triangles))
}
fn curve_same<C: Curve>(make: impl Fn() -> C, us: &[f64], ps: &[Point3], rs: &[(f64, f64)]) -> Result<(), String> {
    let c = make();
    let b: Box<dyn Curve> = Box::new(make());
    fn through<T: Curve>(c: &T, u: f64) -> Point3 { c.get_point(u) }
    fn thr_p<T: Curve>(c: &T, p: Point3) -> f64 { c.project(p) }
    fn thr_r<T: Curve>(c: &T, r: (f64, f64), s: bool) -> (f64, f64) { c.refine_parameter_range(r, s) }
    for &u in us { let (x, y) = (through(&c, u), through(&b, u)); ensure(same3(x, y), || format!("get_point({:?}): boxed {:?}, itself {:?}", u, y, x))?; }
    for &p in ps { let (x, y) = (thr_p(&c, p), thr_p(&b, p)); ensure(same(x, y), || format!("project({:?}): boxed {:?}, itself {:?}", p, y, x))?; }
    for &r in rs { for s in [true, false] { let (x, y) = (thr_r(&c, r, s), thr_r(&b, r, s)); ensure(x == y, || format!("refine_parameter_range({:?}, {}): boxed {:?}, itself {:?}", r, s, y, x))?; } }
    Ok(())
}
fn square(c: Point3, x: Vec3, y: Vec3, k: f64, ccw: bool) -> EdgeLoop {
    let mut v = vec![c - x * k - y * k, c + x * k - y * k, c + x * k + y * k, c - x * k + y * k];
    if !ccw { v.reverse(); }
    EdgeLoop { edges: (0..4).map(|i| { let (a, b) = (v[i], v[(i + 1) % 4]); let d = b - a; CurveSegment { curve: Box::new(Line { origin: a, direction: d.normalize() }) as Box<dyn Curve>, parameter_range: (0.0, d.length()), tolerance: 0.01, parameter_division: 4 } }).collect() }
}
fn surf_same<S: Surface>(make: impl Fn() -> S, ps: &[Point2], normals: bool, bounds: Option<&dyn Fn() -> Vec<EdgeLoop>>) -> Result<(), String> {
    let s = make();
    let b: Box<dyn Surface> = Box::new(make());
    fn through<T: Surface>(c: &T, u: f64, v: f64) -> Point3 { c.get_point(u, v) }
    for p in ps { let (x, y) = (through(&s, p.x, p.y), through(&b, p.x, p.y)); ensure(same3(x, y), || format!("get_point({:?}): boxed {:?}, itself {:?}", p, y, x))?; }
    if normals {
        fn thr_n<T: Surface>(c: &T, p: &[Point2]) -> Vec<Vec3> { c.get_normals(p) }
        let (x, y) = (thr_n(&s, ps), thr_n(&b, ps));
        ensure(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| same3(*p, *q)), || format!("get_normals: boxed {:?}, itself {:?}", y, x))?;
    }
    if let Some(f) = bounds {
        let x = TrimmedSurface { surface: s, bounds: f() }.get_triangle_mesh();
        let y = TrimmedSurface { surface: b, bounds: f() }.get_triangle_mesh();
        mesh_eq(&x, &y).map_err(|e| format!("trimmed: {}", e))?;
        let s = make();
        mesh_eq(&s.trim(&f()), &x).map_err(|e| format!("trim and the trimmed surface differ: {}", e))?;
    }
    Ok(())
}
pub fn run(r: &mut Run) {
    let n = r.n(1200, 20000);
    for k in 0..n {
        if !r.time_left() { return; }
        let (a, d) = r.rng.frame();
        let w = a.cross(d);
        let (o, rad) = (org(r), radius(r));
        let us: Vec<f64> = vec![0.0, 1.0, r.rng.unit(), angle(r)];
        let in01: Vec<f64> = vec![0.0, 1.0, r.rng.unit(), r.rng.unit()];
        let ps: Vec<Point3> = (0..3).map(|_| r.rng.p3()).collect();
        let rs: Vec<(f64, f64)> = vec![(angle(r), angle(r)), (1.0, 2.0), (2.0, 1.0), (1.5, 1.5)];
        match k % 6 {
            0 => { r.case("boxed line", format!("Line {:?} {:?}, u {:?}, points {:?}", o, a, us, ps), || curve_same(|| Line { origin: o, direction: a }, &us, &ps, &rs)); }
            1 => { r.case("boxed circle", format!("Circle {:?} {:?} {:?} {:?}, u {:?}, points {:?}, ranges {:?}", o, rad, a, d, us, ps, rs), || curve_same(|| Circle { center: o, radius: rad, axis: a, ref_dir: d }, &us, &ps, &rs)); }
            2 => { let m = r.rng.range(2, 7); let v = pts(&mut r.rng, m); r.case("boxed polyline", format!("Polyline {:?}, u {:?}, points {:?}", v, us, ps), || curve_same(|| Polyline::new(v.clone()), &us, &ps, &rs)); }
            3 => { let m = r.rng.range(3, 6); let v = pts(&mut r.rng, m); r.case("boxed bezier", format!("BezierCurve {:?}, u {:?}, points {:?}", v, in01, ps), || curve_same(|| BezierCurve { control_points: v.clone() }, &in01, &ps, &rs)); }
            4 => {
                let p = r.rng.range(2, 3); let m = r.rng.range(p + 1, p + 4); let t = clamped_knots(&mut r.rng, m, p);
                let v = pts(&mut r.rng, m); let us = params_in(&mut r.rng, &t, t[p], t[m], 4);
                r.case("boxed spline", format!("BSplineCurve degree {} knots {:?} points {:?}, u {:?}, {:?}", p, t, v, us, ps), || curve_same(|| BSplineCurve { control_points: v.clone(), knots: KnotVector::new(t.clone()), degree: p as u8 }, &us, &ps, &rs));
            }
            _ => {
                let uv: Vec<Point2> = (0..5).map(|_| Point2::new(r.rng.unit(), r.rng.unit())).collect();
                let (s, c) = (r.rng.f(0.5, 4.0), r.rng.bool());
                let hole = r.rng.bool();
                match k / 6 % 5 {
                    0 => { let f = move || { let mut b = vec![square(o, d, w, s * 2.0, c)]; if hole && c { b.push(square(o, d, w, s * 0.5, false)); } b };
                        r.case("boxed plane", format!("Plane {:?} {:?} {:?}, square bound of half side {:?} ccw {} hole {}", o, d, w, s * 2.0, c, hole), || surf_same(|| Plane { origin: o, normal: a, u_axis: d, v_axis: w }, &uv, true, Some(&f))); }
                    1 => { r.case("boxed cylinder", format!("Cylinder {:?} {:?} {:?} {:?}", o, a, d, rad), || surf_same(|| Cylinder { origin: o, axis: a, ref_dir: d, radius: rad }, &uv, true, None)); }
                    2 => { r.case("boxed revolution", format!("SpinSurface {:?} {:?}", o, a), || surf_same(|| SpinSurface { origin: o, axis: a, section: Line { origin: o + d, direction: w } }, &uv, true, None)); }
                    3 => { let (m, q) = (r.rng.range(2, 4), r.rng.range(2, 4)); let v = pts(&mut r.rng, m * q);
                        r.case("boxed bezier surface", format!("BezierSurface {:?} cols {}", v, q), || surf_same(|| BezierSurface { control_points: Grid::from_vec(v.clone(), q) }, &uv, true, None)); }
                    _ => { let (p, q) = (r.rng.range(1, 3), r.rng.range(1, 3)); let (m, l) = (r.rng.range(p + 1, p + 3), r.rng.range(q + 1, q + 3)); let v = pts(&mut r.rng, m * l);
                        let (tu, tv) = (clamped_knots(&mut r.rng, m, p), clamped_knots(&mut r.rng, l, q));
                        let (xs, ys) = (params_in(&mut r.rng, &tu, tu[p], tu[m], 5), params_in(&mut r.rng, &tv, tv[q], tv[l], 5));
                        let uv: Vec<Point2> = xs.iter().zip(&ys).map(|(x, y)| Point2::new(*x, *y)).collect();
                        r.case("boxed spline surface", format!("BSplineSurface degree {:?} knots {:?} {:?} points {:?} at {:?}", (p, q), tu, tv, v, uv), || surf_same(|| BSplineSurface { control_points: Grid::from_vec(v.clone(), l), knots: (KnotVector::new(tu.clone()), KnotVector::new(tv.clone())), degree: (p as u8, q as u8) }, &uv, true, None)); }
                }
            }
        }
        // meshes and models
        let nv = r.rng.range(1, 9);
        let nt = if k % 17 == 0 { r.rng.range(20, 200) } else { r.rng.range(0, 9) };
        let mesh = TriangleMesh { vertices: pts(&mut r.rng, nv), normals: if r.rng.bool() { (0..nv).map(|_| r.rng.dir()).collect() } else { vec![] }, triangles: (0..3 * nt).map(|_| r.rng.below(nv) as u32).collect() };
        r.case("mesh", format!("mesh of {} vertices, {} normals, triangles {:?}", nv, mesh.normals.len(), mesh.triangles), || {
            ensure(mesh.triangle_count() == nt, || format!("triangle_count {}", mesh.triangle_count()))?;
            mesh_eq(&mesh.get_triangle_mesh(), &mesh).map_err(|e| format!("as a face: {}", e))?;
            let f = mesh.clone().reverse_winding_direction();
            ensure(f.vertices == mesh.vertices && f.normals == mesh.normals, || "reversal changed vertices or normals".into())?;
            ensure(f.triangles.len() == 3 * nt, || format!("reversed: {:?}", f.triangles))?;
            let rot = |a: &[u32], b: &[u32]| (0..3).any(|s| (0..3).all(|i| a[i] == b[(i + s) % 3]));
            for (x, y) in mesh.triangles.chunks(3).zip(f.triangles.chunks(3)) { ensure(rot(x, &[y[2], y[1], y[0]]), || format!("triangle {:?} became {:?}", x, y))?; }
            let g = f.reverse_winding_direction();
            for (x, y) in mesh.triangles.chunks(3).zip(g.triangles.chunks(3)) { ensure(rot(x, y), || format!("triangle {:?} became {:?} after two reversals", x, y))?; }
            Ok(())
        });
        let nf = r.rng.below(6);
        let nc = r.rng.below(6);
        r.case("model", format!("{} faces and {} curves added alternately", nf, nc), || {
            let mut m: Model<TriangleMesh> = Model::new();
            ensure(m.faces.is_empty() && m.curves.is_empty(), || "a new model is not empty".into())?;
            for i in 0..nf.max(nc) {
                if i < nf { let mut t = TriangleMesh::new(); ensure(t.vertices.is_empty() && t.normals.is_empty() && t.triangles.is_empty(), || "a new mesh is not empty".into())?; t.triangles = vec![i as u32; 3]; m.add_face(t); }
                if i < nc { m.add_curve(Polycurve { segments: (0..i).map(|j| CurveSegment { curve: Box::new(Line { origin: Point3::new(j as f64, 0.0, 0.0), direction: Vec3::X }) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 4 }).collect() }); }
            }
            ensure(m.faces.len() == nf && (0..nf).all(|i| m.faces[i].triangles == vec![i as u32; 3]), || format!("faces {:?}", m.faces.iter().map(|f| f.triangles.clone()).collect::<Vec<_>>()))?;
            ensure(m.curves.len() == nc && (0..nc).all(|i| m.curves[i].segments.len() == i), || format!("curves {:?}", m.curves.iter().map(|f| f.segments.len()).collect::<Vec<_>>()))
        });
    }
}
