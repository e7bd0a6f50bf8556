//! C06: uniform sampling, patch grids, triangle connectivity, repair of undefined normals.
use crate::fw::*;
use crate::gen::*;
use geom3d::surface::{BezierSurface, BSplineSurface, Surface, SurfacePatch, Umbrella};
use geom3d::*;
use std::collections::HashMap;

/// a surface with an injective evaluator and a chosen set of undefined normals
#[derive(Debug, Clone)]
struct Mock { nan: Vec<bool>, cols: usize, ask: std::cell::RefCell<Vec<Point2>>, with_normals: bool }
impl Mock { fn nrm(k: usize) -> Vec3 { Vec3::new(k as f64, 1.0 + k as f64 * 0.5, -(k as f64)) } }
impl Surface for Mock {
    fn get_point(&self, u: f64, v: f64) -> Point3 { Point3::new(u, v, 3.0 * u - 2.0 * v * u) }
    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
        *self.ask.borrow_mut() = params.to_vec();
        if !self.with_normals { return vec![]; }
        (0..params.len()).map(|k| if self.nan[k % self.nan.len()] { Vec3::new(f64::NAN, 0.0, f64::NAN) } else { Mock::nrm(k) }).collect()
    }
}
fn check_div(b: f64, e: f64, n: usize, v: &[f64]) -> Result<(), String> {
    ensure(v.len() == n + 1, || format!("{} parameters for division {}", v.len(), n))?;
    ensure(v[0] == b && v[n] == e, || format!("ends are {:?} and {:?}", v[0], v[n]))?;
    for i in 0..=n {
        let w = b + (e - b) * (i as f64 / n as f64);
        ensure((v[i] - w).abs() <= 1e-12 * (n as f64 + 1.0) * (1.0 + b.abs().max(e.abs())), || format!("parameter {} is {:?}, evenly spaced {:?}", i, v[i], w))?;
    }
    Ok(())
}
fn check_tris(t: &[u32], rows: usize, cols: usize) -> Result<(), String> {
    ensure(t.len() == (rows - 1) * (cols - 1) * 6, || format!("{} indices for {} cells", t.len(), (rows - 1) * (cols - 1)))?;
    let mut e: HashMap<(u32, u32), i32> = HashMap::new();
    let mut cell: HashMap<(usize, usize), usize> = HashMap::new();
    for k in t.chunks(3) {
        for x in k { ensure((*x as usize) < rows * cols, || format!("index {} of {} vertices", x, rows * cols))?; }
        let p: Vec<(i64, i64)> = k.iter().map(|x| ((*x as usize / cols) as i64, (*x as usize % cols) as i64)).collect();
        let (r, c) = (p.iter().map(|x| x.0).min().unwrap(), p.iter().map(|x| x.1).min().unwrap());
        ensure(p.iter().all(|x| x.0 - r <= 1 && x.1 - c <= 1), || format!("triangle {:?} leaves its grid cell", k))?;
        let area = (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[1].1 - p[0].1) * (p[2].0 - p[0].0);
        ensure(area == 1, || format!("triangle {:?} is not oriented like the grid (u,v)", k))?;
        *cell.entry((r as usize, c as usize)).or_default() += 1;
        for i in 0..3 { *e.entry((k[i], k[(i + 1) % 3])).or_default() += 1; }
    }
    for r in 0..rows - 1 { for c in 0..cols - 1 { ensure(cell.get(&(r, c)) == Some(&2), || format!("cell ({},{}) does not have two triangles", r, c))?; } }
    for ((a, b), n) in &e {
        ensure(*n == 1, || format!("directed edge {}->{} used {} times", a, b, n))?;
        if !e.contains_key(&(*b, *a)) {
            let (p, q) = ((*a as usize / cols, *a as usize % cols), (*b as usize / cols, *b as usize % cols));
            let border = (p.0 == q.0 && (p.0 == 0 || p.0 == rows - 1)) || (p.1 == q.1 && (p.1 == 0 || p.1 == cols - 1));
            ensure(border, || format!("inner edge {}->{} is open", a, b))?;
        }
    }
    Ok(())
}
fn check_patch<S: Surface>(s: &SurfacePatch<S>, exact: &dyn Fn(f64, f64) -> Point3) -> Result<TriangleMesh, String> {
    let ((u0, u1), (v0, v1)) = s.parameter_range;
    let (n, m) = s.parameter_division;
    let mesh = s.get_triangle_mesh();
    let g = s.get_point_grid();
    ensure(g.rows() == n + 1 && g.cols() == m + 1, || format!("grid is {}x{}", g.rows(), g.cols()))?;
    ensure(mesh.vertices.len() == (n + 1) * (m + 1), || format!("{} vertices", mesh.vertices.len()))?;
    for i in 0..=n {
        for j in 0..=m {
            let (u, v) = (u0 + (u1 - u0) * (i as f64 / n as f64), v0 + (v1 - v0) * (j as f64 / m as f64));
            let w = exact(u, v);
            let tol = 1e-9 * (1.0 + w.length());
            ensure(near3(mesh.vertices[i * (m + 1) + j], w, tol), || format!("vertex ({},{}) is {:?}, surface point {:?}", i, j, mesh.vertices[i * (m + 1) + j], w))?;
            ensure(near3(g[i][j], w, tol), || format!("grid point ({},{}) is {:?}, surface point {:?}", i, j, g[i][j], w))?;
        }
    }
    check_tris(&mesh.triangles, n + 1, m + 1)?;
    Ok(mesh)
}
pub fn run(r: &mut Run) {
    let ns = sizes(r, 1, r.n(70, 300));
    for n in ns {
        for k in 0..3 {
            let (b, e) = match k { 0 => (0.0, 1.0), 1 => (r.rng.coord(), r.rng.coord()), _ => { let a = r.rng.coord(); (a, a - r.rng.f(0.0, 7.0)) } };
            r.case("uniform_divide", format!("range=({:?}, {:?}) division={}", b, e, n), move || check_div(b, e, n, &utils::uniform_divide((b, e), n)));
        }
    }
    let lim = r.n(9, 14);
    for n in 1..=lim { for m in 1..=lim {
        r.case("create_triangles", format!("grid {}x{}", n + 1, m + 1), move || {
            let g = Grid::from_vec(vec![Point3::ZERO; (n + 1) * (m + 1)], m + 1);
            check_tris(&mesh::create_triangles(&g), n + 1, m + 1)
        });
    } }
    // undefined normals
    for round in 0..r.n(700, 5000) {
        if !r.time_left() { break; }
        let (n, m) = (r.rng.range(1, 7), r.rng.range(1, 7));
        let cnt = (n + 1) * (m + 1);
        let density = [1, 2, 4, 10][r.rng.below(4)];
        let mut nan: Vec<bool> = (0..cnt).map(|_| r.rng.below(density) == 0).collect();
        match r.rng.below(6) {
            0 => { nan = (0..cnt).map(|k| k / (m + 1) == 0).collect(); }                 // a collapsed row
            1 => { let c = r.rng.below(m + 1); nan = (0..cnt).map(|k| k % (m + 1) == c).collect(); }
            2 => { nan = vec![false; cnt]; let k = r.rng.below(cnt); nan[k] = true; }
            3 => { nan = vec![true; cnt]; let k = r.rng.below(cnt); nan[k] = false; }
            _ => {}
        }
        if round == 0 { nan = vec![false; cnt]; }
        if round == 1 { nan = vec![true; cnt]; }
        let with_normals = round % 13 != 2;
        let (u, v) = ((r.rng.coord(), r.rng.coord()), (r.rng.coord(), r.rng.coord()));
        r.case("patch of a surface with undefined normals", format!("division=({},{}) ranges={:?} undefined normals at {:?} normals={}", n, m, (u, v), (0..cnt).filter(|k| nan[*k]).collect::<Vec<_>>(), with_normals), move || {
            let s = SurfacePatch { surface: Mock { nan: nan.clone(), cols: m + 1, ask: Default::default(), with_normals }, parameter_range: (u, v), parameter_division: (n, m) };
            let mesh = check_patch(&s, &|u, v| Point3::new(u, v, 3.0 * u - 2.0 * v * u))?;
            let q = s.surface.ask.borrow().clone();
            ensure(q.len() == cnt, || format!("normals asked for {} parameters", q.len()))?;
            for k in 0..cnt {
                let w = Point2::new(u.0 + (u.1 - u.0) * ((k / (m + 1)) as f64 / n as f64), v.0 + (v.1 - v.0) * ((k % (m + 1)) as f64 / m as f64));
                ensure((q[k] - w).length() < 1e-9 * (1.0 + w.length()), || format!("normal {} asked at {:?}, vertex parameter {:?}", k, q[k], w))?;
            }
            if !with_normals { return ensure(mesh.normals.is_empty(), || "normals invented".into()); }
            ensure(mesh.normals.len() == cnt, || format!("{} normals", mesh.normals.len()))?;
            for k in 0..cnt {
                let (row, col) = (k / (m + 1), k % (m + 1));
                let mut nb = vec![];
                if row > 0 { nb.push(k - m - 1); }
                if row < n { nb.push(k + m + 1); }
                if col > 0 { nb.push(k - 1); }
                if col < m { nb.push(k + 1); }
                let f = mesh.normals[k];
                if !nan[k] {
                    ensure(f == Mock::nrm(k), || format!("defined normal {} changed to {:?}", k, f))?;
                } else if f.is_nan() {
                    ensure(nb.iter().all(|q| nan[*q]), || format!("normal {} left undefined next to a defined one", k))?;
                } else {
                    ensure(nb.iter().any(|q| mesh.normals[*q] == f), || format!("normal {} became {:?}, not a neighbour's", k, f))?;
                }
            }
            Ok(())
        });
    }
    // real surfaces
    for _ in 0..r.n(60, 300) {
        if !r.time_left() { return; }
        let (n, m) = (r.rng.range(1, 12), r.rng.range(1, 12));
        let rad = r.rng.f(0.5, 5.0);
        let pr = ((0.0, consts::PI), (0.0, consts::TAU));
        r.case("umbrella patch", format!("radius={:?} division=({},{})", rad, n, m), move || {
            let k = rad / consts::PI;
            check_patch(&SurfacePatch { surface: Umbrella { radius: rad }, parameter_range: pr, parameter_division: (n, m) },
                &|t: f64, p: f64| Point3::new(k * (t - t.sin()) * p.cos(), k * (t - t.sin()) * p.sin(), k * (1.0 + t.cos()))).map(|_| ())
        });
        let (a, b) = (r.rng.range(2, 4), r.rng.range(2, 5));
        let c = pts(&mut r.rng, a * b);
        r.case("Bezier patch", format!("control={:?} cols={} division=({},{})", c, b, n, m), move || {
            let s = BezierSurface { control_points: Grid::from_vec(c.clone(), b) };
            let s2 = BezierSurface { control_points: Grid::from_vec(c.clone(), b) };
            check_patch(&SurfacePatch { surface: s, parameter_range: ((0.0, 1.0), (0.0, 1.0)), parameter_division: (n, m) }, &|u, v| s2.get_point(u, v)).map(|_| ())
        });
        let (p, q) = (r.rng.range(1, 3), r.rng.range(1, 3));
        let (a, b) = (p + 1 + r.rng.below(3), q + 1 + r.rng.below(3));
        let (tu, tv) = (clamped_knots(&mut r.rng, a, p), clamped_knots(&mut r.rng, b, q));
        let c = pts(&mut r.rng, a * b);
        r.case("B-spline patch", format!("control={:?} cols={} knots={:?}/{:?} degree=({},{}) division=({},{})", c, b, tu, tv, p, q, n, m), move || {
            let mk = || BSplineSurface { control_points: Grid::from_vec(c.clone(), b), knots: (KnotVector(tu.clone()), KnotVector(tv.clone())), degree: (p as u8, q as u8) };
            let s2 = mk();
            let pr = ((tu[0], tu[a + p]), (tv[0], tv[b + q]));
            let mesh = check_patch(&SurfacePatch { surface: mk(), parameter_range: pr, parameter_division: (n, m) }, &|u, v| s2.get_point(u, v))?;
            ensure(mesh.normals.len() == mesh.vertices.len(), || "one normal per vertex expected".into())?;
            let _ = s2;
            Ok(())
        });
    }
}
