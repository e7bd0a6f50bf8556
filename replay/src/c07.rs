//! C07: curve sampling and edge loops keep end points, order and tolerance.
use crate::c10::{angle, org, radius};
use crate::fw::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;

/// a graph over the parameter: the first coordinate of a sample is its parameter
#[derive(Debug, Clone, Copy)]
struct Graph { kind: usize, a: f64, w: f64, s: f64 }
impl Curve for Graph {
    fn get_point(&self, u: f64) -> Point3 {
        let x = (u - self.s) * self.w;
        match self.kind {
            0 => Point3::new(u, 0.0, 0.0),
            1 => Point3::new(u, self.a * u, 1.0),
            2 => Point3::new(u, self.a * x * x, 0.0),
            3 => Point3::new(u, self.a * x.sin(), self.a * x.cos()),
            4 => Point3::new(u, self.a * x * x * x, x),
            _ => Point3::new(u, self.a * x.abs(), 0.0),
        }
    }
    fn project(&self, p: Point3) -> f64 { p.x }
}
fn flat(c: &dyn Curve, a: f64, b: f64, tol: f64) -> Result<(), String> {
    let (p0, p1) = (c.get_point(a), c.get_point(b));
    let mut best = f64::MAX;
    for i in 0..=80 { let p = 0.4 + 0.2 * i as f64 / 80.0; let d = c.get_point(a + (b - a) * p).distance(p0 + (p1 - p0) * p); if d < best { best = d; } }
    ensure(best <= tol * 1.02 + 1e-12, || format!("the piece [{:?}, {:?}] is at least {:?} away from its chord everywhere in its middle fifth (tolerance {:?})", a, b, best, tol))
}
fn division(c: &dyn Curve, (a, b): (f64, f64), tol: f64, us: &[f64]) -> Result<(), String> {
    ensure(us.len() >= 2 && us[0] == a && us[us.len() - 1] == b, || format!("parameters {:?} do not run from {:?} to {:?}", us, a, b))?;
    for w in us.windows(2) {
        ensure(if a < b { w[0] < w[1] } else if a > b { w[0] > w[1] } else { w[0] == w[1] }, || format!("parameters {:?} then {:?} do not run strictly from {:?} to {:?}", w[0], w[1], a, b))?;
        flat(c, w[0], w[1], tol)?;
    }
    Ok(())
}
fn seg(curve: Box<dyn Curve>, range: (f64, f64), tol: f64) -> CurveSegment<Box<dyn Curve>> { CurveSegment { curve, parameter_range: range, tolerance: tol, parameter_division: 4 } }
fn dup(a: Point3, b: Point3) -> bool { a.distance_squared(b) <= 1e-7 }
fn reference(all: &[Point3]) -> Vec<Point3> {
    let mut v: Vec<Point3> = vec![];
    for &p in all { if v.last().map_or(true, |&q| !dup(p, q)) { v.push(p); } }
    while v.len() > 0 && dup(v[0], v[v.len() - 1]) { v.pop(); }
    v
}
fn cyclic(v: &[Point3]) -> Result<(), String> {
    for i in 0..v.len() { let j = (i + 1) % v.len(); ensure(!dup(v[i], v[j]), || format!("vertices {} and {} of {} coincide: {:?} {:?}", i, j, v.len(), v[i], v[j]))?; }
    Ok(())
}
pub fn run(r: &mut Run) {
    let n = r.n(1500, 30000);
    for k in 0..n {
        if !r.time_left() { return; }
        let tol = *r.rng.pick(&[0.5, 0.1, 0.01, 0.001, 1e-4]);
        match k % 3 {
            0 => {
                let g = Graph { kind: r.rng.below(6), a: r.rng.f(-3.0, 3.0), w: r.rng.f(0.2, 4.0), s: r.rng.f(-1.0, 1.0) };
                let mut pool = vec![0.0, 1.0, -1.0, 0.5, 2.0, std::f64::consts::PI, -2.0, 1e-3];
                pool.extend(r.lits_f.iter().copied().filter(|x| x.abs() < 10.0));
                let a = if r.rng.bool() { *r.rng.pick(&pool) } else { r.rng.f(-3.0, 3.0) };
                let b = match r.rng.below(6) { 0 => a, 1 => *r.rng.pick(&pool), 2 => a + 1e-3, _ => r.rng.f(-3.0, 3.0) };
                r.case("parameters of a sampling", format!("{:?}, range ({:?}, {:?}), tolerance {:?}", g, a, b, tol), || {
                    let us = utils::parameter_division(&g, (a, b), tol);
                    division(&g, (a, b), tol, &us)?;
                    if g.kind < 2 { ensure(us.len() == 2, || format!("a straight segment has {} parameters: {:?}", us.len(), us))?; }
                    for _ in 0..3 {
                        let pts = CurveSegment { curve: g, parameter_range: (a, b), tolerance: tol, parameter_division: 4 }.get_points();
                        let us: Vec<f64> = pts.iter().map(|p| p.x).collect();
                        division(&g, (a, b), tol, &us)?;
                        if g.kind < 2 { ensure(us.len() == 2, || format!("a straight segment has {} samples: {:?}", us.len(), pts))?; }
                        for p in &pts { ensure(*p == g.get_point(p.x), || format!("sample {:?} is not a point of the curve", p))?; }
                    }
                    Ok(())
                });
            }
            1 => {
                // loops of straight edges with repeated points, closing duplicates and loops of one or no point
                let m = r.rng.below(8);
                let mut pts: Vec<Point3> = vec![org(r)];
                let (x, y) = { let (a, b) = r.rng.frame(); (a, b) };
                for _ in 0..m { let p = match r.rng.below(6) { 0 => *pts.last().unwrap(), 1 => *pts.last().unwrap() + x * 5e-5, 2 => *pts.last().unwrap() + y * 1e-3, 3 => pts[0], _ => r.rng.p3() }; pts.push(p); }
                if r.rng.bool() { pts.push(pts[0]); }
                if r.rng.below(3) == 0 { pts.push(pts[0]); }
                if r.rng.below(4) == 0 { pts.push(pts[0] + x * 1e-4); }
                let none = r.rng.below(12) == 0;
                if none { pts.truncate(1); }
                r.case("polygon of straight edges", format!("edges through {:?}", pts), || {
                    let mut all = vec![];
                    let edges: Vec<_> = pts.windows(2).map(|w| {
                        let d = w[1] - w[0]; let l = d.length();
                        let dir = if l > 0.0 { d / l } else { x };
                        let s = seg(Box::new(Line { origin: w[0], direction: dir }), (0.0, l), tol);
                        all.push(s.curve.get_point(0.0)); all.push(s.curve.get_point(l));
                        s
                    }).collect();
                    let got = EdgeLoop { edges }.to_polygon();
                    let want = reference(&all);
                    ensure(got == want, || format!("polygon {:?}, the edges' samples without consecutive and closing duplicates are {:?}", got, want))?;
                    cyclic(&got)
                });
            }
            _ => {
                // closed loops of curved and straight edges
                let (a, d) = r.rng.frame();
                let c = Circle { center: org(r), radius: radius(r), axis: a, ref_dir: d };
                let t0 = angle(r); let nn = r.rng.range(1, 4);
                let step = std::f64::consts::TAU / nn as f64 * if r.rng.bool() { 1.0 } else { -1.0 };
                let chord: Vec<bool> = (0..nn).map(|_| nn > 2 && r.rng.below(3) == 0).collect();
                let tol = tol * c.radius;
                r.case("polygon of arcs", format!("{:?}, from {:?} by {:?} in {} edges, chords {:?}, tolerance {:?}", c, t0, step, nn, chord, tol), || {
                    let mut edges = vec![];
                    for i in 0..nn {
                        let (u, v) = (t0 + step * i as f64, t0 + step * (i + 1) as f64);
                        let (p, q) = (c.get_point(u), c.get_point(v));
                        if chord[i] { edges.push(seg(Box::new(Line { origin: p, direction: (q - p).normalize() }), (0.0, (q - p).length()), tol)); }
                        else { edges.push(seg(Box::new(Circle { center: c.center, radius: c.radius, axis: c.axis, ref_dir: c.ref_dir }), (u, v), tol)); }
                    }
                    let got = EdgeLoop { edges }.to_polygon();
                    cyclic(&got)?;
                    if c.radius > 0.01 && nn > 1 {
                        // the corners appear in order
                        let mut at = 0;
                        for i in 0..nn {
                            let p = c.get_point(t0 + step * i as f64);
                            let f = (at..got.len()).find(|&j| got[j].distance(p) <= 1e-3);
                            ensure(f.is_some(), || format!("corner {} {:?} does not follow the corners before it in {:?}", i, p, got))?;
                            at = f.unwrap() + 1;
                        }
                        // in the loop's direction: every vertex is further round than the one before it
                        let b = a.cross(d);
                        let ang: Vec<f64> = got.iter().map(|p| { let q = *p - c.center; q.dot(b).atan2(q.dot(d)) }).collect();
                        let mut total = 0.0;
                        for i in 0..ang.len() { let x = (ang[(i + 1) % ang.len()] - ang[i]).rem_euclid(std::f64::consts::TAU); let x = if step < 0.0 { std::f64::consts::TAU - x } else { x }; total += x; }
                        ensure((total - std::f64::consts::TAU).abs() < 1e-3, || format!("the vertices do not go once around: {:?} in all, {:?}", total, got))?;
                    }
                    Ok(())
                });
            }
        }
    }
}
