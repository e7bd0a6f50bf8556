//! C19: nearest-point searches and parameter refinement stay in range and are optimal.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;

/// polynomial curve with arbitrary coefficients: value, derivative and second derivative
#[derive(Debug, Clone)]
struct Poly(Vec<Point3>);
impl Curve for Poly {
    fn get_point(&self, u: Float) -> Point3 {
        self.0.iter().rev().fold(Point3::ZERO, |a, c| a * u + *c)
    }
    fn project(&self, _: Point3) -> Float { 0.0 }
}
impl Poly {
    fn der(&self) -> Poly {
        Poly(self.0.iter().enumerate().skip(1).map(|(k, c)| *c * k as f64).collect())
    }
}
/// a curve only defined on its range: evaluation outside of it is a failure of the caller
#[derive(Debug, Clone)]
struct Guard { lo: f64, hi: f64, c: Poly }
impl Curve for Guard {
    fn get_point(&self, u: Float) -> Point3 {
        assert!(u >= self.lo && u <= self.hi, "evaluated at {} outside of [{}, {}]", u, self.lo, self.hi);
        self.c.get_point(u)
    }
    fn project(&self, _: Point3) -> Float { 0.0 }
}
fn within(x: f64, r: (f64, f64)) -> bool { x >= r.0.min(r.1) && x <= r.0.max(r.1) }

pub fn run(r: &mut Run) {
    let mut ns = sizes(r, 1, 60);
    ns.extend([1, 1, 2, 3, 4, 7]);
    let n = r.n(1500, 20000);
    for k in 0..n {
        if !r.time_left() { return; }
        let (a, b) = match k % 5 { 0 => (r.rng.coord(), r.rng.coord()), 1 => (1.0, 0.0), 2 => (0.0, 1.0), 3 => { let x = r.rng.coord(); (x, x) } _ => (-r.rng.unit(), r.rng.unit()) };
        let x = match r.rng.below(6) { 0 => a, 1 => b, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => (a + b) / 2.0, _ => r.rng.coord() * 3.0 };
        r.case("clamp_in_range", format!("value={:?} range=({:?}, {:?})", x, a, b), move || {
            let got = utils::clamp_in_range(x, (a, b));
            let want = x.max(a.min(b)).min(a.max(b));
            ensure(got == want, || format!("got {:?}, expected {:?}", got, want))
        });
        let t = match r.rng.below(4) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => r.rng.f(-0.5, 1.5) };
        r.case("range_at", format!("range=({:?}, {:?}) ratio={:?}", a, b, t), move || {
            let got = utils::range_at((a, b), t);
            let want = a * (1.0 - t) + b * t;
            ensure((got - want).abs() <= 1e-12 * (a.abs() + b.abs() + (b - a).abs()), || format!("got {:?}, expected {:?}", got, want))
        });
    }
    for k in 0..n {
        if !r.time_left() { return; }
        let len = if k % 4 == 0 { *r.rng.pick(&ns) } else { r.rng.range(1, 9) };
        let s = *r.rng.pick(&[1.0, 1.0, 1e-5, 1e4]);
        // many ties: small lattice
        let lat = r.rng.bool();
        let v: Vec<Point3> = (0..len).map(|_| if lat { Point3::new(r.rng.below(3) as f64, r.rng.below(3) as f64, r.rng.below(2) as f64) * s } else { r.rng.p3() * s }).collect();
        let p = if lat { Point3::new(r.rng.below(5) as f64 * 0.5, r.rng.below(5) as f64 * 0.5, 0.0) * s } else if r.rng.bool() { v[r.rng.below(len)] } else { r.rng.p3() * s };
        let d: Vec<f64> = v.iter().map(|q| (p - *q).length_squared()).collect();
        let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
        let first = d.iter().position(|x| *x == m).unwrap();
        let v2 = v.clone();
        r.case("find_nearest_point", format!("points={:?} p={:?}", v, p), move || {
            let got = utils::find_nearest_point(&v2, p);
            ensure(got == first, || format!("got {}, expected {} (first at minimal distance)", got, first))
        });
        if len >= 2 {
            let v2 = v.clone();
            r.case("Polyline::nearest_vertex", format!("points={:?} p={:?}", v, p), move || {
                let got = Polyline::new(v2).nearest_vertex(p);
                ensure(got == first, || format!("got {}, expected {} (first at minimal distance)", got, first))
            });
        }
        let divs: Vec<usize> = (1..=len).filter(|c| len % c == 0).collect();
        let cols = *r.rng.pick(&divs);
        let v2 = v.clone();
        r.case("find_nearest_point_in_grid", format!("points={:?} cols={} p={:?}", v, cols, p), move || {
            let g = Grid::from_vec(v2, cols);
            let got = utils::find_nearest_point_in_grid(&g, p);
            ensure(got == (first / cols, first % cols), || format!("got {:?}, expected {:?} (first at minimal distance)", got, (first / cols, first % cols)))
        });
        let sign = r.rng.below(4);
        let v2: Vec<Point2> = v.iter().map(|q| Point2::new(match sign { 0 => q.x.abs() + 1.0, 1 => -q.x.abs() - 1.0, _ => q.x }, q.y)).collect();
        r.case("get_min_max_by_key", format!("items={:?}", v2), move || {
            for key in [(|p: &Point2| p.x) as fn(&Point2) -> f64, |p: &Point2| p.y, |p: &Point2| p.x * p.y - 3.0, |p: &Point2| -p.x * p.x] {
                let (lo, hi) = utils::get_min_max_by_key(&v2, key);
                let wl = v2.iter().map(key).fold(f64::INFINITY, f64::min);
                let wh = v2.iter().map(key).fold(f64::NEG_INFINITY, f64::max);
                ensure(lo == wl && hi == wh, || format!("got ({:?}, {:?}), expected ({:?}, {:?})", lo, hi, wl, wh))?;
            }
            Ok(())
        });
    }
    let n = r.n(1500, 15000);
    for k in 0..n {
        if !r.time_left() { return; }
        let deg = r.rng.range(1, 5);
        let c = Poly((0..=deg).map(|_| r.rng.p3()).collect());
        // the second derivative may be wrong on purpose: any curve is accepted
        let (d1, d2) = match k % 3 { 0 => (c.der(), Poly((0..3).map(|_| r.rng.p3()).collect())), 1 => (Poly((0..3).map(|_| r.rng.p3()).collect()), Poly(vec![Point3::ZERO])), _ => (c.der(), c.der().der()) };
        let (a, b) = match r.rng.below(5) { 0 => (0.0, 1.0), 1 => (1.0, 0.0), 2 => (-2.0, -1.5), 3 => (3.0, -3.0), _ => (r.rng.f(-2.0, 2.0), r.rng.f(-2.0, 2.0)) };
        let division = if r.rng.below(4) == 0 { *r.rng.pick(&ns) } else { r.rng.range(1, 20) };
        let trials = *r.rng.pick(&[0, 0, 1, 2, 10, 40]);
        let ps = utils::uniform_divide((a, b), division);
        let hit = r.rng.bool();
        let edge = *r.rng.pick(&[a, b]);
        let out = if (edge == a) == (b >= a) { -1.0 } else { 1.0 };
        let p = if hit { c.get_point(*r.rng.pick(&ps)) } else if r.rng.below(3) == 0 {
            // the foot point lies a little outside of the range
            let t = d1.get_point(edge);
            c.get_point(edge) + t * (out * 10f64.powi(-(r.rng.range(1, 9) as i32))) + t.cross(r.rng.dir()) * r.rng.unit()
        } else if r.rng.bool() { c.get_point(r.rng.f(a.min(b), a.max(b))) + r.rng.dir() * 0.01 } else { r.rng.p3() };
        let (lo, hi) = (a.min(b), a.max(b));
        r.case("find_nearest_parameter", format!("curve={:?} der1={:?} der2={:?} p={:?} range=({:?}, {:?}) division={} trials={}", c, d1, d2, p, a, b, division, trials), move || {
            let g = |c: &Poly| Guard { lo, hi, c: c.clone() };
            let u = utils::find_nearest_parameter(&g(&c), &g(&d1), &g(&d2), p, (a, b), division, trials);
            ensure(within(u, (a, b)), || format!("parameter {:?} outside of the range", u))?;
            let best = ps.iter().map(|x| (c.get_point(*x) - p).length_squared()).fold(f64::INFINITY, f64::min);
            if trials == 0 {
                ensure((c.get_point(u) - p).length_squared() == best, || format!("parameter {:?} is not the nearest sample", u))?;
            }
            if hit {
                ensure((c.get_point(u) - p).length() <= 1e-6, || format!("the point is a sample of the curve, got {:?} at distance {:?}", u, (c.get_point(u) - p).length()))?;
            }
            Ok(())
        });
    }
    let n = r.n(500, 6000);
    for k in 0..n {
        if !r.time_left() { return; }
        let deg = r.rng.range(1, 5);
        let cp = pts(&mut r.rng, deg + 1);
        let p = match r.rng.below(4) { 0 => cp[0], 1 => cp[deg], _ => r.rng.p3() * *r.rng.pick(&[1.0, 20.0]) };
        {
            let cp = cp.clone();
            r.case("BezierCurve::project", format!("control_points={:?} p={:?}", cp, p), move || {
                let c = BezierCurve { control_points: cp.clone() };
                let u = c.project(p);
                ensure((0.0..=1.0).contains(&u), || format!("parameter {:?} outside [0,1]", u))?;
                if p == cp[0] || p == cp[cp.len() - 1] {
                    ensure((c.get_point(u) - p).length() <= 1e-6, || format!("end point projected to {:?} at distance {:?}", u, (c.get_point(u) - p).length()))?;
                }
                Ok(())
            });
        }
        let deg = r.rng.range(1, 4);
        let m = deg + 1 + r.rng.below(6);
        let mut t = clamped_knots(&mut r.rng, m, deg);
        let (sc, sh) = *r.rng.pick(&[(1.0, 0.0), (1.0, 0.0), (3.0, -1.0), (0.5, 2.5), (10.0, 5.0)]);
        for x in t.iter_mut() { *x = *x * sc + sh; }
        let cp = pts(&mut r.rng, m);
        let p = match r.rng.below(4) { 0 => cp[0], 1 => cp[m - 1], _ => r.rng.p3() * *r.rng.pick(&[1.0, 20.0]) };
        let (lo, hi) = (t[0], t[t.len() - 1]);
        {
            let (cp, t) = (cp.clone(), t.clone());
            r.case("BSplineCurve::project", format!("control_points={:?} knots={:?} degree={} p={:?}", cp, t, deg, p), move || {
                let c = BSplineCurve { control_points: cp.clone(), knots: KnotVector::from(t), degree: deg as u8 };
                let u = c.project(p);
                // degree 1 interpolates the knot range with a ratio: allow rounding at the end
                ensure(u >= lo && u <= hi + (hi - lo + hi.abs()) * 1e-15, || format!("parameter {:?} outside [{:?}, {:?}]", u, lo, hi))?;
                if p == cp[0] || p == cp[cp.len() - 1] {
                    ensure((c.get_point(u.min(hi)) - p).length() <= 1e-6, || format!("end point projected to {:?} at distance {:?}", u, (c.get_point(u) - p).length()))?;
                }
                Ok(())
            });
        }
        if k % 3 == 0 {
            let (pu, pv) = (r.rng.range(1, 3), r.rng.range(1, 3));
            let (nu, nv) = (pu + 1 + r.rng.below(3), pv + 1 + r.rng.below(3));
            let mut tu = clamped_knots(&mut r.rng, nu, pu);
            let mut tv = clamped_knots(&mut r.rng, nv, pv);
            let (sc, sh) = *r.rng.pick(&[(1.0, 0.0), (3.0, -1.0), (0.5, 2.5)]);
            for x in tu.iter_mut() { *x = *x * sc + sh; }
            let (sc, sh) = *r.rng.pick(&[(1.0, 0.0), (2.0, -7.0), (0.25, 2.5)]);
            for x in tv.iter_mut() { *x = *x * sc + sh; }
            let style = r.rng.below(5);
            let cps: Vec<Point3> = (0..nu * nv).map(|i| {
                let (a, b) = ((i / nv) as f64, (i % nv) as f64);
                match style {
                    0 => Point3::new(a, b, r.rng.f(-1.0, 1.0)),
                    1 => Point3::new(a, a * a, 0.0),       // does not depend on v: singular system
                    2 => Point3::new(b, 2.0 * b, 1.0),     // does not depend on u
                    3 => Point3::new(a + b, 0.0, 0.0),     // degenerate to a line
                    _ => r.rng.p3(),
                }
            }).collect();
            let mk = { let (cps, tu, tv) = (cps.clone(), tu.clone(), tv.clone()); move || BSplineSurface { control_points: Grid::from_vec(cps.clone(), nv), knots: (KnotVector::from(tu.clone()), KnotVector::from(tv.clone())), degree: (pu as u8, pv as u8) } };
            let (ru, rv) = ((tu[0], tu[tu.len() - 1]), (tv[0], tv[tv.len() - 1]));
            let us = utils::uniform_divide(ru, nu * 4);
            let vs = utils::uniform_divide(rv, nv * 4);
            let s = mk();
            let mut q = vec![];
            for j in 0..5 {
                let (u, v) = (*r.rng.pick(&us), *r.rng.pick(&vs));
                q.push(match j { 0 | 1 => surf3(&cps, nv, &tu, &tv, pu, pv, u, v), 2 => r.rng.p3(), 3 => r.rng.p3() * 30.0, _ => surf3(&cps, nv, &tu, &tv, pu, pv, u, v) + r.rng.dir() * 0.05 });
            }
            let _ = s;
            r.case("BSplineSurface::project_points", format!("control_points={:?} cols={} knots={:?} {:?} degree=({}, {}) points={:?}", cps, nv, tu, tv, pu, pv, q), move || {
                let s = mk();
                let got = s.project_points(&q);
                ensure(got.len() == q.len(), || format!("{} parameters for {} points", got.len(), q.len()))?;
                for (i, w) in got.iter().enumerate() {
                    ensure(within(w.x, ru) && within(w.y, rv), || format!("parameters {:?} of point {} outside of the ranges", w, i))?;
                    if i < 2 {
                        let d = (surf3(&cps, nv, &tu, &tv, pu, pv, w.x, w.y) - q[i]).length();
                        ensure(d <= 1e-3, || format!("point {} is a sample of the surface, got {:?} at distance {:?}", i, w, d))?;
                    }
                }
                ensure(s.project_points(&[]).is_empty(), || "parameters for no points".into())
            });
        }
    }
}
