//! C03: derivative curves/surfaces and spline surface normals against the exact derivatives.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::surface::{BSplineSurface, Surface};
use geom3d::*;

/// slope of the i-th basis function
fn slope(t: &[f64], i: usize, p: usize, u: f64) -> f64 {
    if p == 0 { return 0.0; }
    let q = |a: f64, d: f64| if d == 0.0 { 0.0 } else { a / d };
    p as f64 * (q(cox(t, i, p - 1, u), t[i + p] - t[i]) - q(cox(t, i + 1, p - 1, u), t[i + p + 1] - t[i + 1]))
}
/// slope of the slope
fn slope2(t: &[f64], i: usize, p: usize, u: f64) -> f64 {
    if p < 2 { return 0.0; }
    let q = |a: f64, d: f64| if d == 0.0 { 0.0 } else { a / d };
    p as f64 * (q(slope(t, i, p - 1, u), t[i + p] - t[i]) - q(slope(t, i + 1, p - 1, u), t[i + p + 1] - t[i + 1]))
}
fn in_der_dom(t: &[f64], n: usize, p: usize, u: f64) -> bool {
    t[p] <= u && (u < t[n] || (u == t[n] && t[n] == t[t.len() - 1]))
}
fn comb(n: usize, k: usize) -> f64 { (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64) }
fn bern(n: usize, k: i64, u: f64) -> f64 {
    if k < 0 || k > n as i64 { 0.0 } else { comb(n, k as usize) * u.powi(k as i32) * (1.0 - u).powi((n as i64 - k) as i32) }
}
pub fn run(r: &mut Run) {
    // Bezier
    for n in 2..=r.n(9, 13) {
        for _ in 0..r.n(4, 10) {
            if !r.time_left() { return; }
            let c = pts(&mut r.rng, n);
            for u in [0.0, 0.25, 0.5, 0.7, 1.0, r.rng.unit()] {
                let c2 = c.clone();
                r.case("Bezier derivative", format!("control_points={:?} u={:?}", c, u), move || {
                    let d = BezierCurve { control_points: c2.clone() }.derivative();
                    ensure(d.control_points.len() == n - 1, || format!("derivative has {} control points", d.control_points.len()))?;
                    let mut want = Point3::ZERO;
                    for k in 0..n { want += c2[k] * ((n - 1) as f64 * (bern(n - 2, k as i64 - 1, u) - bern(n - 2, k as i64, u))); }
                    let got = d.get_point(u);
                    ensure(near3(got, want, 1e-8), || format!("derivative curve gives {:?}, exact slope {:?}", got, want))?;
                    if n > 2 {
                        let dd = d.derivative().get_point(u);
                        let mut w = Point3::ZERO;
                        for k in 0..n - 2 { w += (c2[k + 2] - c2[k + 1] * 2.0 + c2[k]) * (((n - 1) * (n - 2)) as f64 * bern(n - 3, k as i64, u)); }
                        ensure(near3(dd, w, 1e-8), || format!("second derivative gives {:?}, exact {:?}", dd, w))?;
                    }
                    Ok(())
                });
            }
            // rational control points: the derivative of the homogeneous curve
            let ws: Vec<f64> = (0..n).map(|_| *r.rng.pick(&[1.0, 0.5, 2.0])).collect();
            let c2 = c.clone();
            r.case("Bezier derivative (homogeneous)", format!("points={:?} weights={:?}", c, ws), move || {
                let h: Vec<Point4> = (0..n).map(|i| c2[i].extend(ws[i])).collect();
                let d = BezierCurve { control_points: h.clone() }.derivative();
                ensure(d.control_points.len() == n - 1, || "wrong number of control points".into())?;
                for i in 0..n - 1 {
                    let w = (h[i + 1] - h[i]) * (n - 1) as f64;
                    ensure((d.control_points[i] - w).length() < 1e-9, || format!("control point {}: {:?}, expected {:?}", i, d.control_points[i], w))?;
                }
                Ok(())
            });
        }
    }
    // B-spline curves
    let ns = sizes(r, 2, r.n(11, 16));
    for &n in &ns {
        for p in 1..=(n - 1).min(r.n(5, 7)) {
            if n > 12 && p > 3 { continue; }
            for _ in 0..r.n(5, 12) {
                if !r.time_left() { return; }
                let t = knots(&mut r.rng, n, p);
                let c = pts(&mut r.rng, n);
                let us: Vec<f64> = params_in(&mut r.rng, &t, t[p], t[n], 3).into_iter().filter(|u| in_der_dom(&t, n, p, *u)).collect();
                for u in us {
                    let (t2, c2) = (t.clone(), c.clone());
                    r.case("spline derivative", format!("degree={} knots={:?} control_points={:?} u={:?}", p, t, c, u), move || {
                        let s = BSplineCurve { control_points: c2.clone(), knots: KnotVector::new(t2.clone()), degree: p as u8 };
                        let d = s.derivative();
                        ensure(d.degree as usize == p - 1 && d.control_points.len() == n - 1, || format!("degree {} with {} control points", d.degree, d.control_points.len()))?;
                        let k: &Vec<f64> = &d.knots;
                        ensure(k[..] == t2[1..t2.len() - 1], || format!("knots {:?}, expected the inner ones of {:?}", k, t2))?;
                        let mut want = Point3::ZERO;
                        for i in 0..n { want += c2[i] * slope(&t2, i, p, u); }
                        let got = d.get_point(u);
                        ensure(near3(got, want, 1e-7), || format!("derivative curve gives {:?}, exact slope {:?}", got, want))?;
                        if p >= 2 && in_der_dom(&t2[1..t2.len() - 1], n - 1, p - 1, u) {
                            let mut w = Point3::ZERO;
                            for i in 0..n { w += c2[i] * slope2(&t2, i, p, u); }
                            let dd = d.derivative().get_point(u);
                            ensure(near3(dd, w, 1e-6), || format!("second derivative gives {:?}, exact {:?}", dd, w))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // surfaces
    let md = r.n(6, 9);
    for n in 1..=md {
        for m in 1..=md {
            for rep in 0..r.n(3, 6) {
                if !r.time_left() { return; }
                let (p, q) = (if rep == 0 { 0 } else { r.rng.below(n.min(4)) }, if rep == 1 { 0 } else { r.rng.below(m.min(4)) });
                let (tu, tv) = (knots(&mut r.rng, n, p), knots(&mut r.rng, m, q));
                let c = pts(&mut r.rng, n * m);
                let us: Vec<f64> = params_in(&mut r.rng, &tu, tu[p], tu[n], 2).into_iter().filter(|u| in_der_dom(&tu, n, p, *u)).collect();
                let vs: Vec<f64> = params_in(&mut r.rng, &tv, tv[q], tv[m], 2).into_iter().filter(|v| in_der_dom(&tv, m, q, *v)).collect();
                let mut ps = vec![];
                for _ in 0..8 { ps.push(Point2::new(*r.rng.pick(&us), *r.rng.pick(&vs))); }
                let (tu2, tv2, c2, ps2) = (tu.clone(), tv.clone(), c.clone(), ps.clone());
                r.case("spline surface derivatives and normals", format!("{}x{} degrees ({},{}) knots {:?} {:?} net {:?} params {:?}", n, m, p, q, tu, tv, c, ps), move || {
                    let s = BSplineSurface::new(Grid::from_vec(c2.clone(), m), (KnotVector::new(tu2.clone()), KnotVector::new(tv2.clone())), (p, q));
                    let (du, dv) = (s.derivative_u(), s.derivative_v());
                    let exact = |u: f64, v: f64| {
                        let (mut a, mut b) = (Point3::ZERO, Point3::ZERO);
                        for i in 0..n { for j in 0..m {
                            a += c2[i * m + j] * (slope(&tu2, i, p, u) * cox(&tv2, j, q, v));
                            b += c2[i * m + j] * (cox(&tu2, i, p, u) * slope(&tv2, j, q, v));
                        } }
                        (a, b)
                    };
                    for &x in &ps2 {
                        let (a, b) = exact(x.x, x.y);
                        if p >= 1 { let g = du.get_point(x.x, x.y); ensure(near3(g, a, 1e-7), || format!("u-derivative at {:?} is {:?}, exact {:?}", x, g, a))?; }
                        else { ensure(du.get_point(0.3, 0.6).length() == 0.0, || "u-derivative of a surface of u-degree 0 is not zero".into())?; }
                        if q >= 1 { let g = dv.get_point(x.x, x.y); ensure(near3(g, b, 1e-7), || format!("v-derivative at {:?} is {:?}, exact {:?}", x, g, b))?; }
                        else { ensure(dv.get_point(0.3, 0.6).length() == 0.0, || "v-derivative of a surface of v-degree 0 is not zero".into())?; }
                    }
                    if p >= 1 && q >= 1 {
                        let ns = s.get_normals(&ps2);
                        ensure(ns.len() == ps2.len(), || format!("{} normals for {} parameters", ns.len(), ps2.len()))?;
                        for (k, &x) in ps2.iter().enumerate() {
                            let (a, b) = exact(x.x, x.y);
                            let cr = a.cross(b);
                            if cr.length() > 1e-4 * (1.0 + a.length() * b.length()) {
                                let w = cr / cr.length();
                                ensure((ns[k] - w).length() < 1e-5, || format!("normal {} at {:?} is {:?}, expected {:?}", k, x, ns[k], w))?;
                            }
                        }
                        ensure(s.get_normals(&[]).is_empty(), || "normals for no parameters".into())?;
                    }
                    Ok(())
                });
            }
        }
    }
}
