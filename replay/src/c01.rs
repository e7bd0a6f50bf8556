//! C01: Bezier curves and surfaces evaluate to their Bernstein form.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::{BezierCurve, Curve};
use geom3d::surface::{BezierSurface, Surface};
use geom3d::*;

fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r
}
pub fn bernstein_ref(n: usize, k: usize, u: f64) -> f64 {
    // n: degree
    binom(n, k) * u.powi(k as i32) * (1.0 - u).powi((n - k) as i32)
}
fn params(r: &mut Run) -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, -0.5, 1.5, 2.0, -1.0, 1e-9, 1.0 - 1e-9];
    for x in r.lits_f.clone() {
        if x.abs() <= 2.0 {
            v.push(x);
        }
    }
    for _ in 0..4 {
        let x = r.rng.unit();
        v.push(x);
    }
    v
}
pub fn run(r: &mut Run) {
    let maxn = r.n(14, 24);
    for n in 1..=maxn {
        let us = params(r);
        for u in us {
            let pts: Vec<Point3> = (0..n).map(|_| r.rng.p3()).collect();
            let mag: f64 = (0..n).map(|k| bernstein_ref(n - 1, k, u).abs()).sum::<f64>() * 300.0;
            let d = format!("control_points={:?} u={:?}", pts, u);
            let p2 = pts.clone();
            r.case("bezier curve point", d, move || {
                let c = BezierCurve { control_points: p2.clone() };
                let got = c.get_point(u);
                let mut want = Point3::ZERO;
                for k in 0..n {
                    want += p2[k] * bernstein_ref(n - 1, k, u);
                }
                ensure(near3(got, want, 1e-9 * (1.0 + mag)), || format!("got {:?}, Bernstein form gives {:?}", got, want))
            });
            if (0.0..=1.0).contains(&u) {
                let ws: Vec<f64> = weights(r, n);
                let d = format!("points={:?} weights={:?} u={:?}", pts, ws, u);
                r.case("rational bezier curve point", d, || {
                    let c = BezierCurve { control_points: (0..n).map(|k| (pts[k] * ws[k]).extend(ws[k])).collect::<Vec<Point4>>() };
                    let got = c.get_point(u);
                    let (mut want, mut w) = (Point3::ZERO, 0.0);
                    for k in 0..n {
                        let b = bernstein_ref(n - 1, k, u) * ws[k];
                        want += pts[k] * b;
                        w += b;
                    }
                    let want = want / w;
                    ensure(near3(got, want, 1e-7), || format!("got {:?}, weighted form gives {:?}", got, want))
                });
            }
        }
    }
    let maxd = r.n(6, 9);
    for n in 2..=maxd {
        for m in 2..=maxd {
            for q in 0..r.n(6, 20) {
                let (u, v) = match q {
                    0 => (0.0, 0.0),
                    1 => (1.0, 0.0),
                    2 => (0.0, 1.0),
                    3 => (1.0, 1.0),
                    _ => (r.rng.f(-0.2, 1.2), r.rng.f(-0.2, 1.2)),
                };
                let pts: Vec<Point3> = (0..n * m).map(|_| r.rng.p3()).collect();
                let ws: Vec<f64> = weights(r, n * m);
                let mag: f64 = (0..n).map(|k| bernstein_ref(n - 1, k, u).abs()).sum::<f64>() * (0..m).map(|k| bernstein_ref(m - 1, k, v).abs()).sum::<f64>() * 300.0;
                let d = format!("{}x{} grid {:?} u={:?} v={:?}", n, m, pts, u, v);
                let p2 = pts.clone();
                r.case("bezier surface point", d, move || {
                    let s = BezierSurface::new(Grid::from_vec(p2.clone(), m));
                    let got = s.get_point(u, v);
                    let mut want = Point3::ZERO;
                    for i in 0..n {
                        for j in 0..m {
                            want += p2[i * m + j] * (bernstein_ref(n - 1, i, u) * bernstein_ref(m - 1, j, v));
                        }
                    }
                    ensure(near3(got, want, 1e-9 * (1.0 + mag)), || format!("got {:?}, tensor form gives {:?}", got, want))
                });
                if u >= 0.0 && u <= 1.0 && v >= 0.0 && v <= 1.0 {
                    let d = format!("{}x{} grid {:?} weights={:?} u={:?} v={:?}", n, m, pts, ws, u, v);
                    r.case("rational bezier surface point", d, move || {
                        let s = BezierSurface::new(Grid::from_vec((0..n * m).map(|k| (pts[k] * ws[k]).extend(ws[k])).collect::<Vec<Point4>>(), m));
                        let got = s.get_point(u, v);
                        let (mut want, mut w) = (Point3::ZERO, 0.0);
                        for i in 0..n {
                            for j in 0..m {
                                let b = bernstein_ref(n - 1, i, u) * bernstein_ref(m - 1, j, v) * ws[i * m + j];
                                want += pts[i * m + j] * b;
                                w += b;
                            }
                        }
                        let want = want / w;
                        ensure(near3(got, want, 1e-7), || format!("got {:?}, weighted form gives {:?}", got, want))
                    });
                }
            }
        }
    }
}
