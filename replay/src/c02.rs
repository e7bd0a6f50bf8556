//! C02: B-spline evaluation against the Cox-de Boor definition.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::{BSplineCurve, Curve};
use geom3d::surface::{BSplineSurface, Surface};
use geom3d::*;

pub fn run(r: &mut Run) {
    let ns = sizes(r, 1, r.n(11, 16));
    for &n in &ns {
        for p in 0..=(n - 1).min(r.n(5, 8)) {
            if n > 12 && p > 3 { continue; }
            for _ in 0..r.n(5, 12) {
                if !r.time_left() { return; }
                let t = knots(&mut r.rng, n, p);
                let c = pts(&mut r.rng, n);
                let ws: Vec<f64> = weights(r, n);
                for u in params_in(&mut r.rng, &t, t[p], t[n], 3) {
                    let (t2, c2) = (t.clone(), c.clone());
                    r.case("spline curve point", format!("degree={} knots={:?} control_points={:?} u={:?}", p, t, c, u), move || {
                        let s = BSplineCurve { control_points: c2.clone(), knots: KnotVector::new(t2.clone()), degree: p as u8 };
                        let (got, want) = (s.get_point(u), spline3(&c2, &t2, p, u));
                        ensure(near3(got, want, 1e-8), || format!("got {:?}, Cox-de Boor gives {:?}", got, want))
                    });
                    let (t2, c2, w2) = (t.clone(), c.clone(), ws.clone());
                    r.case("rational spline curve point", format!("degree={} knots={:?} points={:?} weights={:?} u={:?}", p, t, c, ws, u), move || {
                        let s = BSplineCurve { control_points: (0..n).map(|i| (c2[i] * w2[i]).extend(w2[i])).collect::<Vec<Point4>>(), knots: KnotVector::new(t2.clone()), degree: p as u8 };
                        let b = cox_all(&t2, p, u);
                        let (mut x, mut w) = (Point3::ZERO, 0.0);
                        for i in 0..n {
                            x += c2[i] * (b[i] * w2[i]);
                            w += b[i] * w2[i];
                        }
                        let (got, want) = (s.get_point(u), x / w);
                        ensure(near3(got, want, 1e-7), || format!("got {:?}, weighted form gives {:?}", got, want))
                    });
                    let t2 = t.clone();
                    r.case("basis functions", format!("degree={} knots={:?} u={:?}", p, t, u), move || {
                        let got = KnotVector::new(t2.clone()).bspline_basis(p, u);
                        let want = cox_all(&t2, p, u);
                        ensure(got.len() == n && got.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-9), || format!("got {:?}, Cox-de Boor gives {:?}", got, want))
                    });
                }
            }
        }
    }
    let md = r.n(6, 9);
    for n in 1..=md {
        for m in 1..=md {
            for _ in 0..r.n(2, 5) {
                if !r.time_left() { return; }
                let (p, q) = (r.rng.below(n.min(4)), r.rng.below(m.min(4)));
                let (tu, tv) = (knots(&mut r.rng, n, p), knots(&mut r.rng, m, q));
                let c = pts(&mut r.rng, n * m);
                let ws: Vec<f64> = weights(r, n * m);
                let us = params_in(&mut r.rng, &tu, tu[p], tu[n], 1);
                let vs = params_in(&mut r.rng, &tv, tv[q], tv[m], 1);
                for k in 0..8 {
                    let (u, v) = if k == 0 { (tu[p], tv[q]) } else if k == 1 { (tu[n], tv[m]) } else if k == 2 { (tu[p], tv[m]) } else { (*r.rng.pick(&us), *r.rng.pick(&vs)) };
                    let (tu2, tv2, c2) = (tu.clone(), tv.clone(), c.clone());
                    r.case("spline surface point", format!("{}x{} degrees ({},{}) knots {:?} {:?} net {:?} u={:?} v={:?}", n, m, p, q, tu, tv, c, u, v), move || {
                        let s = BSplineSurface::new(Grid::from_vec(c2.clone(), m), (KnotVector::new(tu2.clone()), KnotVector::new(tv2.clone())), (p, q));
                        let (got, want) = (s.get_point(u, v), surf3(&c2, m, &tu2, &tv2, p, q, u, v));
                        ensure(near3(got, want, 1e-8), || format!("got {:?}, tensor form gives {:?}", got, want))
                    });
                    let (tu2, tv2, c2, w2) = (tu.clone(), tv.clone(), c.clone(), ws.clone());
                    r.case("rational spline surface point", format!("{}x{} degrees ({},{}) knots {:?} {:?} net {:?} weights {:?} u={:?} v={:?}", n, m, p, q, tu, tv, c, ws, u, v), move || {
                        let s = BSplineSurface::new(Grid::from_vec((0..n * m).map(|i| (c2[i] * w2[i]).extend(w2[i])).collect::<Vec<Point4>>(), m), (KnotVector::new(tu2.clone()), KnotVector::new(tv2.clone())), (p, q));
                        let (bu, bv) = (cox_all(&tu2, p, u), cox_all(&tv2, q, v));
                        let (mut x, mut w) = (Point3::ZERO, 0.0);
                        for i in 0..n * m {
                            let b = bu[i / m] * bv[i % m] * w2[i];
                            x += c2[i] * b;
                            w += b;
                        }
                        let (got, want) = (s.get_point(u, v), x / w);
                        ensure(near3(got, want, 1e-7), || format!("got {:?}, weighted form gives {:?}", got, want))
                    });
                }
            }
            // uniform construction
            for p in 0..n.min(4) {
                for q in 0..m.min(4) {
                    let c = pts(&mut r.rng, n * m);
                    let (u, v) = (r.rng.unit(), r.rng.unit());
                    r.case("uniform clamped surface", format!("{}x{} degrees ({},{}) net {:?} u={:?} v={:?}", n, m, p, q, c, u, v), move || {
                        let s = BSplineSurface::uniform_clamped(Grid::from_vec(c.clone(), m), (p, q));
                        let mk = |n: usize, p: usize| {
                            let mut t = vec![0.0; p + 1];
                            t.extend((1..n - p).map(|i| i as f64 / (n - p) as f64));
                            t.extend(vec![1.0; p + 1]);
                            t
                        };
                        let (got, want) = (s.get_point(u, v), surf3(&c, m, &mk(n, p), &mk(m, q), p, q, u, v));
                        ensure(near3(got, want, 1e-7), || format!("got {:?}, tensor form gives {:?}", got, want))?;
                        for (u, v, k) in [(0.0, 0.0, 0), (0.0, 1.0, m - 1), (1.0, 0.0, (n - 1) * m), (1.0, 1.0, n * m - 1)] {
                            let g = s.get_point(u, v);
                            ensure(near3(g, c[k], 1e-9), || format!("corner ({},{}) is {:?}, expected control point {:?}", u, v, g, c[k]))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
