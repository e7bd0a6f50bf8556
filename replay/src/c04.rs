//! C04: knot insertion, clamping, splitting and Bezier decomposition keep the curve.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::*;

const TOL: f64 = 1e-7;
fn mult(t: &[f64], x: f64) -> usize { t.iter().filter(|y| **y == x).count() }
fn consistent(b: &BSplineCurve<Point3>, p: usize, what: &str) -> Result<(), String> {
    let t: &Vec<f64> = &b.knots;
    ensure(b.degree as usize == p, || format!("{}: degree {} instead of {}", what, b.degree, p))?;
    ensure(t.windows(2).all(|w| w[0] <= w[1]), || format!("{}: knots are not sorted: {:?}", what, t))?;
    ensure(b.control_points.len() + p + 1 == t.len(), || format!("{}: {} control points, {} knots, degree {}", what, b.control_points.len(), t.len(), p))
}
/// b traces the curve (c,t,p) at the parameters
fn traces(b: &BSplineCurve<Point3>, c: &[Point3], t: &[f64], p: usize, us: &[f64], what: &str) -> Result<(), String> {
    for &u in us {
        let (got, want) = (b.get_point(u), spline3(c, t, p, u));
        ensure(near3(got, want, TOL), || format!("{}: at u={:?} the point is {:?}, originally {:?}", what, u, got, want))?;
    }
    Ok(())
}
fn casteljau(c: &[Point3], u: f64) -> Point3 {
    let mut v = c.to_vec();
    while v.len() > 1 { v = v.windows(2).map(|w| w[0] * (1.0 - u) + w[1] * u).collect(); }
    v[0]
}
pub fn run(r: &mut Run) {
    for _round in 0..r.n(40, 900) {
        for p in 0..=r.n(5, 7) {
            for n in p + 1..=p + r.n(5, 8) {
                if !r.time_left() { return; }
                let t = knots(&mut r.rng, n, p);
                let c = pts(&mut r.rng, n);
                let (a, e) = (t[0], t[t.len() - 1]);
                let us = params_in(&mut r.rng, &t, a, e, 5);
                let b = BSplineCurve { control_points: c.clone(), knots: t.clone().into(), degree: p as u8 };
                let desc = format!("degree={} knots={:?} control_points={:?}", p, t, c);
                // a history of insertions: fresh values, existing knots, repeated ones, the ends
                let mut xs = vec![];
                for _ in 0..1 + r.rng.below(5) {
                    let k = r.rng.below(8);
                    let x = if k < 3 { *r.rng.pick(&t) } else if k == 3 && !xs.is_empty() { *r.rng.pick(&xs) } else if k == 4 { *r.rng.pick(&[a, e]) } else { r.rng.f(a, e) };
                    xs.push(x);
                }
                for &l in &r.lits_f { if l >= a && l <= e && r.rng.below(6) == 0 { xs.push(l); } }
                let (b2, c2, t2, us2, xs2) = (b.clone(), c.clone(), t.clone(), us.clone(), xs.clone());
                r.case("insertion", format!("{} inserting {:?}", desc, xs), move || {
                    let mut b = b2;
                    let mut want = t2.clone();
                    for x in xs2 {
                        b.add_knot(x);
                        want.push(x);
                        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        consistent(&b, p, "after the insertion")?;
                        ensure(*b.knots == want, || format!("knots {:?}, expected {:?}", *b.knots, want))?;
                        traces(&b, &c2, &t2, p, &us2, &format!("after inserting {:?}", x))?;
                    }
                    Ok(())
                });
                let (b2, c2, t2, us2) = (b.clone(), c.clone(), t.clone(), us.clone());
                r.case("clamp", desc.clone(), move || {
                    let mut b = b2;
                    b.clamp();
                    consistent(&b, p, "clamped")?;
                    for x in [a, e] {
                        ensure(mult(&b.knots, x) == (p + 1).max(mult(&t2, x)), || format!("end knot {:?} has multiplicity {}: {:?}", x, mult(&b.knots, x), *b.knots))?;
                    }
                    let inner = |t: &[f64]| t.iter().copied().filter(|x| *x != a && *x != e).collect::<Vec<_>>();
                    ensure(inner(&b.knots) == inner(&t2), || format!("interior knots changed: {:?}", *b.knots))?;
                    traces(&b, &c2, &t2, p, &us2, "clamped")?;
                    let k = b.knots.len();
                    b.clamp();
                    ensure(b.knots.len() == k, || "clamping again changes the knots".into())
                });
                // split places
                let mut xs = vec![r.rng.f(a, e), r.rng.f(a, e), (a + e) / 2.0];
                for x in &t { if *x > a && *x < e { xs.push(*x); if r.rng.below(4) == 0 { xs.push(*x + 5e-8); } } }
                for &l in &r.lits_f { if l > a && l < e && r.rng.below(6) == 0 { xs.push(l); } }
                for x in xs {
                    if !(x > a + 1e-6 && x < e - 1e-6) { continue; }
                    let (b2, c2, t2, us2) = (b.clone(), c.clone(), t.clone(), us.clone());
                    r.case("split", format!("{} splitting at {:?}", desc, x), move || {
                        let mut f = b2;
                        // the place: the knot just before when it is within the tolerance
                        let k = t2.iter().copied().filter(|y| *y <= x).fold(a, f64::max);
                        let x = if (x - k).abs() <= 1e-7 { k } else { x };
                        let s = f.split(x);
                        consistent(&f, p, "first part")?;
                        consistent(&s, p, "second part")?;
                        let ends = [f.knots[0], f.knots[f.knots.len() - 1], s.knots[0], s.knots[s.knots.len() - 1]];
                        ensure(ends == [a, x, x, e], || format!("the parts have the domains {:?}", ends))?;
                        ensure(mult(&f.knots, x) >= p + 1 && mult(&s.knots, x) >= p + 1, || format!("the parts are not clamped at the cut: {:?} {:?}", *f.knots, *s.knots))?;
                        let (mut u0, mut u1): (Vec<f64>, Vec<f64>) = (us2.iter().copied().filter(|u| *u < x).collect(), us2.iter().copied().filter(|u| *u >= x).collect());
                        u1.push(x);
                        if mult(&t2, x) <= p { u0.push(x); }
                        traces(&f, &c2, &t2, p, &u0, "first part")?;
                        traces(&s, &c2, &t2, p, &u1, "second part")
                    });
                }
                // a chain of splits and insertions
                let (b2, c2, t2, us2) = (b.clone(), c.clone(), t.clone(), us.clone());
                let cuts: Vec<f64> = { let mut v: Vec<f64> = (0..3).map(|_| r.rng.f(a + 1e-3 * (e - a), e - 1e-3 * (e - a))).collect(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v };
                if cuts[1] - cuts[0] > 1e-5 && cuts[2] - cuts[1] > 1e-5 && cuts.iter().all(|x| t.iter().all(|k| (x - k).abs() > 1e-6)) {
                    r.case("chain of splits", format!("{} cut at {:?}", desc, cuts), move || {
                        let mut rest = b2;
                        let mut parts = vec![];
                        for &x in cuts.iter().rev() { let s = rest.split(x); parts.push((s, x)); }
                        parts.push((rest, a));
                        let mut hi = e;
                        for (s, lo) in parts {
                            consistent(&s, p, "part")?;
                            let us: Vec<f64> = us2.iter().copied().filter(|u| *u >= lo && *u < hi).collect();
                            traces(&s, &c2, &t2, p, &us, &format!("part from {:?}", lo))?;
                            hi = lo;
                        }
                        Ok(())
                    });
                }
                let (b2, c2, t2, us2) = (b.clone(), c.clone(), t.clone(), us.clone());
                r.case("decomposition", desc, move || {
                    let mut d = t2.clone();
                    d.dedup();
                    let pieces = b2.to_piecewise_bezier();
                    ensure(pieces.len() == d.len() - 1, || format!("{} pieces for {} spans", pieces.len(), d.len() - 1))?;
                    for (i, w) in d.windows(2).enumerate() {
                        let cp = &pieces[i].control_points;
                        ensure(cp.len() == p + 1, || format!("piece {} has {} control points", i, cp.len()))?;
                        for &u in us2.iter().filter(|u| **u >= w[0] && (**u < w[1] || (**u == w[1] && (i + 2 == d.len() || mult(&t2, w[1]) <= p)))) {
                            let s = (u - w[0]) / (w[1] - w[0]);
                            let (got, want) = (casteljau(cp, s), spline3(&c2, &t2, p, u));
                            ensure(near3(got, want, TOL), || format!("piece {} at {:?} (u={:?}) is {:?}, the curve {:?}", i, s, u, got, want))?;
                            let got = BezierCurve { control_points: cp.clone() }.get_point(s);
                            ensure(near3(got, want, TOL), || format!("piece {} evaluates to {:?} at u={:?}, the curve to {:?}", i, got, u, want))?;
                        }
                        if i + 2 < d.len() && mult(&t2, w[1]) <= p {
                            ensure(near3(cp[p], pieces[i + 1].control_points[0], TOL), || format!("pieces {} and {} are not joined", i, i + 1))?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
