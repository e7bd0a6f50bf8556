//! shared generators and reference definitions
use crate::fw::*;
use geom3d::*;

/// a non-decreasing knot vector for `n` control points of degree `p`; distinct knots well separated
pub fn knots(r: &mut Rng, n: usize, p: usize) -> Vec<f64> {
    let style = r.below(4);
    let scale = *r.pick(&[1.0, 1.0, 1.0, 0.25, 10.0]);
    let shift = *r.pick(&[0.0, 0.0, 0.0, -3.0, 2.802464183]);
    let inner = n - p - 1; // interior knots
    let mut t = vec![];
    match style {
        // clamped, uniform
        0 => {
            t.extend(std::iter::repeat(0.0).take(p + 1));
            for i in 1..=inner {
                t.push(i as f64 / (inner + 1) as f64);
            }
            t.extend(std::iter::repeat(1.0).take(p + 1));
        }
        // clamped, random interior with repetitions
        1 | 2 => {
            t.extend(std::iter::repeat(0.0).take(p + 1));
            let mut v = vec![];
            while v.len() < inner {
                let x = (1 + r.below(31)) as f64 / 32.0;
                let m = 1 + r.below(p.max(1));
                for _ in 0..m {
                    // multiplicity of an interior knot at most p (at least 1)
                    if v.len() < inner && v.iter().filter(|y| **y == x).count() < p.max(1) {
                        v.push(x);
                    }
                }
            }
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.extend(v);
            t.extend(std::iter::repeat(1.0).take(p + 1));
        }
        // unclamped
        _ => {
            let mut x = 0.0;
            for _ in 0..n + p + 1 {
                t.push(x);
                if r.below(6) != 0 {
                    x += *r.pick(&[0.125, 0.25, 0.5, 1.0]);
                }
            }
            // the domain must not be empty
            if !(t[p] < t[n]) {
                t = (0..n + p + 1).map(|i| i as f64 * 0.25).collect();
            }
            // no knot repeated more often than p+1
            for i in 0..t.len().saturating_sub(p + 1) {
                if t[i] == t[i + p + 1] {
                    t = (0..n + p + 1).map(|i| i as f64 * 0.25).collect();
                    break;
                }
            }
        }
    }
    t.iter().map(|x| x * scale + shift).collect()
}
pub fn clamped_knots(r: &mut Rng, n: usize, p: usize) -> Vec<f64> {
    loop {
        let t = knots(r, n, p);
        if t[0] == t[p] && t[n] == t[n + p] {
            return t;
        }
    }
}
/// parameters worth trying inside [a,b] for the knots t
pub fn params_in(r: &mut Rng, t: &[f64], a: f64, b: f64, extra: usize) -> Vec<f64> {
    let mut v = vec![a, b, (a + b) / 2.0];
    for w in t.windows(2) {
        v.push(w[0]);
        v.push((w[0] + w[1]) / 2.0);
    }
    for f in [0.1, 0.25, 1.0 / 3.0, 0.9, 1e-9, 1.0 - 1e-9, 1e-4] {
        v.push(a + (b - a) * f);
    }
    for _ in 0..extra {
        v.push(r.f(a, b));
    }
    v.retain(|u| *u >= a && *u <= b);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
/// Cox-de Boor, straight from the definition (0/0 = 0, last non-empty span closed)
pub fn cox(t: &[f64], i: usize, k: usize, u: f64) -> f64 {
    let last = t[t.len() - 1];
    if k == 0 {
        return if t[i] < t[i + 1] && t[i] <= u && (u < t[i + 1] || (u == last && t[i + 1] == last)) { 1.0 } else { 0.0 };
    }
    let mut s = 0.0;
    if t[i + k] != t[i] {
        s += (u - t[i]) / (t[i + k] - t[i]) * cox(t, i, k - 1, u);
    }
    if t[i + k + 1] != t[i + 1] {
        s += (t[i + k + 1] - u) / (t[i + k + 1] - t[i + 1]) * cox(t, i + 1, k - 1, u);
    }
    s
}
/// all basis values of degree p at u (dynamic programming over the definition)
pub fn cox_all(t: &[f64], p: usize, u: f64) -> Vec<f64> {
    let last = t[t.len() - 1];
    let mut v: Vec<f64> = (0..t.len() - 1)
        .map(|i| if t[i] < t[i + 1] && t[i] <= u && (u < t[i + 1] || (u >= last && t[i + 1] == last)) { 1.0 } else { 0.0 })
        .collect();
    for k in 1..=p {
        v = (0..t.len() - 1 - k)
            .map(|i| {
                let a = if t[i + k] != t[i] { (u - t[i]) / (t[i + k] - t[i]) * v[i] } else { 0.0 };
                let b = if t[i + k + 1] != t[i + 1] { (t[i + k + 1] - u) / (t[i + k + 1] - t[i + 1]) * v[i + 1] } else { 0.0 };
                a + b
            })
            .collect();
    }
    v
}
pub fn spline3(c: &[Point3], t: &[f64], p: usize, u: f64) -> Point3 {
    let b = cox_all(t, p, u);
    c.iter().zip(b).fold(Point3::ZERO, |s, (c, b)| s + *c * b)
}
pub fn surf3(c: &[Point3], m: usize, tu: &[f64], tv: &[f64], p: usize, q: usize, u: f64, v: f64) -> Point3 {
    let (bu, bv) = (cox_all(tu, p, u), cox_all(tv, q, v));
    let mut s = Point3::ZERO;
    for (i, x) in c.iter().enumerate() {
        s += *x * (bu[i / m] * bv[i % m]);
    }
    s
}
pub fn pts(r: &mut Rng, n: usize) -> Vec<Point3> {
    (0..n).map(|_| r.p3()).collect()
}
pub fn sizes(r: &Run, lo: usize, hi: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (lo..=hi).collect();
    for x in &r.lits_i {
        if *x >= lo && *x <= hi + 20 {
            v.push(*x);
            v.push(*x + 1);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// positive weights: mostly moderate, with a common factor now and then (only their ratios matter)
pub fn weights(r: &mut Run, n: usize) -> Vec<f64> {
    let mut pool = vec![1.0, 1.0, 0.5, 2.0, 3.0, 0.25];
    let lits: Vec<f64> = r.lits_f.iter().copied().filter(|x| *x > 1e-4 && *x < 50.0).collect();
    if !lits.is_empty() && r.rng.below(4) == 0 { pool.push(*r.rng.pick(&lits)); }
    let k = *r.rng.pick(&[1.0, 1.0, 1.0, 0.01, 0.125, 1e-3, 100.0]);
    (0..n).map(|_| *r.rng.pick(&pool) * k).collect()
}
