//! C08: polylines are parameterised by arc length and project to the nearest point.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::*;
use geom3d::*;

fn seg_dist(a: Point3, b: Point3, p: Point3) -> f64 {
    let ab = b - a;
    let l = ab.length_squared();
    let t = if l == 0.0 { 0.0 } else { ((p - a).dot(ab) / l).max(0.0).min(1.0) };
    (a + ab * t - p).length()
}
/// independent walk: travel the length s along the segments
fn walk(v: &[Point3], s: f64) -> Point3 {
    let mut left = s;
    for w in v.windows(2) {
        let l = (w[1] - w[0]).length();
        if left <= l && l > 0.0 { return w[0] + (w[1] - w[0]) * (left / l); }
        left -= l;
    }
    v[v.len() - 1]
}

pub fn run(r: &mut Run) {
    let mut ns = sizes(r, 2, 40);
    ns.extend([2, 2, 3, 3, 4, 5, 7]);
    let n = r.n(900, 12000);
    for k in 0..n {
        if !r.time_left() { return; }
        let len = if k % 3 == 0 { *r.rng.pick(&ns) } else { r.rng.range(2, 8) };
        let s = *r.rng.pick(&[1.0, 1.0, 1.0, 1e-3, 1e-6, 500.0]);
        let mut v: Vec<Point3> = match k % 4 {
            0 => { // lattice path with right angles
                let mut p = Point3::new(0.0, 0.0, 0.0);
                (0..len).map(|_| { let q = p; let d = *r.rng.pick(&[1.0, 1.0, 2.0, -1.0, 0.5]); match r.rng.below(3) { 0 => p.x += d, 1 => p.y += d, _ => p.z += d }; q * s }).collect()
            }
            1 => { // axis parallel in the plane
                let mut p = Point3::new(0.0, 0.0, 0.0);
                (0..len).map(|i| { let q = p; if i % 2 == 0 { p.x += r.rng.f(0.2, 3.0) } else { p.y += r.rng.f(-3.0, 3.0) }; q * s }).collect()
            }
            _ => (0..len).map(|_| r.rng.p3() * s).collect(),
        };
        // repeated vertices, at the start, at the end and inside
        if r.rng.below(3) == 0 {
            for _ in 0..r.rng.range(1, 3) {
                let i = match r.rng.below(3) { 0 => 0, 1 => v.len() - 1, _ => r.rng.below(v.len()) };
                let q = v[i];
                v.insert(i, q);
            }
        }
        if r.rng.below(40) == 0 { let q = v[0]; for p in v.iter_mut() { *p = q; } }
        if r.rng.below(12) == 0 { let q = v[0]; v.push(q); } // closed
        let v = std::rc::Rc::new(v);
        let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
        let m = v.iter().map(|p| p.length()).fold(0.0, f64::max) + total;
        let mut ts = vec![-1.0, -1e-12, 0.0, 1e-9, 0.5, 1.0 - 1e-9, 1.0 - f64::EPSILON / 2.0, 1.0, 1.0 + 1e-9, 2.0];
        let mut acc = 0.0;
        for w in v.windows(2) { acc += (w[1] - w[0]).length(); if total > 0.0 { ts.push(acc / total); ts.push(acc / total - 1e-7); ts.push(acc / total + 1e-7); } }
        if ts.len() > 60 { let mut t2 = ts.split_off(10); r.rng.shuffle(&mut t2); t2.truncate(40); ts.extend(t2); }
        for _ in 0..6 { ts.push(r.rng.unit()); }
        {
            let v = v.clone();
            r.case("segment lengths and total length", format!("v={:?}", v), move || {
                let c = Polyline::new((*v).clone());
                ensure(c.vertices == *v, || "vertices changed".into())?;
                ensure(c.segment_lengths.len() == v.len() - 1, || "wrong number of segment lengths".into())?;
                for (i, w) in v.windows(2).enumerate() {
                    let d = (w[1] - w[0]).length();
                    ensure((c.segment_lengths[i] - d).abs() <= 1e-12 * m, || format!("segment {} has length {}, expected {}", i, c.segment_lengths[i], d))?;
                }
                ensure((c.length - total).abs() <= 1e-11 * m, || format!("length {}, expected {}", c.length, total))?;
                ensure(c.start() == v[0] && c.end() == v[v.len() - 1], || "start or end differ from the first and last vertex".into())
            });
        }
        for t in ts {
            let v = v.clone();
            r.case("evaluation by travelled length", format!("v={:?} t={:?}", v, t), move || {
                let c = Polyline::new((*v).clone());
                let got = c.get_point(t);
                if t <= 0.0 { return ensure(got == v[0], || format!("got {:?}, expected the first vertex", got)); }
                if t >= 1.0 { return ensure(got == v[v.len() - 1], || format!("got {:?}, expected the last vertex", got)); }
                let want = walk(&v, t * total);
                ensure((got - want).length() <= 1e-10 * m, || format!("got {:?}, expected {:?}", got, want))
            });
        }
        for j in 0..10 {
            let i = r.rng.below(v.len() - 1);
            let (a, b) = (v[i], v[i + 1]);
            let p = match j {
                0 => a,
                1 => b + (b - a) * r.rng.unit(),
                2 => a + (b - a) * r.rng.unit(),
                3 => a - (b - a) * r.rng.unit(),
                4 => b + r.rng.dir() * (0.3 * s),
                5 => v[v.len() - 1] + (b - a) * 3.0,
                6 => v[0] + r.rng.dir() * s,
                7 => r.rng.p3() * (s * 20.0),
                8 => a + (b - a) * r.rng.unit() + r.rng.dir() * (0.1 * s),
                _ => r.rng.p3() * s,
            };
            let v = v.clone();
            r.case("projection to the nearest point", format!("v={:?} p={:?}", v, p), move || {
                let c = Polyline::new((*v).clone());
                let t = c.project(p);
                ensure((0.0..=1.0).contains(&t), || format!("parameter {} outside [0,1]", t))?;
                let q = c.get_point(t);
                let best = v.windows(2).map(|w| seg_dist(w[0], w[1], p)).fold(f64::INFINITY, f64::min);
                let scale = m + p.length();
                ensure(((q - p).length() - best).abs() <= 1e-6 * scale, || format!("projected to t={} at {:?}, distance {}, but the nearest point has distance {}", t, q, (q - p).length(), best))
            });
        }
    }
}
