//! C20: distance, inside and intersection predicates.
use crate::fw::*;
use geom3d::utils::{self, Point};
use geom3d::*;

fn orient(a: Point2, b: Point2, c: Point2) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
/// small dyadic coordinates: every product of differences is exact in f64
fn grid2(r: &mut Rng, n: usize, s: f64) -> Point2 {
    let h = (n / 2) as f64;
    Point2::new((r.below(n + 1) as f64 - h) * s, (r.below(n + 1) as f64 - h) * s)
}
/// exact: do the closed segments share a point?
fn share(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    let on = |p: Point2, q: Point2, r: Point2| orient(p, q, r) == 0.0 && r.x >= p.x.min(q.x) && r.x <= p.x.max(q.x) && r.y >= p.y.min(q.y) && r.y <= p.y.max(q.y);
    let (oa, ob, oc, od) = (orient(c, d, a), orient(c, d, b), orient(a, b, c), orient(a, b, d));
    let opp = |x: f64, y: f64| (x > 0.0 && y < 0.0) || (x < 0.0 && y > 0.0);
    (opp(oa, ob) && opp(oc, od)) || on(c, d, a) || on(c, d, b) || on(a, b, c) || on(a, b, d)
}
fn seg_dist(a: Point3, b: Point3, p: Point3) -> f64 {
    let ab = b - a;
    let l = ab.length_squared();
    let t = if l == 0.0 { 0.0 } else { ((p - a).dot(ab) / l).max(0.0).min(1.0) };
    (a + ab * t - p).length()
}

pub fn run(r: &mut Run) {
    let n = r.n(4000, 60000);
    for k in 0..n {
        if !r.time_left() { return; }
        let s = *r.rng.pick(&[1.0, 1.0, 0.25, 64.0, 1e-3, 1e-5, 1e-7]);
        let (a, mut b, mut p) = (r.rng.p3() * s, r.rng.p3() * s, r.rng.p3() * s);
        match k % 8 {
            0 => b = a,
            1 => p = a + (b - a) * r.rng.unit(),
            2 => p = a - (b - a) * 0.5,
            3 => p = b + (b - a) * 1e-3,
            4 => p = b + (b - a).cross(Vec3::new(0.3, 1.0, -0.2)),
            _ => {}
        }
        r.case("distance_to_line_segment (space)", format!("a={:?} b={:?} p={:?}", a, b, p), move || {
            let got = utils::distance_to_line_segment(a, b, p);
            let want = seg_dist(a, b, p);
            let m = a.length().max(b.length()).max(p.length());
            ensure((got - want).abs() <= 2e-7 * m, || format!("got {}, expected {}", got, want))
        });
        let (a2, b2, p2) = (a.truncate(), b.truncate(), p.truncate());
        r.case("distance_to_line_segment (plane)", format!("a={:?} b={:?} p={:?}", a2, b2, p2), move || {
            let got = p2.distance_to_line_segment(a2, b2);
            let want = seg_dist(a2.extend(0.0), b2.extend(0.0), p2.extend(0.0));
            let m = a2.length().max(b2.length()).max(p2.length());
            ensure((got - want).abs() <= 2e-7 * m, || format!("got {}, expected {}", got, want))
        });
    }
    for k in 0..n {
        if !r.time_left() { return; }
        let g = 4 + r.rng.below(12);
        let s = *r.rng.pick(&[1.0, 1.0, 0.5, 128.0, 1.0 / 4096.0, 1.0 / 2048.0, 1.0 / 1024.0, 1.0 / 65536.0]);
        let (a, b, c) = (grid2(&mut r.rng, g, s), grid2(&mut r.rng, g, s), grid2(&mut r.rng, g, s));
        let mut p = grid2(&mut r.rng, g, s);
        if k % 5 == 0 { p = a + (b - a) * 0.5; }
        if k % 7 == 0 { p = (a + b + c) / 4.0 + Point2::new(s, 0.0) / 4.0; }
        let o = [orient(p, a, b), orient(p, b, c), orient(p, c, a)];
        r.case("is_inside_triangle (Point2)", format!("p={:?} a={:?} b={:?} c={:?}", p, a, b, c), move || {
            let want = o.iter().all(|x| *x >= -1e-7);
            ensure(p.is_inside_triangle(a, b, c) == want, || format!("got {}, orientations {:?}", !want, o))
        });
        #[cfg(feature = "priv")]
        r.case("is_inside_triangle (polygon)", format!("a={:?} b={:?} c={:?} p={:?}", a, b, c, p), move || {
            let want = o.iter().all(|x| *x >= 0.0);
            ensure(crate::privx::polygon::vx_inside(a, b, c, p) == want, || format!("got {}, orientations {:?}", !want, o))
        });
    }
    #[cfg(feature = "priv")]
    for k in 0..2 * n {
        if !r.time_left() { return; }
        let g = 2 + r.rng.below(10);
        let s = *r.rng.pick(&[1.0, 1.0, 0.5, 1.0 / 4096.0, 128.0]);
        let (a, mut b, mut c, mut d) = (grid2(&mut r.rng, g, s), grid2(&mut r.rng, g, s), grid2(&mut r.rng, g, s), grid2(&mut r.rng, g, s));
        match k % 12 {
            0 => c = a,
            1 => { c = a + (b - a) * 0.5; }
            2 => { c = a + (b - a) * 2.0; d = a + (b - a) * 0.5; }
            3 => { c = b + (b - a); d = c + (b - a); }
            4 => b = a,
            5 => { d = c; }
            6 => { d = c + (b - a); }
            _ => {}
        }
        r.case("is_segments_intersect", format!("a={:?} b={:?} c={:?} d={:?}", a, b, c, d), move || {
            let want = share(a, b, c, d);
            let got = crate::privx::meshgen::vx_segments(a, b, c, d);
            ensure(got == want, || format!("got {}, the segments {}", got, if want { "share a point" } else { "are disjoint" }))
        });
    }
}
