//! C10: primitives and generated surfaces follow their formulas.
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;

pub fn angle(r: &mut Run) -> f64 {
    let pi = std::f64::consts::PI;
    let ls = r.lits_f.clone();
    match r.rng.below(9) {
        0 => 0.0,
        1 => pi / 4.0 * (r.rng.below(33) as f64 - 16.0),
        2 => pi / 6.0 * (r.rng.below(25) as f64 - 12.0),
        3 => pi / 180.0 * (r.rng.below(721) as f64 - 360.0),
        4 => *r.rng.pick(&[1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12, 1e-17, -1e-17]) + if r.rng.bool() { 2.0 * pi * (r.rng.below(3) as f64) } else { 0.0 },
        5 if !ls.is_empty() => { let v = *r.rng.pick(&ls); (if r.rng.bool() { v } else { -v }).max(-50.0).min(50.0) }
        6 => r.rng.f(-40.0, 40.0),
        _ => r.rng.f(-2.0 * pi, 2.0 * pi),
    }
}
pub fn turned(a: Vec3, q: Vec3, t: f64) -> Vec3 { q * t.cos() + a.cross(q) * t.sin() + a * (a.dot(q) * (1.0 - t.cos())) }
pub fn radius(r: &mut Run) -> f64 { match r.rng.below(5) { 0 => 1.0, 1 => r.rng.range(1, 12) as f64, 2 => r.rng.f(1e-3, 0.1), 3 => r.rng.f(50.0, 3000.0), _ => r.rng.f(0.2, 8.0) } }
pub fn org(r: &mut Run) -> Point3 { if r.rng.below(4) == 0 { Point3::new(0.0, 0.0, 0.0) } else { r.rng.p3() } }
fn sect(r: &mut Run) -> (String, Box<dyn Curve>) {
    match r.rng.below(4) {
        0 => { let (o, d) = (org(r), r.rng.dir()); (format!("line {:?} {:?}", o, d), Box::new(Line { origin: o, direction: d })) }
        1 => { let (a, d) = r.rng.frame(); let (o, k) = (org(r), radius(r)); (format!("circle {:?} {:?} {:?} {:?}", o, k, a, d), Box::new(Circle { center: o, radius: k, axis: a, ref_dir: d })) }
        2 => { let n = r.rng.range(2, 6); let v = pts(&mut r.rng, n); (format!("polyline {:?}", v), Box::new(Polyline::new(v))) }
        _ => { let n = r.rng.range(1, 6); let v = pts(&mut r.rng, n); (format!("bezier {:?}", v), Box::new(BezierCurve { control_points: v })) }
    }
}
pub fn run(r: &mut Run) {
    let n = r.n(2500, 40000);
    for k in 0..n {
        if !r.time_left() { return; }
        let (a, d) = r.rng.frame();
        let (o, rad) = (org(r), radius(r));
        let (t, u, v) = (angle(r), r.rng.coord(), r.rng.coord());
        let sc = 1.0 + o.length() + rad + u.abs() + v.abs();
        r.case("line", format!("Line origin {:?} direction {:?} at {:?}", o, a * rad, u), || {
            let l = Line { origin: o, direction: a * rad };
            let (p, e) = (l.get_point(u), o + a * rad * u);
            ensure(near3(p, e, 1e-9 * (1.0 + o.length() + (rad * u).abs())), || format!("{:?} != {:?}", p, e))
        });
        r.case("circle", format!("Circle center {:?} radius {:?} axis {:?} ref {:?} at {:?}", o, rad, a, d, t), || {
            let c = Circle { center: o, radius: rad, axis: a, ref_dir: d };
            let (p, e) = (c.get_point(t), o + turned(a, d, t) * rad);
            ensure(near3(p, e, 1e-9 * sc), || format!("{:?} != {:?}", p, e))?;
            ensure(((p - o).length() - rad).abs() <= 1e-9 * sc, || format!("distance {:?}", (p - o).length()))?;
            ensure((p - o).dot(a).abs() <= 1e-9 * sc, || format!("out of plane by {:?}", (p - o).dot(a)))
        });
        r.case("plane", format!("Plane origin {:?} u {:?} v {:?} at {:?} {:?}", o, d, a.cross(d), u, v), || {
            let p = Plane { origin: o, normal: a, u_axis: d, v_axis: a.cross(d) };
            let (p, e) = (p.get_point(u, v), o + d * u + a.cross(d) * v);
            ensure(near3(p, e, 1e-9 * sc), || format!("{:?} != {:?}", p, e))
        });
        r.case("cylinder", format!("Cylinder origin {:?} axis {:?} ref {:?} radius {:?} at {:?} {:?}", o, a, d, rad, u, t), || {
            let c = Cylinder { origin: o, axis: a, ref_dir: d, radius: rad };
            let (p, e) = (c.get_point(u, t), o + a * u + turned(a, d, t) * rad);
            ensure(near3(p, e, 1e-9 * sc), || format!("{:?} != {:?}", p, e))
        });
        let (th, R) = (angle(r), radius(r));
        r.case("umbrella", format!("Umbrella radius {:?} at {:?} {:?}", R, th, t), || {
            let p = Umbrella { radius: R }.get_point(th, t);
            let q = R / std::f64::consts::PI;
            let e = Point3::new(q * (th - th.sin()) * t.cos(), q * (th - th.sin()) * t.sin(), q * (1.0 + th.cos()));
            ensure(near3(p, e, 1e-9 * (1.0 + R * (1.0 + th.abs()))), || format!("{:?} != {:?}", p, e))
        });
        if k % 2 == 0 {
            let (ds, c) = sect(r);
            let par = match r.rng.below(4) { 0 => 0.0, 1 => 1.0, _ => r.rng.unit() };
            r.case("revolution", format!("SpinSurface origin {:?} axis {:?} section {} at {:?} {:?}", o, a, ds, par, t), || {
                let q = c.get_point(par);
                let sc = 1.0 + o.length() + q.length();
                let s = SpinSurface { origin: o, axis: a, section: c };
                let p = s.get_point(par, t);
                let w = q - o;
                let h = w.dot(a);
                let e = o + a * h + turned(a, w - a * h, t);
                ensure(near3(p, e, 1e-9 * sc), || format!("{:?} != {:?}", p, e))?;
                let z = s.get_point(par, 0.0);
                ensure(near3(z, q, 1e-9 * sc), || format!("angle zero {:?} != section {:?}", z, q))?;
                ensure(((p - o).dot(a) - h).abs() <= 1e-9 * sc, || format!("height {:?} != {:?}", (p - o).dot(a), h))?;
                ensure(((p - o).cross(a).length() - w.cross(a).length()).abs() <= 1e-8 * sc, || "distance from the axis changed".into())
            });
        } else {
            let ((ds, c), (dp, b)) = (sect(r), sect(r));
            let (x, y) = (r.rng.unit(), match r.rng.below(3) { 0 => 0.0, _ => r.rng.unit() });
            r.case("sweep", format!("SweepSurface path {} section {} at {:?} {:?}", dp, ds, x, y), || {
                let e = b.get_point(x) + c.get_point(y);
                let s = SweepSurface { path: b, section: c };
                let p = s.get_point(x, y);
                ensure(near3(p, e, 1e-9 * (1.0 + e.length())), || format!("{:?} != {:?}", p, e))
            });
        }
    }
}
