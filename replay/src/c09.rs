//! C09: projection inverts evaluation for lines, circles, planes and cylinders.
use crate::c10::{angle, org, radius, turned};
use crate::fw::*;
use geom3d::curve::*;
use geom3d::surface::*;

const TAU: f64 = std::f64::consts::PI * 2.0;
fn same_dir(x: f64, y: f64, a: f64) -> bool { let l = (x * x + y * y).sqrt(); (a.cos() * l - x).abs() <= 1e-9 * (1.0 + l) && (a.sin() * l - y).abs() <= 1e-9 * (1.0 + l) }
pub fn run(r: &mut Run) {
    let n = r.n(3000, 50000);
    for _ in 0..n {
        if !r.time_left() { return; }
        let (a, d) = r.rng.frame();
        let w = a.cross(d);
        let (o, rad) = (org(r), radius(r));
        let (t, u, v) = (angle(r), r.rng.coord(), r.rng.coord());
        let sc = 1.0 + o.length() + rad + u.abs() + v.abs();
        r.case("line", format!("Line origin {:?} direction {:?}, its point at {:?}", o, a, u), || {
            let l = Line { origin: o, direction: a };
            let q = o + a * u;
            let x = l.project(q);
            ensure((x - u).abs() <= 1e-9 * sc, || format!("parameter {:?}", x))?;
            ensure(near3(l.get_point(x), q, 1e-9 * sc), || format!("evaluates to {:?}", l.get_point(x)))
        });
        r.case("plane", format!("Plane origin {:?} u {:?} v {:?}, its point at {:?} {:?}", o, d, w, u, v), || {
            let p = Plane { origin: o, normal: a, u_axis: d, v_axis: w };
            let q = o + d * u + w * v;
            let x = p.project(q);
            ensure((x.x - u).abs() <= 1e-9 * sc && (x.y - v).abs() <= 1e-9 * sc, || format!("parameters {:?}", x))
        });
        let q = o + turned(a, d, t) * rad;
        r.case("circle", format!("Circle center {:?} radius {:?} axis {:?} ref {:?}, its point at angle {:?}", o, rad, a, d, t), || {
            let c = Circle { center: o, radius: rad, axis: a, ref_dir: d };
            let x = c.project(q);
            ensure(x >= 0.0 && x <= TAU, || format!("angle {:?} out of [0, 2 pi]", x))?;
            ensure(near3(c.get_point(x), q, 1e-8 * sc), || format!("angle {:?} evaluates to {:?}, not {:?}", x, c.get_point(x), q))
        });
        let (k, h) = (radius(r), r.rng.coord());
        r.case("circle direction", format!("Circle center {:?} radius {:?} axis {:?} ref {:?}, point at distance {:?} angle {:?} height {:?}", o, rad, a, d, k, t, h), || {
            let c = Circle { center: o, radius: rad, axis: a, ref_dir: d };
            let p = o + turned(a, d, t) * k + a * h;
            let x = c.project(p);
            ensure(x >= 0.0 && x <= TAU, || format!("angle {:?} out of [0, 2 pi]", x))?;
            let s = 1e-9 * (sc + k + h.abs()) / k;
            ensure((x.cos() - t.cos()).abs() <= 1e-9 + s && (x.sin() - t.sin()).abs() <= 1e-9 + s, || format!("angle {:?}", x))
        });
        r.case("cylinder", format!("Cylinder origin {:?} axis {:?} ref {:?} radius {:?}, its point at height {:?} angle {:?}", o, a, d, rad, u, t), || {
            let c = Cylinder { origin: o, axis: a, ref_dir: d, radius: rad };
            let q = q + a * u;
            let x = c.project(q);
            ensure(x.y >= 0.0 && x.y <= TAU, || format!("angle {:?} out of [0, 2 pi]", x.y))?;
            ensure((x.x - u).abs() <= 1e-9 * sc, || format!("height {:?}", x.x))?;
            ensure(near3(c.get_point(x.x, x.y), q, 1e-8 * sc), || format!("{:?} evaluates to {:?}, not {:?}", x, c.get_point(x.x, x.y), q))
        });
        let dd = u.max(0.0) + r.rng.f(0.1, 30.0) + if r.rng.bool() { u.abs() } else { 0.0 };
        r.case("ring", format!("Cylinder origin {:?} axis {:?} ref {:?} radius {:?}, its point at height {:?} angle {:?}, ring of {:?}", o, a, d, rad, u, t, dd), || {
            let c = Cylinder { origin: o, axis: a, ref_dir: d, radius: rad };
            let q = q + a * u;
            let p = c.project_to_ring(q, dd);
            let m = dd / (dd - u);
            ensure(same_dir(t.cos() * rad * m, t.sin() * rad * m, p.y.atan2(p.x)) || o.length() > 50.0, || format!("ring point {:?}", p))?;
            let b = c.generate_point_from_ring(p, dd);
            let tol = 1e-8 * sc * (1.0 + dd + m + (dd - u).abs()) / (rad * m).min(1.0);
            ensure(near3(b, q, tol), || format!("lifts to {:?}, not {:?}", b, q))
        });
        // angles as project reports them
        let grid = r.rng.below(2) == 0;
        let ang = |r: &mut Run| { let x = if grid { TAU / 12.0 * r.rng.below(12) as f64 } else { angle(r) }; let y = x.rem_euclid(TAU); if y < TAU { y } else { 0.0 } };
        let (a0, a1) = (ang(r), ang(r));
        let a1 = if r.rng.below(10) == 0 { a0 } else { a1 };
        let same = r.rng.bool();
        r.case("range", format!("Circle refine_parameter_range({:?}, same_sense {})", (a0, a1), same), || {
            let c = Circle { center: o, radius: rad, axis: a, ref_dir: d };
            let x = c.refine_parameter_range((a0, a1), same);
            ensure(near3(c.get_point(x.0), c.get_point(a0), 1e-8 * sc) && near3(c.get_point(x.1), c.get_point(a1), 1e-8 * sc), || format!("{:?}: end points moved", x))?;
            let span = if same { x.1 - x.0 } else { x.0 - x.1 };
            let mut e = if same { a1 - a0 } else { a0 - a1 };
            if e <= 0.0 { e += TAU; }
            ensure((span - e).abs() <= 1e-9, || format!("{:?}: does not cover the arc of {:?} in the direction of the sense", x, e))
        });
    }
}
