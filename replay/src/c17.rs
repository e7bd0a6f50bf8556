//! C17: SVG export draws every curve as one path in its own coordinates.
use crate::c18::with_file_limit;
use crate::fw::*;
use crate::gen::*;
use geom3d::curve::*;
use geom3d::*;

#[derive(Debug, Clone, Copy)]
struct Graph { a: f64, w: f64, straight: bool }
impl Curve for Graph {
    fn get_point(&self, u: f64) -> Point3 { Point3::new(u, if self.straight { self.a * u } else { self.a * (u * self.w).sin() }, self.a * u) }
    fn project(&self, p: Point3) -> f64 { p.x }
}
/// an element: name, attributes and children
#[derive(Debug, Clone, Default)]
struct El { name: String, attrs: Vec<(String, String)>, kids: Vec<El> }
impl El { fn get(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) } }
fn parse(s: &str) -> Result<El, String> {
    let mut stack = vec![El::default()];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] != '<' { ensure(b[i].is_whitespace(), || format!("text {:?} between elements", b[i]))?; i += 1; continue; }
        let mut j = i + 1;
        let mut q = None;
        while j < b.len() && (q.is_some() || b[j] != '>') { if q == Some(b[j]) { q = None } else if q.is_none() && (b[j] == '"' || b[j] == '\'') { q = Some(b[j]) } j += 1; }
        ensure(j < b.len(), || "an element is not closed".into())?;
        let t: String = b[i + 1..j].iter().collect();
        i = j + 1;
        if t.starts_with('?') || t.starts_with('!') { continue; }
        if let Some(n) = t.strip_prefix('/') {
            let e = stack.pop().unwrap();
            ensure(e.name == n.trim() && !stack.is_empty(), || format!("{} closes {}", n, e.name))?;
            stack.last_mut().unwrap().kids.push(e);
            continue;
        }
        let closed = t.ends_with('/');
        let t = t.trim_end_matches('/');
        let n = t.find(char::is_whitespace).unwrap_or(t.len());
        let mut e = El { name: t[..n].into(), ..Default::default() };
        let mut rest = t[n..].trim();
        while !rest.is_empty() {
            let (k, v) = rest.split_once('=').ok_or("attribute without value")?;
            let v = v.trim_start();
            let q = v.chars().next().ok_or("attribute without value")?;
            let end = v[1..].find(q).ok_or("open quote")?;
            e.attrs.push((k.trim().into(), v[1..1 + end].into()));
            rest = v[end + 2..].trim();
        }
        if closed { stack.last_mut().unwrap().kids.push(e) } else { stack.push(e) }
    }
    ensure(stack.len() == 1 && stack[0].kids.len() == 1, || "not one document".into())?;
    Ok(stack.remove(0).kids.remove(0))
}
#[derive(Debug, Clone)]
enum Cmd { M(Point2), L(Point2), C(Point2, Point2, Point2) }
fn nums(s: &str) -> Result<Vec<f64>, String> { s.split(|c: char| c == ',' || c.is_whitespace()).filter(|w| !w.is_empty()).map(|w| w.parse::<f64>().map_err(|_| format!("{:?} is not a number", w))).collect() }
fn commands(d: &str) -> Result<Vec<Cmd>, String> {
    let mut out: Vec<Cmd> = vec![];
    let mut rest = d.trim();
    while !rest.is_empty() {
        let c = rest.chars().next().unwrap();
        let end = rest[1..].find(|c: char| c.is_ascii_alphabetic()).map(|i| i + 1).unwrap_or(rest.len());
        let v = nums(&rest[c.len_utf8()..end])?;
        rest = rest[end..].trim();
        let p: Vec<Point2> = v.chunks(2).filter(|w| w.len() == 2).map(|w| Point2::new(w[0], w[1])).collect();
        ensure(v.len() % 2 == 0 && !p.is_empty(), || format!("{} has {} numbers", c, v.len()))?;
        ensure(!out.is_empty() || c == 'M', || format!("the path starts with {}", c))?;
        match c {
            'M' => { out.push(Cmd::M(p[0])); out.extend(p[1..].iter().map(|&q| Cmd::L(q))); }
            'L' => out.extend(p.iter().map(|&q| Cmd::L(q))),
            'C' => { ensure(p.len() % 3 == 0, || format!("C has {} points", p.len()))?; out.extend(p.chunks(3).map(|w| Cmd::C(w[0], w[1], w[2]))); }
            _ => return Err(format!("unexpected command {}", c)),
        }
    }
    Ok(out)
}
const E: f64 = 0.00501;
fn at(q: Point2, p: Point3) -> bool { (q.x - p.x).abs() <= E + 1e-12 * p.x.abs() && (q.y - p.y).abs() <= E + 1e-12 * p.y.abs() }

#[derive(Clone)]
enum Seg { Line(Point3, Vec3, f64, f64), Poly(Vec<Point3>), Cubic(Vec<Point3>, Vec<f64>), Other(std::rc::Rc<dyn Fn() -> Box<dyn Curve>>, f64, f64, f64) }
fn build(s: &Seg) -> CurveSegment<Box<dyn Curve>> {
    let (curve, parameter_range, tolerance): (Box<dyn Curve>, (f64, f64), f64) = match s {
        Seg::Line(o, d, a, b) => (Box::new(Line { origin: *o, direction: *d }), (*a, *b), 0.01),
        Seg::Poly(v) => (Box::new(Polyline::new(v.clone())), (0.0, 1.0), 0.01),
        Seg::Cubic(c, t) => (Box::new(BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: 3 }), (t[0], t[t.len() - 1]), 0.01),
        Seg::Other(f, a, b, tol) => (f(), (*a, *b), *tol),
    };
    CurveSegment { curve, parameter_range, tolerance, parameter_division: 8 }
}
fn show(s: &Seg) -> String { match s { Seg::Line(o, d, a, b) => format!("line {:?} + u {:?} over ({:?}, {:?})", o, d, a, b), Seg::Poly(v) => format!("polyline {:?}", v), Seg::Cubic(c, t) => format!("cubic spline {:?} knots {:?}", c, t), Seg::Other(f, a, b, tol) => format!("{:?} over ({:?}, {:?}) tolerance {:?}", f(), a, b, tol) } }
fn bez(a: Point2, b: Point2, c: Point2, d: Point2, t: f64) -> Point2 { let s = 1.0 - t; a * (s * s * s) + b * (3.0 * s * s * t) + c * (3.0 * s * t * t) + d * (t * t * t) }
/// the commands must be what the segments draw
fn traces(cmds: &[Cmd], segs: &[Seg]) -> Result<(), String> { traces_from(cmds, 0, segs, 0) }
fn traces_from(cmds: &[Cmd], mut i: usize, segs: &[Seg], first: usize) -> Result<(), String> {
    for (k, s) in segs.iter().enumerate().skip(first) {
        let point = |i: usize, mv: bool| -> Result<Point2, String> {
            match cmds.get(i) {
                Some(Cmd::M(p)) if mv => Ok(*p),
                Some(Cmd::L(p)) if !mv => Ok(*p),
                c => Err(format!("segment {}: command {} is {:?}, expected {}", k, i, c, if mv { "a move" } else { "a line" })),
            }
        };
        let expect = |i: usize, mv: bool, p: Point3| -> Result<(), String> { let q = point(i, mv)?; ensure(at(q, p), || format!("segment {}: command {} goes to {:?}, expected {:?}", k, i, q, p)) };
        match s {
            Seg::Line(o, d, a, b) => { expect(i, true, *o + *d * *a)?; expect(i + 1, false, *o + *d * *b)?; i += 2; }
            Seg::Poly(v) => { for (n, p) in v.iter().enumerate() { expect(i + n, n == 0, *p)?; } i += v.len(); }
            Seg::Cubic(c, t) => {
                let (a, b) = (t[3], t[c.len()]);
                let mut ks: Vec<f64> = t.iter().cloned().filter(|&x| x >= a && x <= b).collect();
                ks.dedup();
                expect(i, true, spline3(c, t, 3, a))?;
                let mut from = point(i, true)?;
                i += 1;
                for w in ks.windows(2) {
                    match cmds.get(i) {
                        Some(Cmd::C(p, q, e)) => {
                            for n in 0..=8 {
                                let x = n as f64 / 8.0;
                                let u = if n == 8 { w[1] } else { w[0] + (w[1] - w[0]) * x };
                                let (g, h) = (bez(from, *p, *q, *e, x), spline3(c, t, 3, u));
                                ensure((g.x - h.x).abs() <= E + 1e-7 * (1.0 + h.x.abs()) && (g.y - h.y).abs() <= E + 1e-7 * (1.0 + h.y.abs()), || format!("segment {}: the piece over [{:?}, {:?}] passes {:?} where the spline is at {:?}", k, w[0], w[1], g, h))?;
                            }
                            from = *e;
                        }
                        c => return Err(format!("segment {}: command {} is {:?}, expected a cubic for [{:?}, {:?}]", k, i, c, w[0], w[1])),
                    }
                    i += 1;
                }
            }
            Seg::Other(f, a, b, _) => {
                let c = f();
                let start = i;
                let mut j = i;
                while j < cmds.len() && (matches!(cmds[j], Cmd::L(_)) || (j == 0 && matches!(cmds[j], Cmd::M(_)))) { j += 1; }
                let m = 4000;
                let grid: Vec<Point3> = (0..=m).map(|n| c.get_point(if n == m { *b } else { a + (b - a) * n as f64 / m as f64 })).collect();
                let slack = grid.windows(2).map(|w| w[0].distance(w[1])).fold(0.0, f64::max) + 0.0101;
                let mut g = 0;
                expect(i, start == 0, grid[0])?;
                // the next segment may be sampled too: try every place where this one may end
                let mut err = Err(format!("segment {}: the samples do not reach {:?}", k, grid[m]));
                for e in start + 1..j {
                    let q = point(e, false)?;
                    let d = |p: &Point3| (q.x - p.x).hypot(q.y - p.y);
                    match (g..=m).find(|&n| d(&grid[n]) <= slack) {
                        None => return err.map_err(|x: String| format!("{} (command {} goes to {:?})", x, e, q)),
                        Some(n) => { let mut n = n; while n < m && d(&grid[n + 1]) <= d(&grid[n]) { n += 1; } g = n; }
                    }
                    if !at(q, grid[m]) { continue; }
                    // the samples follow an arc closely enough to tell it from its chord (other curves may hide a bend from the probe)
                    let pts: Vec<Point2> = cmds[start..=e].iter().map(|c| match c { Cmd::M(p) | Cmd::L(p) => *p, Cmd::C(_, _, p) => *p }).collect();
                    let far = if !format!("{:?}", c).starts_with("Circle") { None } else { (0..=20).map(|n| grid[n * m / 20]).find(|p| !pts.windows(2).any(|w| { let ab = w[1] - w[0]; let l = ab.length_squared(); let h = Point2::new(p.x, p.y); let x = if l == 0.0 { 0.0 } else { ((h - w[0]).dot(ab) / l).clamp(0.0, 1.0) }; (w[0] + ab * x).distance(h) <= 0.8 })) };
                    let rest = match far { Some(w) => Err(format!("segment {}: the path passes far from the curve point {:?}", k, w)), None => traces_from(cmds, e + 1, segs, k + 1) };
                    match rest { Ok(()) => return Ok(()), Err(x) => err = Err(x) }
                }
                return err;
            }
        }
    }
    ensure(i == cmds.len(), || format!("{} more commands from {:?}", cmds.len() - i, cmds[i]))
}
fn page(s: &str, (w, h): (f64, f64), curves: &[Vec<Seg>]) -> Result<(), String> {
    let e = parse(s)?;
    ensure(e.name == "svg", || format!("the document is {}", e.name))?;
    let size = |k: &str, v: f64| -> Result<(), String> { let t = e.get(k).unwrap_or(""); ensure(t.strip_suffix("mm").and_then(|n| n.parse::<f64>().ok()) == Some(v), || format!("{} is {:?}, requested {:?} mm", k, t, v)) };
    size("width", w)?;
    size("height", h)?;
    let vb = nums(e.get("viewBox").unwrap_or(""))?;
    ensure(vb.len() == 4 && vb[0] == 0.0 && vb[1] == 0.0 && close(vb[2], w, 1e-6) && close(vb[3], h, 1e-6), || format!("viewBox {:?} for {:?} x {:?}", vb, w, h))?;
    ensure(e.kids.len() == 1 && e.kids[0].name == "g" && e.get("transform").is_none(), || "not one group".into())?;
    let g = &e.kids[0];
    let tr = g.get("transform").unwrap_or("");
    let m = nums(tr.trim().strip_prefix("matrix(").and_then(|t| t.strip_suffix(')')).ok_or_else(|| format!("transform {:?}", tr))?)?;
    ensure(m.len() == 6 && m[..5] == [1.0, 0.0, 0.0, -1.0, 0.0] && (m[5] - h).abs() <= 0.5, || format!("transform {:?} does not flip y on a page {:?} high", m, h))?;
    ensure(g.kids.len() == curves.len(), || format!("{} paths for {} curves", g.kids.len(), curves.len()))?;
    for (k, (p, c)) in g.kids.iter().zip(curves).enumerate() {
        ensure(p.name == "path" && p.kids.is_empty() && p.get("transform").is_none(), || format!("child {} is {:?}", k, p.name))?;
        let d = p.get("d").ok_or("a path without data")?;
        commands(d).and_then(|cs| traces(&cs, c)).map_err(|e| format!("path {}: {} in {:?}", k, e, d.chars().take(300).collect::<String>()))?;
    }
    Ok(())
}
fn segment(r: &mut Run) -> Seg {
    let s = *r.rng.pick(&[1.0, 10.0, 10.0, 100.0]);
    let pts = |r: &mut Run, n: usize| -> Vec<Point3> { (0..n).map(|_| Point3::new(r.rng.f(-1.0, 1.0), r.rng.f(-1.0, 1.0), r.rng.f(-1.0, 1.0)) * s).collect() };
    match r.rng.below(9) {
        0 => { let p = pts(r, 2); let a = r.rng.f(-3.0, 3.0); let b = r.rng.f(-3.0, 3.0); Seg::Line(p[0], p[1], a, b) }
        1 => { let p = pts(r, 2); Seg::Line(p[0], p[1], 0.0, 1.0) }
        2 => { let n = r.rng.range(2, 7); Seg::Poly(pts(r, n)) }
        3 | 4 => { let n = r.rng.range(4, 9); let c = pts(r, n); Seg::Cubic(c, clamped_knots(&mut r.rng, n, 3)) }
        5 => { let (mut a, mut q) = r.rng.frame(); while a.z.abs() < 0.4 { let f = r.rng.frame(); a = f.0; q = f.1; } let o = pts(r, 1)[0]; let rad = r.rng.f(0.5, 20.0); let from = r.rng.f(-4.0, 4.0); let to = from + r.rng.f(0.3, 6.0) * if r.rng.bool() { 1.0 } else { -1.0 };
            Seg::Other(std::rc::Rc::new(move || Box::new(Circle { center: o, axis: a, radius: rad, ref_dir: q })), from, to, 0.02) }
        6 => { let (a, w) = (r.rng.f(0.1, 3.0), r.rng.f(0.2, 1.2)); let straight = r.rng.bool(); let from = r.rng.f(-4.0, 4.0); let to = from + r.rng.f(0.5, 3.0) * if r.rng.bool() { 1.0 } else { -1.0 };
            Seg::Other(std::rc::Rc::new(move || Box::new(Graph { a, w, straight })), from, to, 0.05) }
        7 => { let d = *r.rng.pick(&[1usize, 2, 4, 5]); let n = d + 1; let mut p = pts(r, 1); for i in 1..n { let q = p[i - 1]; p.push(q + Vec3::new(r.rng.f(0.3, 1.0), r.rng.f(-0.6, 0.6), r.rng.f(-0.6, 0.6)) * 3.0); }
            let t: Vec<f64> = (0..2 * n).map(|i| if i < n { 0.0 } else { 1.0 }).collect();
            Seg::Other(std::rc::Rc::new(move || Box::new(BSplineCurve { control_points: p.clone(), knots: KnotVector(t.clone()), degree: d as u8 })), 0.0, 1.0, 0.02) }
        _ => { let mut p = pts(r, 1); for i in 1..4 { let q = p[i - 1]; p.push(q + Vec3::new(r.rng.f(0.3, 1.0), r.rng.f(-0.6, 0.6), r.rng.f(-0.6, 0.6)) * 3.0); }
            if r.rng.bool() { Seg::Other(std::rc::Rc::new(move || Box::new(BezierCurve { control_points: p.clone() })), 0.0, 1.0, 0.02) }
            else { let w = r.rng.f(0.5, 2.0); let p: Vec<Point4> = p.iter().enumerate().map(|(i, q)| { let k = if i == 1 { w } else { 1.0 }; Point4::new(q.x * k, q.y * k, q.z * k, k) }).collect();
                Seg::Other(std::rc::Rc::new(move || Box::new(BSplineCurve { control_points: p.clone(), knots: KnotVector(vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0]), degree: 3 })), 0.0, 1.0, 0.02) } }
    }
}
struct NoFace;
impl Face for NoFace { fn get_triangle_mesh(&self) -> TriangleMesh { TriangleMesh::new() } }
pub fn run(r: &mut Run) {
    let n = r.n(5000, 60000);
    let mut counts: Vec<usize> = r.lits_i.iter().map(|&x| x as usize).filter(|&x| x < 600).collect();
    counts.extend([11, 12, 40]);
    for k in 0..n {
        if !r.time_left() { return; }
        let c = if k % 60 == 3 { *r.rng.pick(&counts) } else { r.rng.below(4) };
        let curves: Vec<Vec<Seg>> = (0..c).map(|_| { let m = if r.rng.below(60) == 0 { 0 } else if r.rng.below(3) == 0 { r.rng.range(2, 5) } else { 1 }; (0..m).map(|_| segment(r)).collect() }).collect();
        let side = |r: &mut Run| match r.rng.below(5) { 0 => r.rng.range(1, 400) as f64, 1 => 210.0, 2 => r.rng.f(0.1, 500.0), 3 => r.rng.range(1, 40) as f64 * 25.4, _ => r.rng.range(1, 4000) as f64 / 10.0 };
        let size = (side(r), side(r));
        let cut = if k % 25 == 7 { Some(r.rng.range(1, 60) as u64) } else { None };
        let shown = format!("page {:?}{}, curves {}", size, if cut.is_some() { " on a full disk" } else { "" }, curves.iter().map(|c| format!("[{}]", c.iter().map(show).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" "));
        r.case(if cut.is_some() { "full disk" } else { "page" }, shown.chars().take(6000).collect(), || {
            let mut model: Model<NoFace> = Model::new();
            for c in &curves { model.add_curve(Polycurve { segments: c.iter().map(build).collect() }); }
            let name = "drawing.svg";
            std::fs::write(name, vec![b'x'; 3000]).unwrap();
            if let Some(cut) = cut {
                std::fs::remove_file(name).ok();
                let least = 120 + curves.iter().map(|c| 20 * c.len() as u64).sum::<u64>();
                if with_file_limit(least.saturating_sub(cut), || model.save_as_svg(name, size)).is_err() { return Ok(()); }
                return page(&std::fs::read_to_string(name).map_err(|e| e.to_string())?, size, &curves).map_err(|e| format!("reported success: {}", e));
            }
            model.save_as_svg(name, size).map_err(|e| e.to_string())?;
            page(&std::fs::read_to_string(name).map_err(|e| e.to_string())?, size, &curves)
        });
    }
}
