//! C14: faces trimmed on a plane mesh their outlines.
use crate::c12::{classes, covered, follow, grid_polygon, meet, simple};
use crate::c13::{area2, star};
use crate::fw::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::utils::*;
use geom3d::*;

fn edge(a: Point3, b: Point3) -> CurveSegment<Box<dyn Curve>> {
    let c: Box<dyn Curve> = Box::new(Line { origin: a, direction: b - a });
    CurveSegment { curve: c, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 4 }
}
fn edges(v: &[Point3]) -> EdgeLoop { EdgeLoop { edges: (0..v.len()).map(|i| edge(v[i], v[(i + 1) % v.len()])).collect() } }
fn frame(r: &mut Rng, exact: bool) -> (Point3, Vec3, Vec3) {
    let (u, v) = if exact {
        let e = [Vec3::new(1.0, 0.0, 0.0), Vec3::new(0.0, 1.0, 0.0), Vec3::new(0.0, 0.0, 1.0)];
        let i = r.below(3); let j = (i + 1 + r.below(2)) % 3;
        (if r.bool() { e[i] } else { -e[i] }, if r.bool() { e[j] } else { -e[j] })
    } else { r.frame() };
    let o = if exact { Point3::new(r.below(7) as f64 - 3.0, r.below(7) as f64 - 3.0, r.below(7) as f64 - 3.0) } else { r.p3() };
    (o, u, v)
}
fn flat(m: &[Point3], o: Point3, u: Vec3, v: Vec3) -> Vec<Point2> { m.iter().map(|&q| Point2::new((q - o).dot(u), (q - o).dot(v))).collect() }
/// the mesh is the one the outlines (loops, empty ones left out) prescribe
fn check(m: &TriangleMesh, loops: &[Vec<Point2>], (o, u, v): (Point3, Vec3, Vec3), exact: bool, cover: bool) -> Result<(), String> {
    let all: Vec<Point2> = loops.iter().flatten().cloned().collect();
    let n = all.len();
    let full: Vec<&Vec<Point2>> = loops.iter().filter(|l| !l.is_empty()).collect();
    let none = |w: &str| ensure(m.vertices.is_empty() && m.triangles.is_empty() && m.normals.is_empty(), || format!("{}: {} vertices, {} indices", w, m.vertices.len(), m.triangles.len()));
    if full.is_empty() { return none("no outline"); }
    let ids: Vec<usize> = (0..n).collect();
    let one = full.len() == 1;
    let (w, c) = if one { classes(&all, &ids) } else { (vec![], vec![]) };
    if one && w.len() == c.len() { return none("an outline without left turns"); }
    ensure(m.normals.is_empty(), || format!("{} normals", m.normals.len()))?;
    let fan = one && c.is_empty();
    ensure(m.vertices.len() == if fan { n + 1 } else { n }, || format!("{} vertices for {} outline points (fan: {})", m.vertices.len(), n, fan))?;
    for i in 0..n { let want = o + u * all[i].x + v * all[i].y; ensure(near3(m.vertices[i], want, 1e-9 * (1.0 + want.length())), || format!("vertex {} is {:?}, the outline has {:?}", i, m.vertices[i], want))?; }
    ensure(m.triangles.len() % 3 == 0 && m.triangles.iter().all(|&i| (i as usize) < m.vertices.len()), || format!("indices {:?} with {} vertices", m.triangles, m.vertices.len()))?;
    let p = flat(&m.vertices, o, u, v);
    if fan {
        let c = m.vertices[..n].iter().fold(Point3::new(0.0, 0.0, 0.0), |a, &b| a + b) / n as f64;
        ensure(near3(m.vertices[n], c, 1e-9 * (1.0 + c.length())), || format!("the centre is {:?}, the centroid {:?}", m.vertices[n], c))?;
        let mut t: Vec<[u32; 3]> = m.triangles.chunks(3).map(|c| { let k = (0..3).find(|&k| c[k] as usize == n).unwrap_or(0); [c[k], c[(k + 1) % 3], c[(k + 2) % 3]] }).collect();
        t.sort();
        let want: Vec<[u32; 3]> = (0..n).map(|i| [n as u32, i as u32, ((i + 1) % n) as u32]).collect();
        ensure(t == want, || format!("the fan is {:?}", m.triangles))?;
    } else if exact && one {
        follow(&p, &w, &c, &m.triangles)?;
    } else if exact {
        let mut offs = vec![0];
        for l in &full { offs.push(offs[offs.len() - 1] + l.len()); }
        let mut ring = merge_polygons(&p, &offs);
        let c = find_concave_vertices(&p, &mut ring);
        let ring: Vec<usize> = ring.into_iter().collect();
        if (0..p.len()).all(|i| ring.iter().filter(|&&q| q == i).count() <= 2) && cover { follow(&p, &ring, &c, &m.triangles)?; }
    }
    if cover {
        let a: f64 = { let mut s = 0; let mut a = 0.0; for l in &full { a += area2(&all, &(s..s + l.len()).collect::<Vec<_>>()); s += l.len(); } a };
        covered(&p, &m.triangles, a)?;
    }
    Ok(())
}
fn trim(fr: (Point3, Vec3, Vec3), loops: &[Vec<Point2>]) -> TriangleMesh {
    let (o, u, v) = fr;
    let plane = Plane { origin: o, normal: u.cross(v), u_axis: u, v_axis: v };
    let bounds: Vec<EdgeLoop> = loops.iter().map(|l| edges(&l.iter().map(|q| o + u * q.x + v * q.y).collect::<Vec<_>>())).collect();
    TrimmedSurface { surface: plane, bounds }.get_triangle_mesh()
}
pub fn run(r: &mut Run) {
    let n = r.n(30000, 300000);
    let mut sizes = vec![3, 3, 4, 4, 5, 6, 7, 8, 9, 12, 16];
    sizes.extend(r.lits_i.iter().cloned().filter(|&x| x > 2 && x < 60));
    for k in 0..n {
        if !r.time_left() { return; }
        let rng = &mut r.rng;
        let exact = k % 3 != 0;
        let fr = frame(rng, exact);
        let m = *rng.pick(&sizes);
        let g = *rng.pick(&[4, 5, 6, 8, 12, 30]);
        let (lo, c) = (if rng.bool() { 1.3 } else { rng.f(0.2, 0.9) }, rng.p2());
        let p = if exact { grid_polygon(rng, m.min(24), g) } else { Some(star(rng, c, lo, 1.3, m.max(3), true)).filter(|p| simple(p) && area2(p, &(0..p.len()).collect::<Vec<_>>()) > 0.01) };
        if let Some(p) = p {
            // with empty loops around it, and the other way round
            let mut loops = vec![p.clone()];
            if rng.below(3) == 0 { loops.insert(rng.below(2), vec![]); }
            if rng.below(5) == 0 { loops.insert(0, vec![]); }
            let far = (0..p.len()).all(|i| p[i].distance(p[(i + 1) % p.len()]) > 1e-2);
            if far {
                r.case("one outline", format!("plane {:?} loops {:?}", fr, loops), || check(&trim(fr, &loops), &loops, fr, exact, true));
                let back: Vec<Vec<Point2>> = loops.iter().map(|l| l.iter().rev().cloned().collect()).collect();
                r.case("one outline, the other way round", format!("plane {:?} loops {:?}", fr, back), || check(&trim(fr, &back), &back, fr, exact, false));
            }
        }
        let rng = &mut r.rng;
        if k % 40 == 0 {
            let loops: Vec<Vec<Point2>> = vec![vec![]; rng.below(4)];
            r.case("no outline", format!("{} empty loops", loops.len()), || check(&trim(fr, &loops), &loops, fr, exact, false));
        }
        // an outline with holes whose bridges cross nothing
        let rng = &mut r.rng;
        let no = rng.range(4, 9);
        let outer: Vec<Point2> = if rng.bool() { vec![Point2::new(-10.0, -10.0), Point2::new(10.0, -10.0), Point2::new(10.0, 10.0), Point2::new(-10.0, 10.0)] } else { star(rng, Point2::new(0.0, 0.0), 8.0, 12.0, no, true) };
        let mut loops = vec![];
        for (x, y) in [(-3.5, -3.5), (3.5, 2.0), (-2.5, 3.5)].iter().take(rng.range(1, 3)) {
            let nh = rng.range(3, 6);
            let (c, w) = (Point2::new(*x + rng.f(-0.4, 0.4), *y + rng.f(-0.4, 0.4)), rng.f(0.8, 1.6));
            loops.push(star(rng, c, 0.6, w, nh, false));
        }
        let at = if rng.bool() { 0 } else { rng.below(loops.len() + 1) };
        loops.insert(at, outer);
        if rng.below(3) == 0 { let q = rng.below(loops.len() + 1); loops.insert(q, vec![]); }
        let all: Vec<Point2> = loops.iter().flatten().cloned().collect();
        let fine = loops.iter().all(|l| l.is_empty() || simple(l) && (0..l.len()).all(|i| l[i].distance(l[(i + 1) % l.len()]) > 1e-2));
        let (lo, hi) = (loops.iter().filter(|l| !l.is_empty()).count(), loops.len());
        let mut offs = vec![0];
        for l in loops.iter().filter(|l| !l.is_empty()) { offs.push(offs[offs.len() - 1] + l.len()); }
        let signs = loops.iter().filter(|l| !l.is_empty()).all(|l| { let a = area2(l, &(0..l.len()).collect::<Vec<_>>()); if l.iter().any(|q| q.x.abs() > 7.0 || q.y.abs() > 7.0) { a > 0.0 } else { a < -0.01 } });
        let big = |l: &Vec<Point2>| l.iter().any(|q| q.x.abs() > 7.0 || q.y.abs() > 7.0);
        let out: Vec<Point2> = loops.iter().filter(|l| big(l)).flatten().cloned().collect();
        let within = |q: Point2| { let mut w = false; for i in 0..out.len() { let (a, b) = (out[i], out[(i + 1) % out.len()]); if (a.y > q.y) != (b.y > q.y) && q.x < (b.x - a.x) * (q.y - a.y) / (b.y - a.y) + a.x { w = !w; } } w };
        let inner = loops.iter().filter(|l| !big(l)).all(|l| l.iter().all(|&q| within(q)));
        if !fine || !signs || !inner || lo > hi { continue; }
        let v: Vec<usize> = merge_polygons(&all, &offs).into_iter().collect();
        let e: Vec<(usize, usize)> = (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect();
        let crossing = e.iter().any(|&(a, b)| e.iter().any(|&(c, d)| a != c && a != d && b != c && b != d && meet(all[a], all[b], all[c], all[d])));
        let fr = frame(&mut r.rng, false);
        // bridges that share a vertex are not judged
        let shared = (0..all.len()).any(|i| v.iter().filter(|&&q| q == i).count() > 2);
        if !crossing { r.case("an outline with holes", format!("plane {:?} loops {:?}", fr, loops), || check(&trim(fr, &loops), &loops, fr, false, !shared)); }
    }
}
