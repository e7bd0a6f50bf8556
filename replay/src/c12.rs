//! C12: polygon orientation, convexity and ear clipping are sound.
use crate::c13::{area2, star};
use crate::fw::*;
use geom3d::utils::*;
use geom3d::*;
use std::collections::VecDeque;

fn cross(a: Point2, b: Point2, c: Point2) -> f64 { (b - a).perp_dot(c - b) }
/// 1 left, 0 straight, -1 right
fn turn(a: Point2, b: Point2, c: Point2) -> i32 { let x = cross(a, b, c); if x.abs() <= 1e-7 { 0 } else if x > 0.0 { 1 } else { -1 } }
fn inside(a: Point2, b: Point2, c: Point2, q: Point2) -> bool { let t = |u: Point2, v: Point2| (u - q).perp_dot(v - q) >= 0.0; t(a, b) && t(b, c) && t(c, a) }
fn orient(a: Point2, b: Point2, c: Point2) -> f64 { (b - a).perp_dot(c - a) }
fn on(a: Point2, b: Point2, q: Point2) -> bool { orient(a, b, q) == 0.0 && (q - a).dot(q - b) <= 0.0 }
pub fn meet(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    (o1 * o2 < 0.0 && o3 * o4 < 0.0) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)
}
pub fn simple(p: &[Point2]) -> bool {
    let n = p.len();
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
        if j == i + 1 { if on(a, b, d) || on(c, d, a) { return false; } } else if i == 0 && j == n - 1 { if on(c, d, b) || on(a, b, c) { return false; } } else if meet(a, b, c, d) { return false; }
    } }
    true
}
fn at(v: &[usize], i: usize, k: i64) -> usize { let n = v.len() as i64; v[((n + i as i64 + k) % n) as usize] }
pub fn classes(p: &[Point2], v: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let t = |i: usize| turn(p[at(v, i, -1)], p[v[i]], p[at(v, i, 1)]);
    ((0..v.len()).filter(|&i| t(i) != 0).map(|i| v[i]).collect(), (0..v.len()).filter(|&i| t(i) < 0).map(|i| v[i]).collect())
}
fn is_ear(p: &[Point2], v: &[usize], l: &[usize], i: usize) -> bool {
    let (a, b, c) = (at(v, i, -1), v[i], at(v, i, 1));
    v.len() > 2 && turn(p[a], p[b], p[c]) > 0 && l.iter().all(|&q| q == a || q == b || q == c || !inside(p[a], p[b], p[c], p[q]))
}
/// the clip at i: what the ring and the list become
fn clip(p: &[Point2], v: &mut Vec<usize>, l: &mut Vec<usize>, i: usize) {
    let n = v.len();
    let (aa, a, b, c, cc) = (at(v, i, -2), at(v, i, -1), v[i], at(v, i, 1), at(v, i, 2));
    let mut gone = vec![i];
    for (x, pos, before, after) in [(a, (n + i - 1) % n, turn(p[aa], p[a], p[b]), turn(p[aa], p[a], p[c])), (c, (i + 1) % n, turn(p[b], p[c], p[cc]), turn(p[a], p[c], p[cc]))] {
        if before < 0 && after >= 0 { if let Some(k) = l.iter().position(|&q| q == x) { l.remove(k); if after == 0 { gone.push(pos); } } }
    }
    gone.sort();
    for g in gone.into_iter().rev() { v.remove(g); }
}
/// follow the triangles: each is a clipped ear of the ring that is left; `stop`: the last triangle or no ear is left
pub fn follow(p: &[Point2], v: &[usize], l: &[usize], t: &[u32]) -> Result<(), String> {
    ensure(t.len() % 3 == 0, || format!("{} indices", t.len()))?;
    let (mut v, mut l) = (v.to_vec(), l.to_vec());
    let m = t.len() / 3;
    for (k, c) in t.chunks(3).enumerate() {
        let c = [c[0] as usize, c[1] as usize, c[2] as usize];
        let at_i = (0..v.len()).find(|&i| is_ear(p, &v, &l, i) && at(&v, i, -1) == c[0] && v[i] == c[1] && at(&v, i, 1) == c[2]);
        match at_i {
            Some(i) if k + 1 < m || v.len() > 3 || v.len() == 3 && i == 1 || v.len() == 3 => { clip(p, &mut v, &mut l, i); }
            _ => return ensure(k + 1 == m && v.len() == 3 && c[..] == v[..], || format!("triangle {:?} is neither an ear of the ring {:?} (reflex {:?}) nor the last one", c, v, l)),
        }
    }
    ensure(v.len() <= 2 || v.len() > 3 && (0..v.len()).all(|i| !is_ear(p, &v, &l, i)), || format!("clipping stopped at the ring {:?} (reflex {:?})", v, l))
}
pub fn covered(p: &[Point2], t: &[u32], a: f64) -> Result<(), String> {
    let s: f64 = t.chunks(3).map(|c| orient(p[c[0] as usize], p[c[1] as usize], p[c[2] as usize])).sum();
    ensure((s - a).abs() <= 1e-6 * (1.0 + a), || format!("the triangles have twice the area {}, the polygon has {}", s, a))?;
    for c in t.chunks(3) { let o = orient(p[c[0] as usize], p[c[1] as usize], p[c[2] as usize]); ensure(o > 0.0, || format!("triangle {:?} has twice the signed area {}", c, o))?; }
    Ok(())
}
/// a simple counter-clockwise polygon on a grid
pub fn grid_polygon(r: &mut Rng, n: usize, g: usize) -> Option<Vec<Point2>> {
    let mut p: Vec<Point2> = (0..n).map(|_| Point2::new(r.below(g) as f64, r.below(g) as f64)).collect();
    for _ in 0..80 {
        let mut ch = false;
        'o: for i in 0..n { for j in i + 2..n {
            if i == 0 && j == n - 1 { continue; }
            if meet(p[i], p[i + 1], p[j], p[(j + 1) % n]) { p[i + 1..=j].reverse(); ch = true; break 'o; }
        } }
        if !ch { break; }
    }
    if !simple(&p) { return None; }
    if area2(&p, &(0..n).collect::<Vec<_>>()) < 0.0 { p.reverse(); }
    Some(p)
}
pub fn run(r: &mut Run) {
    let n = r.n(40000, 400000);
    let mut sizes = vec![3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 12, 16];
    sizes.extend(r.lits_i.iter().cloned().filter(|&x| x > 2 && x < 60));
    for k in 0..n {
        if !r.time_left() { return; }
        let rng = &mut r.rng;
        let m = *rng.pick(&sizes);
        let g = *rng.pick(&[3, 4, 5, 6, 9, 20]);
        let mut any: Vec<Point2> = (0..m).map(|_| if k % 3 == 0 { rng.p2() } else { Point2::new(rng.below(g) as f64, rng.below(g) as f64) }).collect();
        if k % 50 == 0 { let q = rng.below(3); any.truncate(q); }
        let ids: Vec<usize> = (0..any.len()).collect();
        if !any.is_empty() {
            r.case("orientation", format!("{:?}", any), || { let a = area2(&any, &ids); let m = any.iter().map(|q| q.length_squared()).fold(0.0, f64::max) * any.len() as f64; let got = is_polygon_counter_clockwise(&any); let exact = any.iter().all(|q| q.x.fract() == 0.0 && q.y.fract() == 0.0); ensure(a.abs() <= 1e-12 * m && !exact || got == (a > 0.0), || format!("says {}, twice the signed area is {}", got, a)) });
        }
        r.case("convexity", format!("{:?}", any), || {
            let (v, c) = compute_vertex_convexity(&any);
            let want = classes(&any, &ids);
            ensure(v.iter().cloned().eq(want.0.iter().cloned()) && c == want.1, || format!("vertices {:?} reflex {:?}, expected {:?}", v, c, want))?;
            let t = trianglate_polygon(&any, v, c);
            follow(&any, &want.0, &want.1, &t)
        });
        // a ring over some of the points, which may visit one twice
        let rng = &mut r.rng;
        let sub: Vec<usize> = if any.is_empty() { vec![] } else { let q = rng.below(2 * any.len() + 1); (0..q).map(|_| rng.below(any.len())).collect() };
        r.case("reflex corners of a ring", format!("points={:?} ring={:?}", any, sub), || {
            let mut v: VecDeque<usize> = sub.iter().cloned().collect();
            let c = find_concave_vertices(&any, &mut v);
            let mut want = classes(&any, &sub);
            want.1.sort();
            ensure(v.iter().cloned().eq(want.0.iter().cloned()) && c == want.1, || format!("vertices {:?} reflex {:?}, expected {:?}", v, c, want))?;
            let t = trianglate_polygon(&any, v, c);
            ensure(t.iter().all(|&i| sub.contains(&(i as usize))), || format!("triangles {:?} use other vertices", t))?;
            ensure(t.len() % 3 == 0 && t.len() <= 3 * sub.len(), || format!("{} indices", t.len()))
        });
        // simple polygons are covered
        let rng = &mut r.rng;
        let (m, g) = (*rng.pick(&sizes), *rng.pick(&[4, 5, 6, 8, 12, 30]));
        let p = if k % 5 == 4 { let (lo, c) = (rng.f(0.2, 0.9), rng.p2()); Some(star(rng, c, lo, 1.3, m.max(3), true)).filter(|p| simple(p) && area2(p, &(0..p.len()).collect::<Vec<_>>()) > 0.0) } else { grid_polygon(rng, m.min(24), g) };
        if let Some(p) = p {
            let ids: Vec<usize> = (0..p.len()).collect();
            let a = area2(&p, &ids);
            for mode in 0..2 {
                r.case("a simple polygon is covered", format!("{:?} mode {}", p, mode), || {
                    let (v, c) = if mode == 0 { compute_vertex_convexity(&p) } else { let mut v: VecDeque<usize> = ids.iter().cloned().collect(); let c = find_concave_vertices(&p, &mut v); (v, c) };
                    let (v0, c0): (Vec<usize>, Vec<usize>) = (v.iter().cloned().collect(), c.clone());
                    let t = trianglate_polygon(&p, v, c);
                    covered(&p, &t, a)?;
                    follow(&p, &v0, &c0, &t)
                });
            }
        }
        // a polygon with a hole, merged by a bridge that crosses nothing
        let rng = &mut r.rng;
        if k % 2 == 0 {
            let (no, nh) = (rng.range(4, 9), rng.range(3, 5));
            let mut p: Vec<Point2> = if rng.bool() { vec![Point2::new(-10.0, -10.0), Point2::new(10.0, -10.0), Point2::new(10.0, 10.0), Point2::new(-10.0, 10.0)] } else { star(rng, Point2::new(0.0, 0.0), 8.0, 12.0, no, true) };
            let c = Point2::new(rng.f(-3.0, 3.0), rng.f(-3.0, 3.0));
            let h = star(rng, c, 0.7, 2.2, nh, false);
            let k0 = p.len();
            p.extend(h);
            let offs = vec![0, k0, p.len()];
            let ring = merge_polygons(&p, &offs);
            let v: Vec<usize> = ring.iter().cloned().collect();
            let a: f64 = area2(&p, &v);
            let edges: Vec<(usize, usize)> = (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect();
            let crossing = edges.iter().any(|&(a, b)| edges.iter().any(|&(c, d)| a != c && a != d && b != c && b != d && meet(p[a], p[b], p[c], p[d])));
            let within = |q: Point2| { let mut w = false; for i in 0..k0 { let (a, b) = (p[i], p[(i + 1) % k0]); if (a.y > q.y) != (b.y > q.y) && q.x < (b.x - a.x) * (q.y - a.y) / (b.y - a.y) + a.x { w = !w; } } w };
            let ok = p[k0..].iter().all(|&q| within(q)) && simple(&p[..k0]) && simple(&p[k0..]) && area2(&p, &(0..k0).collect::<Vec<_>>()) > 0.0 && area2(&p, &(k0..p.len()).collect::<Vec<_>>()) < 0.0;
            if ok && !crossing {
                r.case("a polygon with a hole is covered", format!("{:?} offsets {:?}", p, offs), || {
                    let mut v = merge_polygons(&p, &offs);
                    let c = find_concave_vertices(&p, &mut v);
                    covered(&p, &trianglate_polygon(&p, v, c), a)
                });
            }
        }
    }
}
