//! C13: hole merging yields one ring visiting every boundary edge once.
use crate::fw::*;
use geom3d::utils::merge_polygons;
use geom3d::*;
use std::collections::BTreeMap;

pub fn area2(p: &[Point2], r: &[usize]) -> f64 { (0..r.len()).map(|i| p[r[i]].perp_dot(p[r[(i + 1) % r.len()]])).sum() }
fn seg_dist(a: Point2, b: Point2, p: Point2) -> f64 {
    let ab = b - a;
    let l = ab.length_squared();
    let t = if l == 0.0 { 0.0 } else { ((p - a).dot(ab) / l).max(0.0).min(1.0) };
    (a + ab * t - p).length()
}
/// a star-shaped loop around c
pub fn star(r: &mut Rng, c: Point2, lo: f64, hi: f64, n: usize, ccw: bool) -> Vec<Point2> {
    let a0 = r.f(0.0, 6.28);
    let mut v: Vec<Point2> = (0..n).map(|i| { let a = a0 + (i as f64 + r.f(-0.3, 0.3)) * std::f64::consts::TAU / n as f64; let d = r.f(lo, hi); c + Point2::new(a.cos() * d, a.sin() * d) }).collect();
    if !ccw { v.reverse(); }
    let k = r.below(n);
    v.rotate_left(k);
    v
}
/// the ring is the loops plus each bridge both ways
pub fn check(p: &[Point2], offs: &[usize], ring: &[usize]) -> Result<(), String> {
    let n = offs.len() - 1;
    let start = offs[0];
    let total = offs[n] - start;
    ensure(ring.len() == total + 2 * (n - 1), || format!("the ring has {} entries, {} vertices and {} bridges need {}", ring.len(), total, n - 1, total + 2 * (n - 1)))?;
    let reach = |j: usize| (offs[j]..offs[j + 1]).map(|i| p[i].x).fold(f64::MIN, f64::max);
    let far = (0..n).map(reach).fold(f64::MIN, f64::max);
    let outer = (0..n).find(|&j| offs[j] <= ring[0] && ring[0] < offs[j + 1]).ok_or("the ring starts outside every loop")?;
    ensure(ring[0] == offs[outer] && reach(outer) == far, || format!("the ring starts at vertex {}, the loop reaching furthest is another one", ring[0]))?;
    let mut bal: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for i in 0..ring.len() { *bal.entry((ring[i], ring[(i + 1) % ring.len()])).or_insert(0) += 1; }
    for j in 0..n { for i in offs[j]..offs[j + 1] { let b = if i + 1 == offs[j + 1] { offs[j] } else { i + 1 }; *bal.entry((i, b)).or_insert(0) -= 1; } }
    let mut bridges = vec![];
    for (&(a, b), &c) in &bal {
        ensure(c >= 0, || format!("the boundary edge {} -> {} is missing", a, b))?;
        ensure(c == bal.get(&(b, a)).cloned().unwrap_or(0), || format!("the extra edge {} -> {} is not walked back", a, b))?;
        if c > 0 && a < b { for _ in 0..c { bridges.push((a, b)); } }
    }
    ensure(bridges.len() == n - 1, || format!("{} bridges for {} holes: {:?}", bridges.len(), n - 1, bridges))?;
    for j in 0..n {
        if j == outer { continue; }
        let tops: Vec<usize> = (offs[j]..offs[j + 1]).filter(|&i| p[i].x == reach(j)).collect();
        ensure(bridges.iter().any(|b| tops.contains(&b.0) || tops.contains(&b.1)), || format!("no bridge at the furthest vertex of hole {}: {:?}", j, bridges))?;
    }
    for i in start..offs[n] { ensure(ring.contains(&i), || format!("vertex {} is missing", i))?; }
    let want: f64 = (0..n).map(|j| area2(p, &(offs[j]..offs[j + 1]).collect::<Vec<_>>())).sum();
    let got = area2(p, ring);
    let m: f64 = p.iter().map(|q| q.length_squared()).fold(1.0, f64::max) * ring.len() as f64;
    ensure((want - got).abs() <= 1e-12 * m, || format!("twice the signed area is {}, the loops have {}", got, want))?;
    // replay the holes from right to left: each bridge ends on the start of a nearest edge
    if n == 2 {
        let h = 1 - outer;
        let b = bridges[0];
        let (o, m) = if offs[h] <= b.0 && b.0 < offs[h + 1] { (b.1, b.0) } else { (b.0, b.1) };
        let d = |i: usize| { let e = if i + 1 == offs[outer + 1] { offs[outer] } else { i + 1 }; seg_dist(p[i], p[e], p[m]) };
        let best = (offs[outer]..offs[outer + 1]).map(d).fold(f64::MAX, f64::min);
        ensure(d(o) <= best + 1e-9 * (1.0 + best), || format!("the bridge leads to vertex {} whose edge is at distance {}, another edge is at {}", o, d(o), best))?;
    }
    Ok(())
}
/// an outer loop with holes (or just any loops), in any order
pub fn loops(r: &mut Rng, k: usize, sizes: &[usize]) -> (Vec<Point2>, Vec<usize>) {
    let holes = r.below(5);
    let s = *r.pick(&[1.0, 1.0, 20.0, 0.01]);
    let mut ls: Vec<Vec<Point2>> = vec![];
    if k % 4 == 3 {
        for _ in 0..=holes { let n = *r.pick(sizes); let g = r.bool(); ls.push((0..n).map(|_| if g { Point2::new(r.below(7) as f64, r.below(7) as f64) } else { r.p2() }).collect()); }
    } else {
        let n = (*r.pick(sizes)).max(3);
        ls.push(if k % 4 == 2 { vec![Point2::new(-10.0, -10.0), Point2::new(10.0, -10.0), Point2::new(10.0, 10.0), Point2::new(-10.0, 10.0)] } else { star(r, Point2::new(0.0, 0.0), 14.0, 16.0, n.max(8), true) });
        for h in 0..holes {
            let c = Point2::new(-7.5 + 5.0 * (h % 4) as f64, r.f(-3.0, 3.0));
            let n = (*r.pick(sizes)).max(3).min(40);
            ls.push(if r.below(3) == 0 { let (w, x) = (r.f(0.5, 2.0), r.f(0.5, 2.0)); vec![c + Point2::new(-w, -x), c + Point2::new(-w, x), c + Point2::new(w, x), c + Point2::new(w, -x)] } else { star(r, c, 0.7, 2.2, n, false) });
        }
    }
    r.shuffle(&mut ls);
    let mut offs = vec![0];
    let mut p = vec![];
    for l in ls { p.extend(l.into_iter().map(|q| q * s)); offs.push(p.len()); }
    (p, offs)
}
pub fn run(r: &mut Run) {
    let n = r.n(4000, 60000);
    let mut sizes = vec![1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 12];
    sizes.extend(r.lits_i.iter().cloned().filter(|&x| x > 0 && x < 300));
    for k in 0..n {
        if !r.time_left() { return; }
        let (p, offs) = loops(&mut r.rng, k, &sizes);
        r.case("one ring through all loops", format!("points={:?} offsets={:?}", p, offs), move || {
            let ring: Vec<usize> = merge_polygons(&p, &offs).into_iter().collect();
            check(&p, &offs, &ring)
        });
    }
}
