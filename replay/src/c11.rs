//! C11: the advancing front mesher fills exactly the given boundary.
use crate::c13::star;
use crate::fw::*;
use geom3d::utils::generate_triangular_mesh;
use geom3d::*;
use std::collections::BTreeMap;
use std::sync::mpsc;
use std::time::Duration;

pub fn check(p: &[Point2], offs: &[usize], v: &[Point2], t: &[u32]) -> Result<(), String> {
    ensure(v.len() >= p.len(), || format!("{} vertices for {} boundary points", v.len(), p.len()))?;
    for i in 0..p.len() { ensure(v[i] == p[i], || format!("boundary point {} came back as {:?}, it is {:?}", i, v[i], p[i]))?; }
    ensure(t.len() % 3 == 0, || format!("{} indices", t.len()))?;
    for &i in t { ensure((i as usize) < v.len(), || format!("index {} of {} vertices", i, v.len()))?; }
    let mut bal: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for c in t.chunks(3) { for k in 0..3 { *bal.entry((c[k] as usize, c[(k + 1) % 3] as usize)).or_insert(0) += 1; } }
    for w in offs.windows(2) { for i in w[0]..w[1] { let b = if i + 1 == w[1] { w[0] } else { i + 1 }; *bal.entry((i, b)).or_insert(0) -= 1; } }
    for (&(a, b), &c) in &bal { let o = bal.get(&(b, a)).cloned().unwrap_or(0); ensure(c == o, || format!("edge {} -> {}: {} more times than the boundary has it, its reverse {} times", a, b, c, o))?; }
    Ok(())
}
fn subdivide(l: &[Point2], d: f64) -> Vec<Point2> {
    let mut v = vec![];
    for i in 0..l.len() { let (a, b) = (l[i], l[(i + 1) % l.len()]); let n = ((b - a).length() / d).round().max(1.0) as usize; for k in 0..n { v.push(a + (b - a) * (k as f64 / n as f64)); } }
    v
}
pub fn run(r: &mut Run) {
    let n = r.n(1500, 20000);
    let mut slow = 0;
    for k in 0..n {
        if !r.time_left() { return; }
        let rng = &mut r.rng;
        let mut ls: Vec<Vec<Point2>> = vec![];
        let c = rng.p2();
        let kind = if k % 60 == 59 && slow < 4 { 5 } else { k % 5 };
        match kind {
            0 => { let (w, h) = (rng.below(6) + 1, rng.below(6) + 1); let d = *rng.pick(&[1.0, 0.5, 2.0]); ls.push(subdivide(&[c, c + Point2::new(w as f64 * d, 0.0), c + Point2::new(w as f64 * d, h as f64 * d), c + Point2::new(0.0, h as f64 * d)], d)); }
            1 => { let m = rng.below(30) + 3; ls.push((0..m).map(|i| { let a = (i as f64) * std::f64::consts::TAU / m as f64; c + Point2::new(a.cos(), a.sin()) }).collect()); }
            2 => { let m = rng.below(12) + 3; ls.push(star(rng, c, 0.8, 1.2, m, true)); }
            3 => { let m = rng.below(12) + 5; ls.push(star(rng, c, 3.0, 3.4, m * 2, true)); ls.push(star(rng, c, 0.8, 1.0, m / 2 + 3, false)); }
            4 => { let d = 0.5; let w = 3.0 + rng.below(4) as f64; ls.push(subdivide(&[c, c + Point2::new(w, 0.0), c + Point2::new(w, w), c + Point2::new(0.0, w)], d)); let mut h = vec![]; for q in 0..rng.below(3) { let o = c + Point2::new(0.75 + q as f64, 1.0); h.push(subdivide(&[o, o + Point2::new(0.0, 0.5), o + Point2::new(0.5, 0.5), o + Point2::new(0.5, 0.0)], d)); } ls.extend(h); }
            _ => { let m = rng.below(5) + 3; ls.push((0..m).map(|_| rng.p2()).collect()); }
        }
        if rng.bool() { rng.shuffle(&mut ls); }
        let mut offs = vec![0]; let mut p = vec![];
        for l in ls { p.extend(l); offs.push(p.len()); }
        let (tx, rx) = mpsc::channel();
        let (p2, o2) = (p.clone(), offs.clone());
        let mut hung = false;
        let h = &mut hung;
        r.case("the triangles close up on the boundary", format!("points={:?} offsets={:?}", p, offs), move || {
            std::thread::spawn(move || { let q = std::panic::catch_unwind(|| generate_triangular_mesh(&p2, &o2)); let _ = tx.send(q); });
            match rx.recv_timeout(Duration::from_millis(if kind == 5 { 200 } else { 20000 })) {
                Ok(Ok((v, t))) => check(&p, &offs, &v, &t),
                Ok(Err(_)) => Err("panicked".into()),
                Err(_) => { *h = true; ensure(kind == 5, || "not finished within 20 s".into()) }
            }
        });
        // arbitrary loops may cross themselves: the front need not close then
        if hung { slow += 1; }
    }
}
