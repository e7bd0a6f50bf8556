//! C18: point cloud files round-trip.
use crate::c15::coord;
use crate::fw::*;
use geom3d::points::*;
use geom3d::*;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// run `f` while no file can grow beyond `limit` bytes (a full disk)
pub fn with_file_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        signal(25, 1);
        let mut old = [0u64; 2];
        getrlimit(1, &mut old);
        setrlimit(1, &[limit, old[1]]);
        let r = f();
        setrlimit(1, &old);
        r
    }
}
fn pt(r: &mut Run) -> Point3 { Point3::new(coord(r), coord(r), coord(r)) }
fn same3(a: Point3, b: Point3) -> bool { (0..3).all(|i| a[i].to_bits() == b[i].to_bits()) }
fn rows(t: &str, n: usize, comma: bool) -> Result<Vec<Vec<f64>>, String> {
    ensure(t.is_empty() || t.ends_with('\n'), || "the last line is not terminated".into())?;
    t.lines().map(|l| {
        let f: Vec<&str> = if comma { l.split(',').collect() } else { l.split(|c: char| c == ' ' || c == '\t' || c == ',').filter(|s| !s.is_empty()).collect() };
        ensure(f.len() == n, || format!("line {:?} has {} fields, not {}", l, f.len(), n))?;
        f.iter().map(|s| s.trim().parse::<f64>().map_err(|e| format!("{:?}: {}", l, e))).collect()
    }).collect()
}
fn eq(got: &[Vec<f64>], want: &[Vec<f64>]) -> Result<(), String> {
    ensure(got.len() == want.len(), || format!("{} lines for {} points", got.len(), want.len()))?;
    for (i, (a, b)) in got.iter().zip(want).enumerate() { ensure(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()), || format!("line {} reads {:?}, the point is {:?}", i, a, b))?; }
    Ok(())
}
pub fn run(r: &mut Run) {
    let n = r.n(1500, 20000);
    let mut big: Vec<usize> = r.lits_i.iter().map(|&x| x as usize).filter(|&x| x < 20000).collect();
    big.extend([1000, 4096, 300, 3000]);
    for k in 0..n {
        if !r.time_left() { return; }
        let m = if k % 50 == 7 { *r.rng.pick(&big) } else { r.rng.below(12) };
        let ps: Vec<Point3> = (0..m).map(|_| pt(r)).collect();
        let sh = |p: &Vec<Point3>| format!("{} points {:?}", p.len(), p.iter().take(20).collect::<Vec<_>>());
        let _: bool = match k % 6 {
            0 => r.case("save and load", sh(&ps), || {
                std::fs::write("p.xyz", "1 2 3\n".repeat(5000)).unwrap();
                save_point_cloud(&ps, "p.xyz").map_err(|e| e.to_string())?;
                let t = std::fs::read_to_string("p.xyz").unwrap();
                eq(&rows(&t, 3, false)?, &ps.iter().map(|p| [p.x, p.y, p.z].to_vec()).collect::<Vec<_>>())?;
                let q = load_point_cloud("p.xyz").map_err(|e| e.to_string())?;
                ensure(q.len() == ps.len() && q.iter().zip(&ps).all(|(a, b)| same3(*a, *b)), || format!("loaded {:?}", q.iter().take(20).collect::<Vec<_>>()))
            }),
            1 => {
                let v: Vec<(Point3, Vec3)> = ps.iter().map(|p| (*p, pt(r))).collect();
                r.case("save with normals", format!("{:?}", v.iter().take(20).collect::<Vec<_>>()), || {
                    std::fs::write("n.xyz", "1 2 3\n".repeat(5000)).unwrap();
                    save_point_cloud_with_normal(&v, "n.xyz").map_err(|e| e.to_string())?;
                    let t = std::fs::read_to_string("n.xyz").unwrap();
                    eq(&rows(&t, 6, false)?, &v.iter().map(|(p, q)| [[p.x, p.y, p.z], [q.x, q.y, q.z]].concat()).collect::<Vec<_>>())
                })
            }
            2 => {
                let v: Vec<Point2> = ps.iter().map(|p| Point2::new(p.x, p.y)).collect();
                r.case("save planar points", format!("{:?}", v.iter().take(20).collect::<Vec<_>>()), || {
                    std::fs::write("q.txt", "1,3\n".repeat(5000)).unwrap();
                    save_points(&v, "q.txt").map_err(|e| e.to_string())?;
                    let t = std::fs::read_to_string("q.txt").unwrap();
                    eq(&rows(&t, 2, false)?, &v.iter().map(|p| vec![p.x, p.y]).collect::<Vec<_>>())
                })
            }
            3 => {
                let s = *r.rng.pick(&[0.0, 1.0, -1.0, 0.5, 1e-3, 25.4, 1000.0]);
                let s = if r.rng.bool() { s } else { r.rng.f(-10.0, 10.0) };
                r.case("scale", format!("{} by {:?}", sh(&ps), s), || {
                    let q = scale_points(&ps, s);
                    ensure(q.len() == ps.len() && q.iter().zip(&ps).all(|(a, b)| (0..3).all(|i| a[i] == b[i] * s)), || format!("scaled {:?}", q))
                })
            }
            4 => {
                // a file in the format, with comments, labels, separators and odd lines
                let mut t = String::new();
                let mut want = vec![];
                let lines = r.rng.below(14);
                for _ in 0..lines {
                    let p = pt(r);
                    let any = ["  ", " ", ",", "\t", ", ", " \t", ",,"];
                    let s: Vec<&str> = (0..6).map(|_| *r.rng.pick(&any)).collect();
                    let f = |v: &[String]| { let mut o = String::new(); for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(s[i]); } o.push_str(x); } o };
                    let (x, y, z) = match r.rng.below(3) { 0 => (format!("{:e}", p.x), format!("{:e}", p.y), format!("{:e}", p.z)), 1 => (format!("{:+}", p.x), p.y.to_string(), p.z.to_string()), _ => (p.x.to_string(), p.y.to_string(), p.z.to_string()) };
                    let mut l = match r.rng.below(12) {
                        0 => format!("# {} {} {}", x, y, z),
                        1 => format!("#{}", f(&[x, y, z])),
                        2 => String::new(),
                        3 => f(&[x, y]),
                        4 => f(&[x, y, z, "1".into(), "2".into()]),
                        5 => "# a comment".into(),
                        6 => { want.push(p); f(&[["v", "P17", "12", "label", "#"][r.rng.below(4)].into(), x, y, z]) }
                        7 => { want.push(p); let n = r.rng.f(-50.0, 50.0); let lab = match r.rng.below(6) { 0 => format!("{}", n), 1 => format!("{:.1}", n), 2 => x.clone(), 3 => ["nan", "inf", "-0", "1e5", "0.5", "-1"][r.rng.below(6)].into(), _ => r.rng.below(100).to_string() }; f(&[lab, x, y, z]) }
                        8 => { want.push(p); format!(" {}", f(&[x, y, z])) }
                        9 => { want.push(p); format!("{}{}", f(&[x, y, z]), s[5]) }
                        10 => "x".into(),
                        _ => { want.push(p); f(&[x, y, z]) }
                    };
                    if r.rng.below(6) == 0 { l.push('\r'); if l.len() == 1 { l.clear(); } }
                    t.push_str(&l); t.push('\n');
                }
                if r.rng.bool() { t.pop(); if t.ends_with('\r') { t.pop(); } }
                r.case("load", format!("file {:?}", t), || {
                    std::fs::write("l.xyz", &t).unwrap();
                    let q = load_point_cloud("l.xyz").map_err(|e| e.to_string())?;
                    ensure(q.len() == want.len() && q.iter().zip(&want).all(|(a, b)| same3(*a, *b)), || format!("loaded {:?}, the file has {:?}", q, want))
                })
            }
            _ => {
                // a disk that fills up while saving: either an error, or everything is there
                if k % 30 != 5 { continue; }
                let m = r.rng.range(1, 6);
                let ps: Vec<Point3> = (0..m).map(|_| pt(r)).collect();
                let v: Vec<(Point3, Vec3)> = ps.iter().map(|p| (*p, *p)).collect();
                let w: Vec<Point2> = ps.iter().map(|p| Point2::new(p.x, p.y)).collect();
                let which = r.rng.below(3);
                let cut = r.rng.range(0, 4);
                r.case("save on a full disk", format!("{} with {} bytes missing at the end, kind {}", sh(&ps), cut, which), || {
                    let save = || match which { 0 => save_point_cloud(&ps, "f.xyz"), 1 => save_point_cloud_with_normal(&v, "f.xyz"), _ => save_points(&w, "f.xyz") };
                    save().map_err(|e| e.to_string())?;
                    let full = std::fs::read("f.xyz").unwrap();
                    let res = with_file_limit(full.len() as u64 - cut as u64, save);
                    let got = std::fs::read("f.xyz").unwrap();
                    ensure(res.is_err() || got == full, || format!("reported success, but the file has {} bytes of {}", got.len(), full.len()))
                })
            }
        };
    }
}
