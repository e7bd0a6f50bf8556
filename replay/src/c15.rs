//! C15: OBJ export writes every vertex, normal and triangle with consistent numbering.
use crate::fw::*;
use geom3d::*;

pub fn coord(r: &mut Run) -> f64 {
    match r.rng.below(8) {
        0 => *r.rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, 1e-7, 1e21, -1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 123456789.123456789, 0.30000000000000004]),
        1 => r.rng.f(-1.0, 1.0) * 10f64.powi(r.rng.range(0, 40) as i32 - 20),
        2 if !r.lits_f.is_empty() => { let v: Vec<f64> = r.lits_f.iter().copied().collect(); *r.rng.pick(&v) }
        _ => r.rng.f(-100.0, 100.0),
    }
}
pub fn mesh(r: &mut Run, sizes: &[usize], normals: bool) -> TriangleMesh {
    let nv = *r.rng.pick(sizes);
    let nt = if nv == 0 { 0 } else { *r.rng.pick(sizes) };
    TriangleMesh {
        vertices: (0..nv).map(|_| Point3::new(coord(r), coord(r), coord(r))).collect(),
        normals: if normals { (0..nv).map(|_| Vec3::new(coord(r), coord(r), coord(r))).collect() } else { vec![] },
        triangles: (0..3 * nt).map(|_| r.rng.below(nv) as u32).collect(),
    }
}
#[derive(Debug, Default)]
struct Obj { v: Vec<[f64; 3]>, n: Vec<[f64; 3]>, f: Vec<([i64; 3], Option<[i64; 3]>)>, /// kinds of the lines in order
    kinds: Vec<u8> }
fn parse(t: &str) -> Result<Obj, String> {
    let mut o = Obj::default();
    if !t.is_empty() && !t.ends_with('\n') { return Err("the last line is not terminated".into()); }
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        let nums = |w: &[&str]| -> Result<[f64; 3], String> { if w.len() != 3 { return Err(format!("line {:?} has {} numbers", l, w.len())); } let mut a = [0.0; 3]; for i in 0..3 { a[i] = w[i].parse::<f64>().map_err(|e| format!("line {:?}: {}", l, e))?; } Ok(a) };
        match w[0] {
            "v" => { o.v.push(nums(&w[1..])?); o.kinds.push(0) }
            "vn" => { o.n.push(nums(&w[1..])?); o.kinds.push(1) }
            "f" => {
                if w.len() != 4 { return Err(format!("face line {:?}", l)); }
                let mut a = [0i64; 3]; let mut n = [0i64; 3]; let mut has = 0;
                for i in 0..3 {
                    let p: Vec<&str> = w[i + 1].split('/').collect();
                    a[i] = p[0].parse().map_err(|_| format!("face line {:?}", l))?;
                    if p.len() > 1 && !p[1].is_empty() { return Err(format!("face line {:?} has texture numbers", l)); }
                    if p.len() > 2 { n[i] = p[2].parse().map_err(|_| format!("face line {:?}", l))?; has += 1; }
                }
                if has != 0 && has != 3 { return Err(format!("face line {:?}", l)); }
                o.f.push((a, if has == 3 { Some(n) } else { None })); o.kinds.push(2)
            }
            _ => return Err(format!("unknown line {:?}", l)),
        }
    }
    Ok(o)
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn check(t: &str, ms: &[TriangleMesh], vs: i64, ns: i64, lead: usize) -> Result<(), String> {
    let o = parse(t)?;
    let (mut v, mut n, mut f, mut k) = (0, 0, 0, 0);
    ensure(o.kinds.len() >= lead, || "lines missing".into())?;
    let mut base = (vs, ns);
    for (i, m) in ms.iter().enumerate() {
        for p in &m.vertices {
            ensure(o.kinds.get(k) == Some(&0), || format!("mesh {}: line {} is not a vertex line", i, k))?;
            let q = o.v[v]; ensure(same(q[0], p.x) && same(q[1], p.y) && same(q[2], p.z), || format!("mesh {}: vertex {:?} reads back as {:?}", i, p, q))?; v += 1; k += 1;
        }
        for p in &m.normals {
            ensure(o.kinds.get(k) == Some(&1), || format!("mesh {}: line {} is not a normal line", i, k))?;
            let q = o.n[n]; ensure(same(q[0], p.x) && same(q[1], p.y) && same(q[2], p.z), || format!("mesh {}: normal {:?} reads back as {:?}", i, p, q))?; n += 1; k += 1;
        }
        for t in m.triangles.chunks(3) {
            ensure(o.kinds.get(k) == Some(&2), || format!("mesh {}: line {} is not a face line", i, k))?;
            let (a, b) = o.f[f];
            for j in 0..3 {
                ensure(a[j] == t[j] as i64 + base.0, || format!("mesh {}: triangle {:?} is written with vertex numbers {:?}, the mesh's vertices start at number {}", i, t, a, base.0))?;
                if m.normals.is_empty() { ensure(b.is_none(), || format!("mesh {} without normals: normal numbers {:?}", i, b))?; }
                else { ensure(b.map_or(false, |b| b[j] == t[j] as i64 + base.1), || format!("mesh {}: triangle {:?} is written with normal numbers {:?}, the mesh's normals start at number {}", i, t, b, base.1))?; }
            }
            f += 1; k += 1;
        }
        base = (base.0 + m.vertices.len() as i64, base.1 + m.normals.len() as i64);
    }
    ensure(k == o.kinds.len(), || format!("{} lines after the last triangle", o.kinds.len() - k))
}
fn show(ms: &[TriangleMesh]) -> String { ms.iter().map(|m| format!("[{} vertices {:?}, {} normals {:?}, triangles {:?}]", m.vertices.len(), m.vertices.iter().take(12).collect::<Vec<_>>(), m.normals.len(), m.normals.iter().take(12).collect::<Vec<_>>(), m.triangles.iter().take(60).collect::<Vec<_>>())).collect::<Vec<_>>().join(", ") }
pub fn run(r: &mut Run) {
    let n = r.n(900, 15000);
    let mut big: Vec<usize> = r.lits_i.iter().map(|&x| x as usize).filter(|&x| x < 5000).collect();
    big.extend([1000, 700, 256, 257, 4096]);
    for k in 0..n {
        if !r.time_left() { return; }
        let sizes: Vec<usize> = if k % 97 == 5 { big.clone() } else { vec![0, 1, 2, 3, 4, 5, 9, 12, 33] };
        match k % 3 {
            0 => {
                let nrm = r.rng.bool();
                let m = mesh(r, &sizes, nrm);
                let (vs, ns) = if r.rng.bool() { (1u32, 1u32) } else { (1 + r.rng.below(100000) as u32, 1 + r.rng.below(100000) as u32) };
                r.case("write_obj", format!("write_obj(.., {}, {}) of {}", vs, ns, show(&[m.clone()])), || {
                    let mut out: Vec<u8> = b"# x\n".to_vec();
                    m.write_obj(&mut out, vs, ns).map_err(|e| e.to_string())?;
                    ensure(out.starts_with(b"# x\n"), || "what was there before is gone".into())?;
                    check(std::str::from_utf8(&out).map_err(|e| e.to_string())?, &[m.clone()], vs as i64, ns as i64, 0)
                });
            }
            1 => {
                let nrm = r.rng.bool();
                let m = mesh(r, &sizes, nrm);
                r.case("mesh save_as_obj", format!("save_as_obj of {}", show(&[m.clone()])), || {
                    std::fs::write("m.obj", "left over from before\n".repeat(50)).unwrap();
                    m.save_as_obj("m.obj").map_err(|e| e.to_string())?;
                    check(&std::fs::read_to_string("m.obj").unwrap(), &[m.clone()], 1, 1, 0)
                });
            }
            _ => {
                let c = r.rng.below(6);
                let style = r.rng.below(3);
                let ms: Vec<TriangleMesh> = (0..c).map(|_| { let nrm = match style { 0 => false, 1 => true, _ => r.rng.bool() }; mesh(r, &sizes, nrm) }).collect();
                r.case("model save_as_obj", format!("a model of {} faces: {}", c, show(&ms)), || {
                    let mut model = Model::new();
                    for m in &ms { model.add_face(m.clone()); }
                    std::fs::write("n.obj", "left over from before\n".repeat(50)).unwrap();
                    model.save_as_obj("n.obj").map_err(|e| e.to_string())?;
                    check(&std::fs::read_to_string("n.obj").unwrap(), &ms, 1, 1, 0)
                });
            }
        }
    }
}
