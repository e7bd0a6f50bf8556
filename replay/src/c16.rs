//! C16: STL export is a well-formed binary file with every triangle.
use crate::c15::mesh;
use crate::c18::with_file_limit;
use crate::fw::*;
use geom3d::*;

fn expected(ms: &[TriangleMesh]) -> Vec<u8> {
    let mut b = vec![];
    let n: usize = ms.iter().map(|m| m.triangles.len() / 3).sum();
    b.extend_from_slice(&(n as u32).to_le_bytes());
    for m in ms { for t in m.triangles.chunks(3) {
        b.extend_from_slice(&[0u8; 12]);
        for i in t { let p = m.vertices[*i as usize]; for c in [p.x, p.y, p.z] { b.extend_from_slice(&(c as f32).to_le_bytes()); } }
        b.extend_from_slice(&[0u8; 2]);
    } }
    b
}
fn check(b: &[u8], ms: &[TriangleMesh]) -> Result<(), String> {
    let n: usize = ms.iter().map(|m| m.triangles.len() / 3).sum();
    ensure(b.len() == 84 + 50 * n, || format!("the file has {} bytes, 84 + 50 * {} triangles are {}", b.len(), n, 84 + 50 * n))?;
    let w = expected(ms);
    let c = u32::from_le_bytes([b[80], b[81], b[82], b[83]]);
    ensure(c as usize == n, || format!("the count says {}, there are {} triangles", c, n))?;
    for k in 0..n { let r = 4 + 50 * k..54 + 50 * k; ensure(b[80..][r.clone()] == w[r.clone()], || format!("record {} is {:?}, expected {:?}", k, &b[80..][r.clone()], &w[r.clone()]))?; }
    Ok(())
}
pub fn run(r: &mut Run) {
    let n = r.n(700, 10000);
    let mut big: Vec<usize> = r.lits_i.iter().map(|&x| x as usize).filter(|&x| x < 3000).collect();
    big.extend([1000, 163, 164, 165, 1640, 256]);
    for k in 0..n {
        if !r.time_left() { return; }
        let sizes: Vec<usize> = if k % 40 == 5 { big.clone() } else { vec![0, 1, 2, 3, 4, 7, 20] };
        let c = r.rng.below(6);
        let ms: Vec<TriangleMesh> = (0..c).map(|_| { let nrm = r.rng.bool(); mesh(r, &sizes, nrm) }).collect();
        let name = match r.rng.below(8) {
            0 => "a".to_string(), 1 => "m.stl".into(), 2 => "x".repeat(r.rng.range(50, 66)) + ".stl", 3 => "y".repeat(120), 4 => "\u{e9}\u{4e2d}".repeat(r.rng.range(1, 30)) + ".stl", 5 => "two words.v2.stl".into(), 6 => "sub.dir/part.stl".into(), _ => "solid.stl".into(),
        };
        let full_disk = k % 20 == 9;
        let cut = r.rng.range(0, 30) as u64;
        let shown = format!("file {:?}{}, {} faces of {:?} vertices and {:?} triangles, first vertices {:?}, triangles {:?}", name, if full_disk { format!(" on a disk that is {} bytes too small", cut) } else { String::new() }, c,
            ms.iter().map(|m| m.vertices.len()).collect::<Vec<_>>(), ms.iter().map(|m| m.triangles.len() / 3).collect::<Vec<_>>(), ms.iter().flat_map(|m| m.vertices.iter()).take(6).collect::<Vec<_>>(), ms.iter().map(|m| m.triangles.iter().take(12).collect::<Vec<_>>()).collect::<Vec<_>>());
        r.case(if full_disk { "full disk" } else { "file" }, shown, || {
            let _ = std::fs::create_dir("sub.dir");
            let mut model = Model::new();
            for m in &ms { model.add_face(m.clone()); }
            let size = 84 + 50 * ms.iter().map(|m| m.triangles.len() / 3).sum::<usize>() as u64;
            if full_disk {
                std::fs::remove_file(&name).ok();
                let res = with_file_limit(size.saturating_sub(cut), || model.save_as_stl(&name));
                if res.is_err() { return Ok(()); }
                return check(&std::fs::read(&name).unwrap(), &ms).map_err(|e| format!("reported success: {}", e));
            }
            std::fs::write(&name, vec![7u8; 20000]).unwrap();
            model.save_as_stl(&name).map_err(|e| e.to_string())?;
            check(&std::fs::read(&name).unwrap(), &ms)
        });
    }
}
