//@ include div_strict.rs float.rs points.rs std.rs bytes.rs
//@ set nl=off
//@ raw
/// a face: its mesh is a function of the face
pub trait Face {
    spec fn mesh(&self) -> TriangleMesh;
    fn get_triangle_mesh(&self) -> (r: TriangleMesh) ensures r == self.mesh();
}
//@ struct TriangleMesh
//@ struct Model generics=F dropfield=curves
//@ fn TriangleMesh::triangle_count ret=r
    ensures r == self.triangles@.len() / 3
//@ raw
/// x, y, z in single precision, after b
pub open spec fn add_corner(b: Seq<u8>, p: Point3) -> Seq<u8> { b + le_f32(p.x.v()) + le_f32(p.y.v()) + le_f32(p.z.v()) }
/// the first k corners of triangle t
pub open spec fn add_corners(b: Seq<u8>, m: TriangleMesh, t: int, k: int) -> Seq<u8> decreases k { if k <= 0 { b } else { add_corner(add_corners(b, m, t, k - 1), m.vertices@[m.triangles@[3 * t + (k - 1)] as int]) } }
/// a zero normal, three corners, a zero attribute count
pub open spec fn add_record(b: Seq<u8>, m: TriangleMesh, t: int) -> Seq<u8> { add_corners(b + le_f32(0real) + le_f32(0real) + le_f32(0real), m, t, 3) + seq![0u8, 0u8] }
pub open spec fn add_records(b: Seq<u8>, m: TriangleMesh, n: int) -> Seq<u8> decreases n { if n <= 0 { b } else { add_record(add_records(b, m, n - 1), m, n - 1) } }
pub open spec fn add_faces<F: Face>(b: Seq<u8>, fs: Seq<F>, k: int) -> Seq<u8> decreases k { if k <= 0 { b } else { add_records(add_faces(b, fs, k - 1), fs[k - 1].mesh(), fs[k - 1].mesh().triangles@.len() as int / 3) } }
pub open spec fn mesh_ok(m: TriangleMesh) -> bool { m.triangles@.len() % 3 == 0 && forall|i: int| 0 <= i < m.triangles@.len() ==> #[trigger] m.triangles@[i] < m.vertices@.len() }
pub open spec fn face_ok<F: Face>(fs: Seq<F>, k: int) -> bool { mesh_ok(fs[k].mesh()) }
pub open spec fn faces_ok<F: Face>(fs: Seq<F>) -> bool { (forall|k: int| 0 <= k < fs.len() ==> #[trigger] face_ok(fs, k)) && count(fs, fs.len() as int) <= u32::MAX }
/// triangles of the first k faces
pub open spec fn count<F: Face>(fs: Seq<F>, k: int) -> int decreases k { if k <= 0 { 0 } else { count(fs, k - 1) + fs[k - 1].mesh().triangles@.len() / 3 } }
pub open spec fn stl_with<F: Face>(b: Seq<u8>, head: Seq<u8>, fs: Seq<F>) -> bool { head.len() == 80 && b == add_faces(head + le_u32(count(fs, fs.len() as int) as u32), fs, fs.len() as int) }
/// an 80-byte header, the number of triangles, the records
pub open spec fn is_stl<F: Face>(b: Seq<u8>, fs: Seq<F>) -> bool { exists|head: Seq<u8>| stl_with(b, head, fs) }
pub proof fn lemma_count<F: Face>(fs: Seq<F>, k: int, n: int) requires k <= n ensures count(fs, k) <= count(fs, n), count(fs, k) >= 0 decreases (if n > 0 { n } else { 0 }), (if k > 0 { k } else { 0 })
{ if n > 0 { if k < n { lemma_count(fs, k, n - 1); } else { lemma_count(fs, k - 1, n - 1); } } }
/// what is appended does not depend on what is there
pub proof fn lemma_corners(b: Seq<u8>, c: Seq<u8>, m: TriangleMesh, t: int, k: int) ensures add_corners(c + b, m, t, k) =~= c + add_corners(b, m, t, k), k >= 0 ==> add_corners(b, m, t, k).len() == b.len() + 12 * k decreases k
{ if k > 0 { lemma_corners(b, c, m, t, k - 1); let p = m.vertices@[m.triangles@[3 * t + (k - 1)] as int]; ax_le_f32(p.x.v()); ax_le_f32(p.y.v()); ax_le_f32(p.z.v()); } }
pub proof fn lemma_record(b: Seq<u8>, c: Seq<u8>, m: TriangleMesh, t: int) ensures add_record(c + b, m, t) =~= c + add_record(b, m, t), add_record(b, m, t).len() == b.len() + 50
{ let z = le_f32(0real); ax_le_f32(0real); assert(c + b + z + z + z =~= c + (b + z + z + z)); lemma_corners(b + z + z + z, c, m, t, 3); }
pub proof fn lemma_records(b: Seq<u8>, c: Seq<u8>, m: TriangleMesh, n: int) requires n >= 0 ensures add_records(c + b, m, n) =~= c + add_records(b, m, n), add_records(b, m, n).len() == b.len() + 50 * n decreases n
{ if n > 0 { lemma_records(b, c, m, n - 1); lemma_record(add_records(b, m, n - 1), c, m, n - 1); } }
pub proof fn lemma_faces<F: Face>(b: Seq<u8>, c: Seq<u8>, fs: Seq<F>, k: int) requires k >= 0 ensures add_faces(c + b, fs, k) =~= c + add_faces(b, fs, k), add_faces(b, fs, k).len() == b.len() + 50 * count(fs, k) decreases k
{ if k > 0 { lemma_faces(b, c, fs, k - 1); lemma_records(add_faces(b, fs, k - 1), c, fs[k - 1].mesh(), fs[k - 1].mesh().triangles@.len() as int / 3); } }
/// the file is 84 bytes and 50 per triangle long
pub proof fn theorem_length<F: Face>(b: Seq<u8>, fs: Seq<F>) requires is_stl(b, fs) ensures b.len() == 84 + 50 * count(fs, fs.len() as int)
{
    let head = choose|head: Seq<u8>| stl_with(b, head, fs); let n = fs.len() as int;
    ax_le_u32(count(fs, n) as u32); lemma_faces(head + le_u32(count(fs, n) as u32), Seq::empty(), fs, n);
}
/// overwriting the four bytes of the count
pub proof fn lemma_patch<F: Face>(head: Seq<u8>, c0: Seq<u8>, c1: Seq<u8>, fs: Seq<F>) requires head.len() == 80, c0.len() == 4, c1.len() == 4 ensures put(add_faces(head + c0, fs, fs.len() as int), 80, c1) == add_faces(head + c1, fs, fs.len() as int)
{
    let n = fs.len() as int; let e = Seq::<u8>::empty(); reveal(put);
    lemma_faces(e, head + c0, fs, n); lemma_faces(e, head + c1, fs, n); assert(head + c0 + e =~= head + c0); assert(head + c1 + e =~= head + c1);
    assert(put(add_faces(head + c0, fs, n), 80, c1) =~= add_faces(head + c1, fs, n));
}
/// where writing goes on at the end
pub open spec fn at_end(s: BufState) -> bool { s.pos == s.bytes.len() }
//@ fn Model<F>::save_as_stl params=filename ret=r implgen=<F:~Face> generics=P
    requires has_stem(filename), faces_ok(self.faces@)
//@ loop 0
    faces_ok(self.faces@), $n0 == self.faces@.len(), at_end(writer.st()), writer.st().bytes == add_faces(head + c0, self.faces@, $i0 as int), triangle_count == count(self.faces@, $i0 as int), head.len() == 80, c0.len() == 4, header_size == 80,
//@ ghost loop0.before
    let ghost head = header@; let ghost c0 = le_u32(0u32);
    proof { ax_le_u32(0u32); assert(Seq::<u8>::empty() + head =~= head); assert(writer.st().bytes == head + c0); }
//@ ghost loop0.start
    proof { assert(face_ok(self.faces@, $j0 as int)); lemma_count(self.faces@, $j0 + 1, $n0 as int); lemma_count(self.faces@, $j0 as int, $n0 as int); }
    let ghost b0 = writer.st().bytes;
//@ loop 0.0
    mesh_ok(mesh), $n0_0 == mesh.triangles@.len() / 3, $s0_0@ == mesh.triangles@, __k0_0 == 3, at_end(writer.st()), writer.st().bytes == add_records(b0, mesh, $i0_0 as int),
//@ ghost loop0.0.start
    let ghost b1 = writer.st().bytes; let ghost t = $j0_0 as int; let ghost z = le_f32(0real);
//@ ghost loop0.0.0.before
    proof { assert(writer.st().bytes == b1 + z + z + z); assert(triangle@ =~= mesh.triangles@.subrange(3 * t, 3 * t + 3)); }
//@ loop 0.0.0
    mesh_ok(mesh), $n0_0_0 == 3, $s0_0_0@ == triangle@, triangle@ == mesh.triangles@.subrange(3 * t, 3 * t + 3), 0 <= t < mesh.triangles@.len() / 3, at_end(writer.st()), writer.st().bytes == add_corners(b1 + z + z + z, mesh, t, $i0_0_0 as int),
//@ ghost loop0.0.0.start
    proof { assert(triangle@[$j0_0_0 as int] == mesh.triangles@[3 * t + $j0_0_0]); }
//@ ghost loop0.0.end
    proof { assert([0u8, 0u8]@ =~= seq![0u8, 0u8]); assert(writer.st().bytes == add_record(b1, mesh, t)); }
//@ ghost loop0.after
    proof { lemma_faces(head + c0, Seq::empty(), self.faces@, self.faces@.len() as int); lemma_count(self.faces@, 0, self.faces@.len() as int); }
//@ ghost return
    proof {
        let n = self.faces@.len() as int; let c1 = le_u32(count(self.faces@, n) as u32);
        ax_le_u32(0u32); ax_le_u32(count(self.faces@, n) as u32); lemma_patch(header@, le_u32(0u32), c1, self.faces@);
        if __ret is Ok { assert(stl_with(writer.st().bytes, header@, self.faces@)); }
    }
    assert(__ret is Ok ==> is_stl(writer.st().bytes, self.faces@) && writer.st().flushed);
