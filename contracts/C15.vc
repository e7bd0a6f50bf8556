//@ include div_strict.rs float.rs points.rs std.rs text.rs
//@ set nl=off
//@ raw
/// a face: its mesh is a function of the face
pub trait Face {
    spec fn mesh(&self) -> TriangleMesh;
    fn get_triangle_mesh(&self) -> (r: TriangleMesh) ensures r == self.mesh();
}
//@ struct TriangleMesh


//@ struct Model generics=F dropfield=curves
//@ raw
pub open spec fn num(r: Float) -> Tok { Tok::Num(r.v(), Fmt::Plain) }
pub open spec fn int(n: int) -> Tok { Tok::Int(n, Fmt::Plain) }
/// `v x y z`
pub open spec fn vline(p: Point3) -> Seq<Tok> { seq![Tok::Ch('v'), Tok::Ch(' '), num(p.x), Tok::Ch(' '), num(p.y), Tok::Ch(' '), num(p.z), Tok::Ch('\n')] }
/// `vn x y z`
pub open spec fn nline(p: Vec3) -> Seq<Tok> { seq![Tok::Ch('v'), Tok::Ch('n'), Tok::Ch(' '), num(p.x), Tok::Ch(' '), num(p.y), Tok::Ch(' '), num(p.z), Tok::Ch('\n')] }
/// `f a b c`, or `f a//x b//y c//z` with normals
pub open spec fn fline(m: TriangleMesh, t: int, vs: int, ns: int) -> Seq<Tok> {
    let (a, b, c) = (m.triangles@[3 * t] as int, m.triangles@[3 * t + 1] as int, m.triangles@[3 * t + 2] as int);
    if m.normals@.len() == 0 { seq![Tok::Ch('f'), Tok::Ch(' '), int(a + vs), Tok::Ch(' '), int(b + vs), Tok::Ch(' '), int(c + vs), Tok::Ch('\n')] }
    else { seq![Tok::Ch('f'), Tok::Ch(' '), int(a + vs), Tok::Ch('/'), Tok::Ch('/'), int(a + ns), Tok::Ch(' '), int(b + vs), Tok::Ch('/'), Tok::Ch('/'), int(b + ns), Tok::Ch(' '), int(c + vs), Tok::Ch('/'), Tok::Ch('/'), int(c + ns), Tok::Ch('\n')] }
}
pub open spec fn vlines(s: Seq<Point3>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { vlines(s.drop_last()) + vline(s.last()) } }
pub open spec fn nlines(s: Seq<Vec3>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { nlines(s.drop_last()) + nline(s.last()) } }
pub open spec fn flines(m: TriangleMesh, n: nat, vs: int, ns: int) -> Seq<Tok> decreases n { if n == 0 { Seq::empty() } else { flines(m, (n - 1) as nat, vs, ns) + fline(m, n - 1, vs, ns) } }
/// every vertex, every normal, every triangle, in order
pub open spec fn obj(m: TriangleMesh, vs: int, ns: int) -> Seq<Tok> { vlines(m.vertices@) + nlines(m.normals@) + flines(m, m.triangles@.len() / 3, vs, ns) }
/// whole triangles over existing vertices (and, with normals, one per vertex), with numbers that fit
pub open spec fn mesh_ok(m: TriangleMesh, vs: int, ns: int) -> bool {
    &&& m.triangles@.len() % 3 == 0
    &&& m.normals@.len() == 0 || m.normals@.len() == m.vertices@.len()
    &&& forall|i: int| 0 <= i < m.triangles@.len() ==> #[trigger] m.triangles@[i] < m.vertices@.len()
    &&& 1 <= vs && vs + m.vertices@.len() <= u32::MAX && 1 <= ns && ns + m.vertices@.len() <= u32::MAX
}
pub open spec fn ends_line(t: Seq<Tok>) -> bool { t.len() == 0 || t.last() == Tok::Ch('\n') }
pub proof fn lemma_ends_v(s: Seq<Point3>) ensures ends_line(vlines(s)) { if s.len() > 0 { assert(vline(s.last()).last() == Tok::Ch('\n')); } }
pub proof fn lemma_ends_n(s: Seq<Vec3>) ensures ends_line(nlines(s)) { if s.len() > 0 { assert(nline(s.last()).last() == Tok::Ch('\n')); } }
pub proof fn lemma_ends_f(m: TriangleMesh, n: nat, vs: int, ns: int) ensures ends_line(flines(m, n, vs, ns)) { if n > 0 { assert(fline(m, n - 1, vs, ns).last() == Tok::Ch('\n')); } }
pub proof fn lemma_ends(m: TriangleMesh, vs: int, ns: int) ensures ends_line(obj(m, vs, ns)) { lemma_ends_v(m.vertices@); lemma_ends_n(m.normals@); lemma_ends_f(m, m.triangles@.len() / 3, vs, ns); }
//@ fn TriangleMesh::write_obj params=writer,vertex_start,normal_start ret=r generics=W:Write
    requires mesh_ok(*self, vertex_start as int, normal_start as int)
    ensures r is Ok ==> final(writer).toks() =~= old(writer).toks() + obj(*self, vertex_start as int, normal_start as int)
//@ ghost start
    let ghost mut w1 = writer.toks(); let ghost mut w2 = writer.toks();
//@ loop 0
    $n0 == self.vertices@.len(), $s0@ == self.vertices@, writer.toks() =~= old(writer).toks() + vlines(self.vertices@.subrange(0, $i0 as int)),
//@ ghost loop0.start
    proof { assert(self.vertices@.subrange(0, $j0 + 1).drop_last() =~= self.vertices@.subrange(0, $j0 as int)); }
//@ ghost loop0.after
    proof { assert(self.vertices@.subrange(0, $n0 as int) =~= self.vertices@); }
    proof { w1 = writer.toks(); }
//@ loop 1
    $n1 == self.normals@.len(), $s1@ == self.normals@, writer.toks() =~= w1 + nlines(self.normals@.subrange(0, $i1 as int)),
//@ ghost loop1.start
    proof { assert(self.normals@.subrange(0, $j1 + 1).drop_last() =~= self.normals@.subrange(0, $j1 as int)); }
//@ ghost loop1.after
    proof { assert(self.normals@.subrange(0, $n1 as int) =~= self.normals@); }
    proof { w2 = writer.toks(); }
//@ loop 2
    writer.toks() =~= w2 + flines(*self, $i2 as nat, vertex_start as int, normal_start as int), $n2 == self.triangles@.len() / 3, mesh_ok(*self, vertex_start as int, normal_start as int), self.normals@.len() == 0
//@ loop 3
    writer.toks() =~= w2 + flines(*self, $i3 as nat, vertex_start as int, normal_start as int), $n3 == self.triangles@.len() / 3, mesh_ok(*self, vertex_start as int, normal_start as int), self.normals@.len() != 0
//@ fn TriangleMesh::save_as_obj params=filename ret=r generics=P
    requires mesh_ok(*self, 1, 1)
//@ ghost return
    proof { lemma_ends(*self, 1, 1); }
    assert(__ret is Ok ==> writer.toks() =~= obj(*self, 1, 1) && writer.saved());
//@ raw
/// vertices (normals) of the faces before face k, all in one list
pub open spec fn verts<F: Face>(fs: Seq<F>, k: int) -> Seq<Point3> decreases k { if k <= 0 { Seq::empty() } else { verts(fs, k - 1) + fs[k - 1].mesh().vertices@ } }
pub open spec fn norms<F: Face>(fs: Seq<F>, k: int) -> Seq<Vec3> decreases k { if k <= 0 { Seq::empty() } else { norms(fs, k - 1) + fs[k - 1].mesh().normals@ } }
/// the first k faces, each numbered from one past the vertices and normals before it
pub open spec fn objs<F: Face>(fs: Seq<F>, k: int) -> Seq<Tok> decreases k { if k <= 0 { Seq::empty() } else { objs(fs, k - 1) + obj(fs[k - 1].mesh(), 1int + verts(fs, k - 1).len(), 1int + norms(fs, k - 1).len()) } }
pub open spec fn face_ok<F: Face>(fs: Seq<F>, k: int) -> bool { mesh_ok(fs[k].mesh(), 1int + verts(fs, k).len(), 1int + norms(fs, k).len()) }
pub open spec fn faces_ok<F: Face>(fs: Seq<F>) -> bool { forall|k: int| 0 <= k < fs.len() ==> #[trigger] face_ok(fs, k) }
pub proof fn lemma_ends_m<F: Face>(fs: Seq<F>, k: int) ensures ends_line(objs(fs, k)) decreases k
{ if k > 0 { lemma_ends_m(fs, k - 1); lemma_ends(fs[k - 1].mesh(), 1int + verts(fs, k - 1).len(), 1int + norms(fs, k - 1).len()); } }
/// the vertex and normal numbers on a face line name, among all vertices of the file, the corner of that face
pub proof fn theorem_numbering<F: Face>(fs: Seq<F>, k: int, n: int, i: int)
    requires 0 <= k < n <= fs.len(), 0 <= i < fs[k].mesh().triangles@.len(), faces_ok(fs)
    ensures ({ let t = fs[k].mesh().triangles@[i] as int; &&& verts(fs, n).len() > t + verts(fs, k).len() && verts(fs, n)[t + verts(fs, k).len()] == fs[k].mesh().vertices@[t]
        &&& fs[k].mesh().normals@.len() > 0 ==> norms(fs, n).len() > t + norms(fs, k).len() && norms(fs, n)[t + norms(fs, k).len()] == fs[k].mesh().normals@[t] })
    decreases n
{
    assert(face_ok(fs, k));
    let t = fs[k].mesh().triangles@[i] as int;
    if n > k + 1 {
        theorem_numbering(fs, k, n - 1, i);
        assert(verts(fs, n) == verts(fs, n - 1) + fs[n - 1].mesh().vertices@); assert(norms(fs, n) == norms(fs, n - 1) + fs[n - 1].mesh().normals@);
    } else { assert(verts(fs, n) == verts(fs, k) + fs[k].mesh().vertices@); assert(norms(fs, n) == norms(fs, k) + fs[k].mesh().normals@); }
}
//@ fn Model<F>::save_as_obj params=filename ret=r implgen=<F:~Face> generics=P
    requires faces_ok(self.faces@)
//@ loop 0
    $n0 == self.faces@.len(), faces_ok(self.faces@), writer.toks() =~= objs(self.faces@, $i0 as int),
    vertex_start == 1int + verts(self.faces@, $i0 as int).len(), normal_start == 1int + norms(self.faces@, $i0 as int).len(),
//@ ghost loop0.start
    assert(face_ok(self.faces@, $j0 as int));
//@ ghost return
    proof { lemma_ends_m(self.faces@, self.faces@.len() as int); }
    assert(__ret is Ok ==> writer.toks() =~= objs(self.faces@, self.faces@.len() as int) && writer.saved());
