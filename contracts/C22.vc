//@ include div_strict.rs float.rs points.rs std.rs
//@ set nl=off
//@ raw
/// a parametric curve: every operation is a function of the object and its arguments
pub trait Curve {
    spec fn at(&self, u: Float) -> Point3;
    spec fn projected(&self, point: Point3) -> Float;
    spec fn refined(&self, range: (Float, Float), same_sense: bool) -> (Float, Float);
    fn get_point(&self, u: Float) -> (r: Point3) ensures r == self.at(u);
    fn project(&self, point: Point3) -> (r: Float) ensures r == self.projected(point);
    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (r: (Float, Float)) ensures r == self.refined(range, same_sense);
}
pub trait Surface {
    spec fn sp(&self, u: Float, v: Float) -> Point3;
    spec fn sn(&self, params: Seq<Point2>) -> Seq<Vec3>;
    spec fn strim(&self, bounds: Seq<EdgeLoop>) -> TriangleMesh;
    fn get_point(&self, u: Float, v: Float) -> (r: Point3) ensures r == self.sp(u, v);
    fn get_normals(&self, params: &[Point2]) -> (r: Vec<Vec3>) ensures r@ == self.sn(params@);
    fn trim(&self, bounds: &[EdgeLoop]) -> (r: TriangleMesh) ensures r == self.strim(bounds@);
}
//@ struct TriangleMesh
//@ struct CurveSegment
//@ struct EdgeLoop
//@ struct Polycurve
//@ struct TrimmedSurface
//@ raw
/// a boxed curve evaluates, projects and refines exactly like the curve it holds
impl Curve for Box<dyn Curve> {
    open spec fn at(&self, u: Float) -> Point3 { (**self).at(u) }
    open spec fn projected(&self, point: Point3) -> Float { (**self).projected(point) }
    open spec fn refined(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) { (**self).refined(range, same_sense) }
//@ fn Box<dyn~Curve>::get_point as=bare ret=r
//@ fn Box<dyn~Curve>::project as=bare ret=r
//@ fn Box<dyn~Curve>::refine_parameter_range as=bare ret=r
//@ raw
}
/// a boxed surface evaluates, has the normals and trims exactly like the surface it holds
impl Surface for Box<dyn Surface> {
    open spec fn sp(&self, u: Float, v: Float) -> Point3 { (**self).sp(u, v) }
    open spec fn sn(&self, params: Seq<Point2>) -> Seq<Vec3> { (**self).sn(params) }
    open spec fn strim(&self, bounds: Seq<EdgeLoop>) -> TriangleMesh { (**self).strim(bounds) }
//@ fn Box<dyn~Surface>::get_point as=bare ret=r
//@ fn Box<dyn~Surface>::get_normals as=bare ret=r
//@ fn Box<dyn~Surface>::trim as=bare ret=r
//@ raw
}
/// a face: its mesh is a function of the face
pub trait Face {
    spec fn mesh(&self) -> TriangleMesh;
    fn get_triangle_mesh(&self) -> (r: TriangleMesh) ensures r == self.mesh();
}
/// a mesh used as a face is itself
impl Face for TriangleMesh {
    open spec fn mesh(&self) -> TriangleMesh { *self }
//@ fn TriangleMesh::get_triangle_mesh as=bare ret=r
//@ raw
}
/// a trimmed surface's mesh is its surface's trimming by its bounds
impl<S: Surface> Face for TrimmedSurface<S> {
    open spec fn mesh(&self) -> TriangleMesh { self.surface.strim(self.bounds@) }
//@ fn TrimmedSurface<S>::get_triangle_mesh as=bare ret=r
//@ raw
}
//@ struct Model
//@ fn Model<F>::new implgen=<F:~Face> ret=r
    ensures r.faces@.len() == 0, r.curves@.len() == 0
//@ fn Model<F>::add_face implgen=<F:~Face>
    ensures final(self).faces@ == old(self).faces@.push(face), final(self).curves@ == old(self).curves@
//@ fn Model<F>::add_curve implgen=<F:~Face>
    ensures final(self).curves@ == old(self).curves@.push(curve), final(self).faces@ == old(self).faces@
//@ raw
pub open spec fn whole(t: Seq<u32>) -> bool { t.len() % 3 == 0 }
/// the same corners in the opposite cyclic order
pub open spec fn flipped(a: Seq<u32>, b: Seq<u32>, k: int) -> bool {
    let (p, q, r) = (a[3 * k], a[3 * k + 1], a[3 * k + 2]); let (x, y, z) = (b[3 * k], b[3 * k + 1], b[3 * k + 2]);
    (x == r && y == q && z == p) || (x == p && y == r && z == q) || (x == q && y == p && z == r)
}
/// the same corners in the same cyclic order
pub open spec fn rotated(a: Seq<u32>, b: Seq<u32>, k: int) -> bool {
    let (p, q, r) = (a[3 * k], a[3 * k + 1], a[3 * k + 2]); let (x, y, z) = (b[3 * k], b[3 * k + 1], b[3 * k + 2]);
    (x == p && y == q && z == r) || (x == q && y == r && z == p) || (x == r && y == p && z == q)
}
pub open spec fn all_flipped(a: Seq<u32>, b: Seq<u32>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() / 3 ==> #[trigger] flipped(a, b, k) }
//@ fn TriangleMesh::new ret=r
    ensures r.vertices@.len() == 0, r.normals@.len() == 0, r.triangles@.len() == 0
//@ fn TriangleMesh::triangle_count ret=r
    ensures r == self.triangles@.len() / 3
//@ fn TriangleMesh::reverse_winding_direction ret=r
    requires whole(self.triangles@)
    ensures r.vertices@ == self.vertices@, r.normals@ == self.normals@, all_flipped(self.triangles@, r.triangles@),
//@ ghost start
    let ghost src = self.triangles@;
//@ loop 0
    $s0@ == src, $n0 * 3 == src.len(), $out0@.len() == 3 * $i0, forall|k: int| 0 <= k < $i0 ==> #[trigger] flipped(src, $out0@, k),
//@ ghost loop0.start
    let ghost before = $out0@;
//@ loop 0.0
    $n0_0 == 3, before.len() == 3 * $j0, $j0 < $n0, $out0@.len() == 3 * $j0 + $i0_0, $out0@.subrange(0, before.len() as int) =~= before,
    forall|m: int| 0 <= m < $i0_0 ==> #[trigger] $out0@[3 * $j0 + m] == $s0_0@[m],
    forall|k: int| 0 <= k < $j0 ==> #[trigger] flipped(src, before, k),
//@ ghost loop0.0.after
    proof {
        let o = $out0@; let b = 3 * ($j0 as int);
        assert(o[b + 0] == $s0_0@[0] && o[b + 1] == $s0_0@[1] && o[b + 2] == $s0_0@[2]);
        assert forall|k: int| 0 <= k < $i0 implies #[trigger] flipped(src, o, k) by {
            if k < $j0 { assert(flipped(src, before, k)); assert(o[3 * k] == o.subrange(0, before.len() as int)[3 * k] && o[3 * k + 1] == o.subrange(0, before.len() as int)[3 * k + 1] && o[3 * k + 2] == o.subrange(0, before.len() as int)[3 * k + 2]); }
        }
    }
//@ raw
/// reversing twice gives the triangles in their original orientation
pub proof fn theorem_involution(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
    requires all_flipped(a, b), all_flipped(b, c)
    ensures a.len() == c.len(), forall|k: int| 0 <= k < a.len() / 3 ==> #[trigger] rotated(a, c, k)
{ assert forall|k: int| 0 <= k < a.len() / 3 implies #[trigger] rotated(a, c, k) by { assert(flipped(a, b, k)); assert(flipped(b, c, k)); } }
