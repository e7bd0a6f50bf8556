// The svg crate's document tree: an element has a name, attributes (the last value set counts) and children
// in order; `save` writes the rendered document, what an element renders to is a function of the tree. Both
// are assumed here (crate svg) and checked by reading the files back in the replay.
pub type String = Text;
impl Text {
    pub fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) ensures r is Ok, final(self).toks() == old(self).toks() + t.toks() { self.0 = Ghost(self.0@ + t.0@); Ok(()) }
    pub fn with_capacity(n: usize) -> (r: Text) ensures r.toks() == Seq::<Tok>::empty() { Text(Ghost(Seq::empty())) }
}
pub ghost enum SvgVal { Str(Seq<char>), Text(Seq<Tok>), Box4(int, int, real, real) }
pub ghost struct Node { pub tag: int, pub attrs: Map<Seq<char>, SvgVal>, pub kids: Seq<Node> }
pub trait SvgValue: Sized { spec fn val(self) -> SvgVal; }
impl SvgValue for &'static str { open spec fn val(self) -> SvgVal { SvgVal::Str(self@) } }
impl SvgValue for Text { open spec fn val(self) -> SvgVal { SvgVal::Text(self.toks()) } }
impl SvgValue for &Text { open spec fn val(self) -> SvgVal { SvgVal::Text(self.toks()) } }
impl SvgValue for (i32, i32, Float, Float) { open spec fn val(self) -> SvgVal { SvgVal::Box4(self.0 as int, self.1 as int, self.2.v(), self.3.v()) } }
pub trait AnyNode: Sized { spec fn node(self) -> Node; }
pub struct Document(pub Ghost<Node>);
pub struct Group(pub Ghost<Node>);
pub struct Path(pub Ghost<Node>);
impl AnyNode for Document { open spec fn node(self) -> Node { self.0@ } }
impl AnyNode for Group { open spec fn node(self) -> Node { self.0@ } }
impl AnyNode for Path { open spec fn node(self) -> Node { self.0@ } }
pub open spec fn with_attr(n: Node, k: Seq<char>, v: SvgVal) -> Node { Node { tag: n.tag, attrs: n.attrs.insert(k, v), kids: n.kids } }
pub open spec fn with_kid(n: Node, c: Node) -> Node { Node { tag: n.tag, attrs: n.attrs, kids: n.kids.push(c) } }
pub open spec fn leaf(t: int) -> Node { Node { tag: t, attrs: Map::empty(), kids: Seq::empty() } }
pub uninterp spec fn was_saved(n: Node) -> bool;
impl Document {
    pub fn new() -> (r: Document) ensures r.node() == leaf(0) { Document(Ghost(leaf(0))) }
    pub fn set<V: SvgValue>(self, k: &str, v: V) -> (r: Document) ensures r.node() == with_attr(self.node(), k@, v.val()) { Document(Ghost(with_attr(self.0@, k@, v.val()))) }
    pub fn add<N: AnyNode>(self, c: N) -> (r: Document) ensures r.node() == with_kid(self.node(), c.node()) { Document(Ghost(with_kid(self.0@, c.node()))) }
    pub fn append<N: AnyNode>(&mut self, c: N) ensures final(self).node() == with_kid(old(self).node(), c.node()) { self.0 = Ghost(with_kid(self.0@, c.node())); }
    pub fn assign<V: SvgValue>(&mut self, k: &str, v: V) ensures final(self).node() == with_attr(old(self).node(), k@, v.val()) { self.0 = Ghost(with_attr(self.0@, k@, v.val())); }
}
impl Group {
    pub fn new() -> (r: Group) ensures r.node() == leaf(1) { Group(Ghost(leaf(1))) }
    pub fn set<V: SvgValue>(self, k: &str, v: V) -> (r: Group) ensures r.node() == with_attr(self.node(), k@, v.val()) { Group(Ghost(with_attr(self.0@, k@, v.val()))) }
    pub fn add<N: AnyNode>(self, c: N) -> (r: Group) ensures r.node() == with_kid(self.node(), c.node()) { Group(Ghost(with_kid(self.0@, c.node()))) }
    pub fn append<N: AnyNode>(&mut self, c: N) ensures final(self).node() == with_kid(old(self).node(), c.node()) { self.0 = Ghost(with_kid(self.0@, c.node())); }
    pub fn assign<V: SvgValue>(&mut self, k: &str, v: V) ensures final(self).node() == with_attr(old(self).node(), k@, v.val()) { self.0 = Ghost(with_attr(self.0@, k@, v.val())); }
}
impl Path {
    pub fn new() -> (r: Path) ensures r.node() == leaf(2) { Path(Ghost(leaf(2))) }
    pub fn set<V: SvgValue>(self, k: &str, v: V) -> (r: Path) ensures r.node() == with_attr(self.node(), k@, v.val()) { Path(Ghost(with_attr(self.0@, k@, v.val()))) }
    pub fn add<N: AnyNode>(self, c: N) -> (r: Path) ensures r.node() == with_kid(self.node(), c.node()) { Path(Ghost(with_kid(self.0@, c.node()))) }
    pub fn append<N: AnyNode>(&mut self, c: N) ensures final(self).node() == with_kid(old(self).node(), c.node()) { self.0 = Ghost(with_kid(self.0@, c.node())); }
    pub fn assign<V: SvgValue>(&mut self, k: &str, v: V) ensures final(self).node() == with_attr(old(self).node(), k@, v.val()) { self.0 = Ghost(with_attr(self.0@, k@, v.val())); }
}
#[verifier::external_body]
pub fn save<P>(path: P, doc: &Document) -> (r: IoResult<()>) ensures r is Ok ==> was_saved(doc.node()) { unimplemented!() }
