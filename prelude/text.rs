// Text written with the formatting macros of std, as a sequence of characters and formatted values. A
// value's text is a function of the value and its format (Display of an f64 prints digits that read back
// to the same f64: documented behaviour of std, and part of what the replay runs).
pub enum Fmt { Plain, Prec(u32), Width(u32), Other }
pub ghost enum Tok { Ch(char), Num(real, Fmt), Int(int, Fmt), Str(Seq<char>, Fmt) }
pub struct Text(pub Ghost<Seq<Tok>>);
impl Text {
    pub open spec fn toks(self) -> Seq<Tok> { self.0@ }
    pub fn new() -> (r: Text) ensures r.toks() == Seq::<Tok>::empty() { Text(Ghost(Seq::empty())) }
    pub fn vx_ch(&mut self, c: char) ensures final(self).toks() == old(self).toks().push(Tok::Ch(c)) { self.0 = Ghost(self.0@.push(Tok::Ch(c))); }
    pub fn push_str(&mut self, t: &Text) ensures final(self).toks() == old(self).toks() + t.toks() { self.0 = Ghost(self.0@ + t.0@); }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.toks().len() == 0) { unimplemented!() }
    /// number of bytes: at least one per character or formatted number
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures (r == 0) == (self.toks().len() == 0) { unimplemented!() }
    pub fn as_bytes(&self) -> (r: &Text) ensures *r == *self { self }
}
impl Text {
    #[verifier::external_body]
    pub fn vx_show(&self, f: &mut Text, fmt: Fmt) requires fmt == Fmt::Plain ensures final(f).toks() == old(f).toks() + self.toks() { unimplemented!() }
}
impl Float { pub fn vx_show(&self, f: &mut Text, fmt: Fmt) ensures final(f).toks() == old(f).toks().push(Tok::Num(self.v(), fmt)) { f.0 = Ghost(f.0@.push(Tok::Num(self.0@, fmt))); } }
pub trait VxShow { spec fn tok(&self, fmt: Fmt) -> Tok; fn vx_show(&self, f: &mut Text, fmt: Fmt) ensures final(f).toks() == old(f).toks().push(self.tok(fmt)); }
impl VxShow for u32 { open spec fn tok(&self, fmt: Fmt) -> Tok { Tok::Int(*self as int, fmt) } fn vx_show(&self, f: &mut Text, fmt: Fmt) { f.0 = Ghost(f.0@.push(Tok::Int(*self as int, fmt))); } }
impl VxShow for u64 { open spec fn tok(&self, fmt: Fmt) -> Tok { Tok::Int(*self as int, fmt) } fn vx_show(&self, f: &mut Text, fmt: Fmt) { f.0 = Ghost(f.0@.push(Tok::Int(*self as int, fmt))); } }
impl VxShow for usize { open spec fn tok(&self, fmt: Fmt) -> Tok { Tok::Int(*self as int, fmt) } fn vx_show(&self, f: &mut Text, fmt: Fmt) { f.0 = Ghost(f.0@.push(Tok::Int(*self as int, fmt))); } }
pub struct IoError;
pub type IoResult<T> = core::result::Result<T, IoError>;
/// a sink of text. Successful writes appear in order; what a failing write leaves behind is unknown.
pub trait Write {
    spec fn toks(&self) -> Seq<Tok>;
    fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) ensures r is Ok ==> final(self).toks() == old(self).toks() + t.toks();
    fn write_all(&mut self, t: &Text) -> (r: IoResult<()>) ensures r is Ok ==> final(self).toks() == old(self).toks() + t.toks();
    /// may accept only the beginning of what it is given
    fn write(&mut self, t: &Text) -> (r: IoResult<usize>) ensures r is Ok ==> exists|n: int| 0 <= n <= t.toks().len() && final(self).toks() == old(self).toks() + #[trigger] t.toks().take(n);
    fn flush(&mut self) -> (r: IoResult<()>) ensures r is Ok ==> final(self).toks() == old(self).toks();
}
/// a newly created file is empty
pub struct File(pub Ghost<Seq<Tok>>);
impl File {
    #[verifier::external_body]
    pub fn create<P>(path: P) -> (r: IoResult<File>) ensures r is Ok ==> r->Ok_0.toks() == Seq::<Tok>::empty() { unimplemented!() }
}
impl Write for File {
    open spec fn toks(&self) -> Seq<Tok> { self.0@ }
    #[verifier::external_body]
    fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, t: &Text) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, t: &Text) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
}
/// LineWriter passes everything up to the last line end on to the file; the rest only when flushed
/// (dropping it ignores errors), so only text that ends a line counts as saved
pub struct LineWriter(pub Ghost<Seq<Tok>>);
impl LineWriter {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: LineWriter) ensures r.toks() == f.toks() { unimplemented!() }
    pub open spec fn saved(&self) -> bool { self.toks().len() == 0 || self.toks().last() == Tok::Ch('\n') }
}
impl Write for LineWriter {
    open spec fn toks(&self) -> Seq<Tok> { self.0@ }
    #[verifier::external_body]
    fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, t: &Text) -> (r: IoResult<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, t: &Text) -> (r: IoResult<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: IoResult<()>) { unimplemented!() }
}
