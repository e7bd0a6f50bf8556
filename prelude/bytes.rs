// Binary files, byte by byte. The encodings of numbers are those of to_le_bytes (documented in std);
// a formatted text is at least as long as its characters and padded fields.
pub enum Fmt { Plain, Prec(u32), Width(u32), Other }
pub uninterp spec fn le_f32(r: real) -> Seq<u8>;
pub uninterp spec fn be_f32(r: real) -> Seq<u8>;
pub uninterp spec fn le_u32(n: u32) -> Seq<u8>;
pub uninterp spec fn be_u32(n: u32) -> Seq<u8>;
pub broadcast axiom fn ax_le_f32(r: real) ensures #[trigger] le_f32(r).len() == 4, be_f32(r).len() == 4;
pub broadcast axiom fn ax_le_u32(n: u32) ensures #[trigger] le_u32(n).len() == 4, be_u32(n).len() == 4;
/// the bytes of a number
pub struct Bytes4(pub Ghost<Seq<u8>>);
pub trait VxBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VxBytes for Bytes4 { open spec fn bytes(&self) -> Seq<u8> { self.0@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
pub trait VxLe { spec fn le(&self) -> Seq<u8>; spec fn be(&self) -> Seq<u8>; fn vx_le_bytes(&self) -> (r: Bytes4) ensures r.0@ == self.le(); fn vx_be_bytes(&self) -> (r: Bytes4) ensures r.0@ == self.be(); }
impl VxLe for F32 { open spec fn le(&self) -> Seq<u8> { le_f32(self.0@) } open spec fn be(&self) -> Seq<u8> { be_f32(self.0@) }
    #[verifier::external_body] fn vx_le_bytes(&self) -> (r: Bytes4) { unimplemented!() } #[verifier::external_body] fn vx_be_bytes(&self) -> (r: Bytes4) { unimplemented!() } }
impl VxLe for u32 { open spec fn le(&self) -> Seq<u8> { le_u32(*self) } open spec fn be(&self) -> Seq<u8> { be_u32(*self) }
    #[verifier::external_body] fn vx_le_bytes(&self) -> (r: Bytes4) { unimplemented!() } #[verifier::external_body] fn vx_be_bytes(&self) -> (r: Bytes4) { unimplemented!() } }
/// a formatted text, of which only the least number of bytes is known
pub struct Text(pub Ghost<int>);
impl Text {
    pub open spec fn least(self) -> int { self.0@ }
    pub fn new() -> (r: Text) ensures r.least() == 0 { Text(Ghost(0)) }
    pub fn vx_ch(&mut self, c: char) ensures final(self).least() == old(self).least() + 1 { self.0 = Ghost(self.0@ + 1); }
}
/// le_f32(r) is the encoding of r rounded to single precision
impl Float { pub fn to_f32(self) -> (r: F32) ensures r.0@ == self.v() { F32(self.0) } }
pub struct IoError;
pub type IoResult<T> = core::result::Result<T, IoError>;
pub trait VxTextOut { spec fn tlen(&self) -> int; fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) ensures final(self).tlen() >= old(self).tlen() + t.least(); }
/// append to the vector of bytes
impl VxTextOut for Vec<u8> { open spec fn tlen(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_write_text(&mut self, t: Text) -> (r: IoResult<()>) { unimplemented!() } }
pub struct Name;
impl Name {
    #[verifier::external_body]
    pub fn vx_show(&self, f: &mut Text, fmt: Fmt) ensures final(f).least() == old(f).least() + (match fmt { Fmt::Width(w) => w as int, _ => 0int }) { unimplemented!() }
}
pub struct OsName;
impl OsName { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Name) { unimplemented!() } }
pub struct Path;
pub uninterp spec fn has_stem<P>(p: P) -> bool;
impl Path {
    #[verifier::external_body]
    pub fn new<P>(p: &P) -> (r: &Path) ensures has_stem(*p) ==> has_stem(*r) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<OsName>) ensures has_stem(*self) ==> r is Some { unimplemented!() }
}
/// a newly created file is empty
pub struct File(pub Ghost<Seq<u8>>);
impl File {
    #[verifier::external_body]
    pub fn create<P>(path: P) -> (r: IoResult<File>) ensures r is Ok ==> r->Ok_0.0@ == Seq::<u8>::empty() { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// `data` written at `pos` over `b`
#[verifier::opaque]
pub open spec fn put(b: Seq<u8>, pos: int, data: Seq<u8>) -> Seq<u8> { if pos + data.len() >= b.len() { b.take(pos) + data } else { b.take(pos) + data + b.skip(pos + data.len()) } }
/// buffered writing: what is written reaches the file at the latest when flushed or moved; only then is success certain
pub ghost struct BufState { pub bytes: Seq<u8>, pub pos: int, pub flushed: bool }
pub struct BufWriter(pub Ghost<BufState>);
impl BufWriter {
    pub open spec fn st(&self) -> BufState { self.0@ }
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufWriter) ensures r.st() == (BufState { bytes: f.0@, pos: f.0@.len() as int, flushed: true }) { unimplemented!() }
    /// may accept only the beginning of what it is given
    #[verifier::external_body]
    pub fn write<B: VxBytes>(&mut self, b: &B) -> (r: IoResult<usize>)
        ensures r is Ok ==> exists|n: int| 0 <= n <= b.bytes().len() && final(self).st() == (BufState { bytes: put(old(self).st().bytes, old(self).st().pos, #[trigger] b.bytes().take(n)), pos: old(self).st().pos + n, flushed: false })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all<B: VxBytes>(&mut self, b: &B) -> (r: IoResult<()>)
        ensures r is Ok ==> final(self).st() == (BufState { bytes: put(old(self).st().bytes, old(self).st().pos, b.bytes()), pos: old(self).st().pos + b.bytes().len(), flushed: false }),
            // at the end it appends
            r is Ok && old(self).st().pos == old(self).st().bytes.len() ==> final(self).st() == (BufState { bytes: old(self).st().bytes + b.bytes(), pos: (old(self).st().bytes.len() + b.bytes().len()) as int, flushed: false })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: IoResult<()>) ensures r is Ok ==> final(self).st() == (BufState { flushed: true, ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: IoResult<u64>)
        requires to is Start, to->Start_0 <= old(self).st().bytes.len()
        ensures r is Ok ==> final(self).st() == (BufState { pos: to->Start_0 as int, flushed: true, ..old(self).st() })
    { unimplemented!() }
}
