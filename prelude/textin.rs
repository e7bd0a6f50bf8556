// Text read back. A line is a sequence of characters; lines, splitting and parsing as documented in std.
/// the text a token prints; a finite f64 prints digits (never blanks, commas, line ends or '#') that read back to it
pub uninterp spec fn num_chars(r: real) -> Seq<char>;
pub uninterp spec fn parsed(s: Seq<char>) -> Option<real>;
pub open spec fn plain_char(c: char) -> bool { c != ' ' && c != ',' && c != '\t' && c != '\n' && c != '\r' && c != '#' }
pub broadcast axiom fn ax_num_chars(r: real)
    ensures #[trigger] num_chars(r).len() > 0, parsed(num_chars(r)) == Some(r), forall|i: int| 0 <= i < num_chars(r).len() ==> plain_char(#[trigger] num_chars(r)[i]);
pub struct Line(pub Ghost<Seq<char>>);
pub struct VxBytes(pub Ghost<Seq<char>>);
pub struct Cursor(pub Ghost<Seq<char>>);
/// index of the first character of `s` that is one of `set`, or the length
pub open spec fn first_of(s: Seq<char>, set: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if set.contains(s[0]) { 0 } else { 1 + first_of(s.drop_first(), set) } }
/// str::split: the pieces between separators
pub open spec fn split_of(s: Seq<char>, set: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let i = first_of(s, set);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i)] + split_of(s.skip(i + 1), set) }
}
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// BufRead::lines: the pieces ended by line ends (the last need not be), without their line ends
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let i = first_of(s, seq!['\n']);
    if s.len() == 0 { Seq::empty() } else if i < 0 || i >= s.len() { seq![s] } else { seq![no_cr(s.take(i))] + lines_of(s.skip(i + 1)) }
}
/// the content of the file at the time it is read
pub uninterp spec fn content<P>(path: P) -> Seq<char>;
#[derive(Debug)]
pub struct ParseFloatError;
#[verifier::external_body]
pub fn read<P>(path: P) -> (r: IoResult<VxBytes>) ensures r is Ok ==> r->Ok_0.0@ == content(path) { unimplemented!() }
impl Cursor {
    #[verifier::external_body]
    pub fn new(b: VxBytes) -> (r: Cursor) ensures r.0@ == b.0@ { unimplemented!() }
    /// the lines in order; reading stops counting at an error
    #[verifier::external_body]
    pub fn vx_lines(&self) -> (r: Vec<IoResult<Line>>)
        ensures r@.len() == lines_of(self.0@).len(), forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) is Ok ==> r@[i]->Ok_0.0@ == lines_of(self.0@)[i]
    { unimplemented!() }
}
impl Line {
    #[verifier::external_body]
    pub fn starts_with(&self, c: char) -> (r: bool) ensures r == (self.0@.len() > 0 && self.0@[0] == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_split<const N: usize>(&self, set: &[char; N]) -> (r: Vec<Line>)
        ensures r@.len() == split_of(self.0@, set@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == split_of(self.0@, set@)[i]
    { unimplemented!() }
}
impl Float {
    #[verifier::external_body]
    pub fn from_str(s: &Line) -> (r: core::result::Result<Float, ParseFloatError>) ensures r is Ok == parsed(s.0@) is Some, r is Ok ==> r->Ok_0.v() == parsed(s.0@)->0 { unimplemented!() }
}
