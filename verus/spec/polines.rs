// The lines of a content
verus! {
/// the bytes of a reader
#[verifier::external_body]
pub struct VxBufReader { b: u8 }
impl View for VxBufReader {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
/// what a BufReader can read from
pub trait VxSource { spec fn bytes(&self) -> Seq<u8>; }
impl<'a> VxSource for &'a [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
}
#[verifier::external_body]
pub fn vx_buf_reader<S: VxSource>(b: S) -> (r: VxBufReader) ensures r@ == b.bytes() { unimplemented!() }
/// the lines of `BufRead::lines`, in order; `None` where the line is not UTF-8
#[verifier::external_body]
pub struct VxLinesIter { l: u8 }
impl View for VxLinesIter {
    type V = Seq<Option<Seq<char>>>;
    uninterp spec fn view(&self) -> Seq<Option<Seq<char>>>;
}
impl VxLinesIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<core::result::Result<String, VxIoError>>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && line_view(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
/// every line has a byte and no allocation has more than isize::MAX of them
#[verifier::external_body]
pub fn vx_buf_lines(b: &mut VxBufReader) -> (r: VxLinesIter)
    ensures r@ == byte_lines(old(b)@), r@.len() < usize::MAX
{ unimplemented!() }
//@@ struct rust/src/poparser.rs LinesHandler
impl View for LinesHandler {
    type V = Seq<Option<Seq<char>>>;
    open spec fn view(&self) -> Seq<Option<Seq<char>>> { self.lines@ }
}
impl LinesHandler {
    /// what a `for` over the iterator goes through
    pub fn vx_rest(&mut self) -> (r: Vec<core::result::Result<String, VxIoError>>)
        ensures
            r@.len() == old(self)@.len(),
            forall|i: int| 0 <= i < r@.len() ==> line_view(#[trigger] r@[i]) == old(self)@[i],
    {
        let mut v: Vec<core::result::Result<String, VxIoError>> = Vec::new();
        let ghost ls = self@;
        let mut x = self.next();
        proof { assert(ls.skip(0) =~= ls); }
        while x.is_some()
            invariant
                v@.len() <= ls.len(),
                forall|i: int| 0 <= i < v@.len() ==> line_view(#[trigger] v@[i]) == ls[i],
                x is None ==> v@.len() == ls.len(),
                x is Some ==> v@.len() < ls.len() && line_view(x->0) == ls[v@.len() as int] && self@ == ls.skip(v@.len() as int + 1),
            decreases ls.len() - v@.len(),
        {
            let y = x.unwrap();
            v.push(y);
            x = self.next();
        }
        v
    }
}
} // verus!
