verus! {
//@@ enum rust/src/errors.rs IOError

#[verifier::external_body]
pub struct VxIoError { e: std::io::Error }

/// The input: `data` is the whole content, `pos` the position in it. Stands
/// for the std Cursor over the bytes, and for a file that is read without
/// errors of the system.
#[verifier::external_body]
pub struct VxReader { c: std::io::Cursor<Vec<u8>> }
impl VxReader {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8; 4]) -> (r: core::result::Result<(), VxIoError>)
        ensures
            final(self).data() == old(self).data(),
            old(self).pos() + 4 <= old(self).data().len() ==> r is Ok
                && final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + 4)
                && final(self).pos() == old(self).pos() + 4,
            old(self).pos() + 4 > old(self).data().len() ==> r is Err,
            final(self).pos() >= 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_seek_start(&mut self, o: u64) -> (r: core::result::Result<u64, VxIoError>)
        ensures r is Ok, final(self).data() == old(self).data(), final(self).pos() == o,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, VxIoError>)
        requires old(self).pos() >= 0,
        ensures
            r is Ok,
            final(self).data() == old(self).data(),
            final(self).pos() >= 0,
            ({
                let p = old(self).pos();
                let l = old(self).data().len() as int;
                let k = if p >= l { 0 } else if p + n <= l { n as int } else { l - p };
                r->Ok_0 == k && final(buf)@ == old(buf)@ + (if k == 0 { Seq::empty() } else { old(self).data().subrange(p, p + k) })
            }),
    { unimplemented!() }
}
/// the value of the `freader` field
pub enum VxReadFn { Le, Be }
impl VxReadFn {
    pub fn vx_call(&self, b: [u8; 4]) -> (r: u32)
        ensures r == num32(*self is Be, b@),
    {
        match self { VxReadFn::Le => vx_u32_from_le_bytes(b), VxReadFn::Be => vx_u32_from_be_bytes(b) }
    }
}
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &Vec<u8>) -> (r: String)
    ensures r@ == lossy(b@),
{ String::from_utf8_lossy(b).into_owned() }

impl<'a> VxContains<&'a u32> for [u32; 2] {
    open spec fn contains_spec(&self, t: &'a u32) -> bool { self@[0] == *t || self@[1] == *t }
    #[verifier::external_body]
    fn vx_contains(&self, t: &'a u32) -> (r: bool) { self.contains(t) }
}
pub uninterp spec fn num_text(n: u32) -> Seq<char>;
impl VxToString for u32 {
    open spec fn str_spec(&self) -> Seq<char> { num_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}

} // verus!
