#[verifier::external]
impl core::fmt::Debug for VxIoErr {
    fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
// Saving (C11, C19)
verus! {
/// trusted: a created file holds what was written to it, if the file system
/// lets the path be created and does not fail
pub uninterp spec fn can_create(path: Seq<char>) -> bool;
/// the path holds these bytes when the function returns
pub uninterp spec fn saved(path: Seq<char>, b: Seq<u8>) -> bool;
pub struct VxIoErr {}
#[verifier::external_body]
pub struct VxOut { f: u8 }
impl VxOut {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), VxIoErr>)
        ensures final(self).path() == old(self).path(), final(self).written() == old(self).written() + b@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_create(path: &str) -> (r: core::result::Result<VxOut, VxIoErr>)
    ensures can_create(path@) ==> r is Ok && (r->Ok_0).path() == path@ && (r->Ok_0).written() == Seq::<u8>::empty(),
{ unimplemented!() }
pub axiom fn axiom_saved(f: VxOut)
    ensures saved(f.path(), f.written());

// to_string() is what fmt() writes
impl POFile {
    pub fn vx_to_string(&self) -> (r: String)
        ensures is_file_text(self@, r@),
    {
        let mut f = VxFormatter { text: String::new() };
        self.fmt(&mut f);
        f.text
    }
}
impl MOFile {
    pub fn vx_to_string(&self) -> (r: String)
        ensures is_mo_text(self@, r@),
    {
        let mut f = VxFormatter { text: String::new() };
        self.fmt(&mut f);
        f.text
    }
}
pub open spec fn saved_text(f: POFileV, path: Seq<char>) -> bool {
    exists|t: Seq<char>| is_file_text(f, t) && saved(path, #[trigger] vstd::utf8::encode_utf8(t))
}
pub open spec fn saved_mo_text(f: MOFileV, path: Seq<char>) -> bool {
    exists|t: Seq<char>| is_mo_text(f, t) && saved(path, #[trigger] vstd::utf8::encode_utf8(t))
}
pub open spec fn saved_mo(f: MOFileV, path: Seq<char>) -> bool {
    exists|b: Seq<u8>| #[trigger] is_mo_bytes(f, false, 0, b) && saved(path, b)
}
} // verus!
