#[verifier::external]
impl core::fmt::Debug for VxIoError {
    fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
// ---------------------------------------------------------------------
// from the options of a file to the file (C10)
verus! {
/// the file system while a file is read: which paths are files, and their bytes
pub uninterp spec fn is_file(path: Seq<char>) -> bool;
pub uninterp spec fn fs(path: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_is_file(path: &str) -> (r: bool) ensures r == is_file(path@) { std::path::Path::new(path).is_file() }
/// a file that is there can be opened
#[verifier::external_body]
pub fn vx_open(path: &str) -> (r: core::result::Result<VxReader, VxIoError>)
    ensures is_file(path@) ==> r is Ok && (r->Ok_0).data() == fs(path@) && (r->Ok_0).pos() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cursor(b: Vec<u8>) -> (r: VxReader)
    ensures r.data() == b@, r.pos() == 0,
{ unimplemented!() }
pub open spec fn opts_fresh() -> FileOptionsV {
    FileOptionsV { path_or_content: Seq::empty(), wrapwidth: 78, byte_content: None }
}
impl VxInto<FileOptions> for FileOptions {
    open spec fn into_spec(self, t: FileOptions) -> bool { t == self }
    fn vx_into(self) -> (r: FileOptions) { self }
}
pub trait VxBytesOrNone {
    spec fn bon(self) -> Option<Seq<u8>>;
    fn vx_unwrap_or_default(self) -> (r: Vec<u8>) where Self: Sized
        ensures r@ == (match self.bon() { Some(b) => b, None => Seq::empty() });
}
impl VxBytesOrNone for Option<Vec<u8>> {
    open spec fn bon(self) -> Option<Seq<u8>> { vx_optbytes(self) }
    fn vx_unwrap_or_default(self) -> (r: Vec<u8>) {
        match self { Some(b) => b, None => { let r = Vec::new(); assert(r@ =~= Seq::<u8>::empty()); r } }
    }
}
/// the bytes the options stand for; a text that is not the path of a file is no content
pub open spec fn mo_source(o: FileOptionsV) -> Seq<u8> {
    if is_file(o.path_or_content) { fs(o.path_or_content) } else { match o.byte_content { Some(b) => b, None => Seq::empty() } }
}
pub open spec fn mo_fresh(o: FileOptionsV) -> MOFileV {
    MOFileV { magic_number: None, version: None, metadata: Map::empty(), entries: Seq::empty(), options: o }
}
/// what reading a MO file gives
pub open spec fn mo_read(r: core::result::Result<MOFile, IOError>, o: FileOptionsV) -> bool {
    &&& r is Ok == is_mo(mo_source(o))
    &&& r is Ok ==> (r->Ok_0)@ == mo_file(mo_source(o), mo_fresh(o))
}
/// C10: the same bytes in memory and in a file, and a text that is no path
pub proof fn theorem_mo_source(path: Seq<char>, b: Seq<u8>, w: usize, o: FileOptionsV)
    ensures
        is_file(path) && fs(path) == b && !is_file(Seq::empty()) ==> mo_source(FileOptionsV { path_or_content: path, wrapwidth: w, byte_content: None })
            == mo_source(FileOptionsV { path_or_content: Seq::empty(), wrapwidth: w, byte_content: Some(b) }),
        !is_file(o.path_or_content) && o.byte_content is None ==> !is_mo(mo_source(o)),
{
    assert(mo_source(o).len() == 0 ==> !is_mo(mo_source(o)));
}
} // verus!
