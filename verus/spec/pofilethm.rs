#[verifier::external]
impl core::fmt::Debug for VxIoError {
    fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
#[verifier::external]
impl core::fmt::Debug for SyntaxError {
    fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
verus! {
// ---------------------------------------------------------------------
// from the options of a file to the file

#[verifier::external_body]
pub fn vx_is_file(path: &str) -> (r: bool) ensures r == is_file(path@) { std::path::Path::new(path).is_file() }
pub trait VxIntoBytes {
    spec fn ibv(&self) -> Seq<char>;
    fn vx_into_bytes(self) -> (r: Vec<u8>) where Self: Sized
        ensures r@ == vstd::utf8::encode_utf8(self.ibv());
}
impl VxIntoBytes for String {
    open spec fn ibv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() }
}
/// an open file, seen as its bytes
#[verifier::external_body]
pub struct VxFile { f: u8 }
impl View for VxFile {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl VxSource for VxFile {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
}
/// a file that is there can be opened
#[verifier::external_body]
pub fn vx_open(path: &str) -> (r: core::result::Result<VxFile, VxIoError>)
    ensures is_file(path@) ==> r is Ok && (r->Ok_0)@ == fs(path@),
{ unimplemented!() }
/// std::path::Path, None when it is not a text
#[verifier::external_body]
pub struct VxPath { p: u8 }
impl View for VxPath {
    type V = Option<Seq<char>>;
    uninterp spec fn view(&self) -> Option<Seq<char>>;
}
impl VxPath {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures self@ is Some <==> r is Some, r is Some ==> r->0@ == self@->0,
    { unimplemented!() }
}
/// Into from From, as std has it
impl<'a> VxInto<FileOptions> for &'a str {
    open spec fn into_spec(self, t: FileOptions) -> bool { t@ == (FileOptionsV { path_or_content: self@, ..opts_fresh() }) }
    fn vx_into(self) -> (r: FileOptions) { FileOptions::vx_from(self) }
}
impl<'a> VxInto<FileOptions> for (&'a str, usize) {
    open spec fn into_spec(self, t: FileOptions) -> bool { t@ == (FileOptionsV { path_or_content: self.0@, wrapwidth: self.1, ..opts_fresh() }) }
    fn vx_into(self) -> (r: FileOptions) { FileOptions::vx_from(self) }
}
impl VxInto<FileOptions> for Vec<u8> {
    open spec fn into_spec(self, t: FileOptions) -> bool { t@ == (FileOptionsV { byte_content: Some(self@), ..opts_fresh() }) }
    fn vx_into(self) -> (r: FileOptions) { FileOptions::vx_from(self) }
}
impl VxInto<FileOptions> for (Vec<u8>, usize) {
    open spec fn into_spec(self, t: FileOptions) -> bool { t@ == (FileOptionsV { byte_content: Some(self.0@), wrapwidth: self.1, ..opts_fresh() }) }
    fn vx_into(self) -> (r: FileOptions) { FileOptions::vx_from(self) }
}
impl<'a> VxInto<FileOptions> for &'a FileOptions {
    open spec fn into_spec(self, t: FileOptions) -> bool { t@ == self@ }
    fn vx_into(self) -> (r: FileOptions) { FileOptions::vx_from(self) }
}
impl VxInto<FileOptions> for FileOptions {
    open spec fn into_spec(self, t: FileOptions) -> bool { t == self }
    fn vx_into(self) -> (r: FileOptions) { self }
}
pub open spec fn same_file(r: core::result::Result<POFile, SyntaxError>, want: core::result::Result<POFileV, PErr>) -> bool {
    match want {
        Ok(f) => r is Ok && (r->Ok_0)@ == f,
        Err(e) => r is Err && perr(r->Err_0) == e,
    }
}
} // verus!
