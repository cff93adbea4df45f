// Reading through the Python bindings (C20)
verus! {
//@@ struct python/src/pypofile.rs PyPOFile
impl View for PyPOFile { type V = POFileV; open spec fn view(&self) -> POFileV { self.0@ } }
/// the text of an error
pub uninterp spec fn syntax_text(e: SyntaxError) -> Seq<char>;
impl VxToString for SyntaxError {
    open spec fn str_spec(&self) -> Seq<char> { syntax_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// reading gives the file that Rust gives, or the exception of the package
pub open spec fn py_read_po(r: core::result::Result<PyPOFile, VxPyErr>, s: Seq<char>, w: usize) -> bool {
    match read_any(FileOptionsV { path_or_content: s, wrapwidth: w, byte_content: None }) {
        Ok(f) => r is Ok && (r->Ok_0)@ == f,
        Err(_) => r is Err && (r->Err_0).kind == VxExc::SyntaxError,
    }
}
} // verus!
