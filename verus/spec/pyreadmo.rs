// Reading through the Python bindings (C20)
verus! {
//@@ struct python/src/pymofile.rs PyMOFile
impl View for PyMOFile { type V = MOFileV; open spec fn view(&self) -> MOFileV { self.0@ } }
/// the text of an error
pub uninterp spec fn io_text(e: IOError) -> Seq<char>;
impl VxToString for IOError {
    open spec fn str_spec(&self) -> Seq<char> { io_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// reading gives the file that Rust gives, or the exception of the package
pub open spec fn py_read_mo(r: core::result::Result<PyMOFile, VxPyErr>, s: Seq<char>, w: usize) -> bool {
    let o = FileOptionsV { path_or_content: s, wrapwidth: w, byte_content: None };
    &&& is_mo(mo_source(o)) ==> r is Ok && (r->Ok_0)@ == mo_file(mo_source(o), mo_fresh(o))
    &&& !is_mo(mo_source(o)) ==> r is Err && (r->Err_0).kind == VxExc::IOError
}
} // verus!
