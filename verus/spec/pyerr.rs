// The exceptions of the Python bindings (C20)
verus! {
/// the exceptions of the package; PyErr as its kind and text
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum VxExc { IOError, SyntaxError, EscapingError, PyIndexError }
pub struct VxPyErr { pub kind: VxExc, pub text: String }
impl VxPyErr {
    pub fn vx_new<T: VxInto<String>>(kind: VxExc, t: T) -> (r: Self)
        ensures r.kind == kind, t.into_spec(r.text),
    { VxPyErr { kind, text: t.vx_into() } }
}
} // verus!
