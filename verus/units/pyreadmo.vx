//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/moread.rs
//@@ include verus/spec/mosource.rs
//@@ include verus/spec/pyerr.rs
//@@ include verus/spec/pyreadmo.rs
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mosource.vx
//@@ blocks verus/contracts/poread.vx
//@@ blocks verus/contracts/pyread.vx
verus! {
//@@ stub mofile
//@@ stub fo_default
//@@ prove fo_str_width
//@@ prove py_mofile
//@@ prove py_mofile_new
} // verus!
fn main() {}
