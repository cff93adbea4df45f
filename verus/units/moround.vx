//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ include verus/spec/mowrite_thm.rs
//@@ include verus/spec/moround.rs
fn main() {}
