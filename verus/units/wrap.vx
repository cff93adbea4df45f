//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ blocks verus/contracts/wrap.vx
verus! {
//@@ prove get_linebreaks
//@@ prove wrap
} // verus!
fn main() {}
