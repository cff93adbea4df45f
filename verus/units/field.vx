//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/field.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/print.vx
verus! {
//@@ stub escape
//@@ stub wrap
//@@ prove field_new
//@@ prove ends_in_open_escape
//@@ prove field_fmt
} // verus!
fn main() {}
