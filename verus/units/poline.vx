//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ blocks verus/contracts/poparse.vx
verus! {
//@@ prove maybe_filename_new
//@@ prove find_unescaped_quote
//@@ prove check_quoted
//@@ prove lstrip_bom
//@@ prove tokens_from_line
//@@ prove keywords
//@@ prove prev_keywords
//@@ prove build_transitions
//@@ prove transitions
} // verus!
fn main() {}
