//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/field.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/print.vx
verus! {
//@@ stub wrap
//@@ stub field_new
//@@ stub field_fmt
//@@ prove mo_entry_of
//@@ prove default_msgstr_formatter
//@@ prove mo_entry_with
//@@ prove mo_entry_to_string
//@@ prove format_comment
//@@ prove po_to_string_with
} // verus!
fn main() {}
