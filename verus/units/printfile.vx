//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/printfile.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/print.vx
//@@ blocks verus/contracts/printfile.vx
verus! {
//@@ stub escape
//@@ stub wrap
//@@ stub mo_entry_of
//@@ stub mo_entry_with
//@@ stub po_to_string_with
//@@ stub po_metadata_as_entry
//@@ stub mo_entry_to_string
//@@ prove poentry_fmt
//@@ prove mo_to_string_with
//@@ prove moentry_fmt
//@@ prove metadata_msgstr_formatter
//@@ prove mo_metadata_entry_to_string
//@@ prove po_metadata_entry_to_string
//@@ prove pofile_fmt
} // verus!
fn main() {}
