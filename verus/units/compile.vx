//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/mowrite.vx
//@@ blocks verus/contracts/compile.vx
verus! {
//@@ prove po_fuzzy
//@@ prove po_translated
//@@ prove po_translated_entries
//@@ prove mo_new
//@@ prove mo_entry_of
//@@ prove mo_file_of
//@@ stub mo_as_bytes_with
//@@ prove po_as_bytes
//@@ prove po_as_bytes_le
//@@ prove po_as_bytes_be
} // verus!
fn main() {}
