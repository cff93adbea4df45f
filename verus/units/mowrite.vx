//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/mowrite.vx
verus! {
//@@ stub moentry_new
//@@ stub meta_to_msgstr
//@@ prove eot_split
//@@ prove mo_msgid_eot
//@@ prove mo_metadata_as_entry
//@@ prove mo_as_bytes_with
//@@ prove mo_as_bytes
//@@ prove mo_as_bytes_le
//@@ prove mo_as_bytes_be
} // verus!
fn main() {}
