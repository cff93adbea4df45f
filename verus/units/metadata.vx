//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/metaorder.rs
//@@ include verus/spec/mowrite.rs
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mowrite.vx
verus! {
//@@ prove meta_to_ordered
//@@ prove meta_to_msgstr
//@@ prove po_new
//@@ prove po_metadata_as_entry
//@@ prove moentry_new
//@@ prove mo_metadata_as_entry
} // verus!
fn main() {}
