//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/merge.rs
//@@ blocks verus/contracts/merge.vx
verus! {
//@@ prove po_new
//@@ prove po_entry_merge
//@@ prove po_file_merge
} // verus!
fn main() {}
