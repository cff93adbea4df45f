//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ include verus/spec/polines.rs
//@@ include verus/spec/pohandle.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/query_po.rs
//@@ include verus/spec/poread.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/poparse.vx
//@@ blocks verus/contracts/pohandle.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/query_po.vx
//@@ blocks verus/contracts/poread.vx
verus! {
//@@ stub po_fuzzy
//@@ stub po_remove
//@@ stub po_new
//@@ prove maybe_filename_new
//@@ stub lstrip_bom
//@@ stub add_entry
//@@ stub parse_line
//@@ stub lines_next
//@@ prove parse_with_handler
} // verus!
fn main() {}
