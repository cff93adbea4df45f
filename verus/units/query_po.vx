//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/query_po.rs
//@@ blocks verus/contracts/query_po.vx
verus! {
//@@ prove po_empty_msgctxt_predicate
//@@ prove po_msgctxt_predicate
//@@ prove po_by_msgid_predicate
//@@ prove po_by_msgstr_predicate
//@@ prove po_by_msgctxt_predicate
//@@ prove po_by_msgid_plural_predicate
//@@ prove po_by_previous_msgid_predicate
//@@ prove po_by_previous_msgid_plural_predicate
//@@ prove po_by_previous_msgctxt_predicate
//@@ prove po_find
//@@ prove po_find_by_msgid
//@@ prove po_find_by_msgid_msgctxt
//@@ prove po_remove
//@@ prove po_remove_by_msgid
//@@ prove po_remove_by_msgid_msgctxt
} // verus!
fn main() {}
