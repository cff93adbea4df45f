//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/query_mo.rs
//@@ blocks verus/contracts/query_mo.vx
verus! {
//@@ prove mo_empty_msgctxt_predicate
//@@ prove mo_msgctxt_predicate
//@@ prove mo_by_msgid_predicate
//@@ prove mo_by_msgstr_predicate
//@@ prove mo_by_msgctxt_predicate
//@@ prove mo_by_msgid_plural_predicate
//@@ prove mo_find
//@@ prove mo_find_by_msgid
//@@ prove mo_find_by_msgid_msgctxt
//@@ prove mo_remove
//@@ prove mo_remove_by_msgid
//@@ prove mo_remove_by_msgid_msgctxt
} // verus!
fn main() {}
