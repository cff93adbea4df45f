//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/cmp.rs
//@@ blocks verus/contracts/cmp.vx
verus! {
//@@ prove po_cmp_by
//@@ prove mo_cmp_by
//@@ prove cmp_new
//@@ prove cmp_by_all
//@@ prove cmp_default
//@@ prove cmp_from
//@@ prove cmp_by_msgid
//@@ prove cmp_by_msgstr
//@@ prove cmp_by_msgctxt
//@@ prove cmp_by_obsolete
//@@ prove cmp_by_occurrences
//@@ prove cmp_by_msgid_plural
//@@ prove cmp_by_msgstr_plural
//@@ prove cmp_by_flags
} // verus!
fn main() {}
