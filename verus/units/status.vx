//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/status.rs
//@@ blocks verus/contracts/status.vx
verus! {
//@@ prove po_fuzzy
//@@ prove po_translated
//@@ prove po_translated_entries
//@@ prove po_untranslated_entries
//@@ prove po_obsolete_entries
//@@ prove po_fuzzy_entries
//@@ prove po_percent_translated
} // verus!
fn main() {}
