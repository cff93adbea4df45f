//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/cmp.rs
//@@ include verus/spec/pyerr.rs
//@@ include verus/spec/pyentry.rs
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/print.vx
//@@ blocks verus/contracts/printfile.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mowrite.vx
//@@ blocks verus/contracts/cmp.vx
//@@ blocks verus/contracts/eot.vx
//@@ blocks verus/contracts/pyentry.vx
verus! {
//@@ stub wrap
//@@ stub po_new
//@@ stub moentry_new
//@@ stub po_fuzzy
//@@ stub po_translated
//@@ stub po_entry_merge
//@@ stub po_to_string_with
//@@ stub mo_to_string_with
//@@ stub poentry_fmt
//@@ stub moentry_fmt
//@@ stub po_cmp_by
//@@ stub mo_cmp_by
//@@ stub cmp_default
//@@ stub cmp_from
//@@ prove eot_split
//@@ prove po_msgid_eot
//@@ prove mo_msgid_eot2
//@@ prove mo_entry_translated
//@@ prove mo_entry_merge
//@@ prove py_po_from
//@@ prove py_po_inner
//@@ prove py_po_new
//@@ prove py_po_get_msgid
//@@ prove py_po_set_msgid
//@@ prove py_po_get_msgstr
//@@ prove py_po_set_msgstr
//@@ prove py_po_get_msgid_plural
//@@ prove py_po_set_msgid_plural
//@@ prove py_po_get_msgstr_plural
//@@ prove py_po_set_msgstr_plural
//@@ prove py_po_get_msgctxt
//@@ prove py_po_set_msgctxt
//@@ prove py_po_get_obsolete
//@@ prove py_po_set_obsolete
//@@ prove py_po_get_comment
//@@ prove py_po_set_comment
//@@ prove py_po_get_tcomment
//@@ prove py_po_set_tcomment
//@@ prove py_po_get_occurrences
//@@ prove py_po_set_occurrences
//@@ prove py_po_get_flags
//@@ prove py_po_set_flags
//@@ prove py_po_get_previous_msgid
//@@ prove py_po_set_previous_msgid
//@@ prove py_po_get_previous_msgid_plural
//@@ prove py_po_set_previous_msgid_plural
//@@ prove py_po_get_previous_msgctxt
//@@ prove py_po_set_previous_msgctxt
//@@ prove py_po_get_linenum
//@@ prove py_po_set_linenum
//@@ prove py_po_fuzzy
//@@ prove py_po_to_string_with
//@@ prove py_po_eot
//@@ prove py_po_translated
//@@ prove py_po_merge
//@@ prove py_po_str
//@@ prove py_po_eq
//@@ prove py_po_ne
//@@ prove py_po_gt
//@@ prove py_po_ge
//@@ prove py_po_lt
//@@ prove py_po_le
//@@ prove py_po_cmp
//@@ prove py_po_cmp_by
//@@ prove py_mo_from
//@@ prove py_mo_inner
//@@ prove py_mo_new
//@@ prove py_mo_get_msgid
//@@ prove py_mo_set_msgid
//@@ prove py_mo_get_msgstr
//@@ prove py_mo_set_msgstr
//@@ prove py_mo_get_msgid_plural
//@@ prove py_mo_set_msgid_plural
//@@ prove py_mo_get_msgstr_plural
//@@ prove py_mo_set_msgstr_plural
//@@ prove py_mo_get_msgctxt
//@@ prove py_mo_set_msgctxt
//@@ prove py_mo_to_string_with
//@@ prove py_mo_eot
//@@ prove py_mo_translated
//@@ prove py_mo_merge
//@@ prove py_mo_str
//@@ prove py_mo_eq
//@@ prove py_mo_ne
//@@ prove py_mo_gt
//@@ prove py_mo_ge
//@@ prove py_mo_lt
//@@ prove py_mo_le
//@@ prove py_mo_cmp
//@@ prove py_mo_cmp_by
} // verus!
fn main() {}
