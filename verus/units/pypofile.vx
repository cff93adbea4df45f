//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/printfile.rs
//@@ include verus/spec/printmofile.rs
//@@ include verus/spec/save.rs
//@@ include verus/spec/query_po.rs
//@@ include verus/spec/cmp.rs
//@@ include verus/spec/pyerr.rs
//@@ include verus/spec/pyentry.rs
//@@ include verus/spec/pypofile.rs
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mowrite.vx
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/print.vx
//@@ blocks verus/contracts/printfile.vx
//@@ blocks verus/contracts/save.vx
//@@ blocks verus/contracts/query_po.vx
//@@ blocks verus/contracts/pyentry.vx
//@@ blocks verus/contracts/pyfile.vx
verus! {
//@@ stub po_new
//@@ stub moentry_new
//@@ stub wrap
//@@ stub mo_metadata_as_entry
//@@ stub mo_metadata_entry_to_string
//@@ stub mo_to_string_with
//@@ stub poentry_fmt
//@@ stub moentry_fmt
//@@ stub pofile_fmt
//@@ stub mofile_fmt
//@@ stub mo_file_of
//@@ stub mo_as_bytes_with
//@@ stub mo_as_bytes
//@@ stub mo_as_bytes_le
//@@ stub mo_as_bytes_be
//@@ stub po_save
//@@ stub po_save_as_pofile
//@@ stub po_save_as_mofile
//@@ stub po_find
//@@ stub po_find_by_msgid
//@@ stub po_find_by_msgid_msgctxt
//@@ stub po_remove
//@@ stub po_remove_by_msgid
//@@ stub po_remove_by_msgid_msgctxt
//@@ stub po_translated_entries
//@@ stub po_untranslated_entries
//@@ stub po_obsolete_entries
//@@ stub po_fuzzy_entries
//@@ stub po_percent_translated
//@@ stub po_metadata_as_entry
//@@ stub py_po_from
//@@ stub py_po_inner
//@@ prove py_pof_get_entries
//@@ prove py_pof_set_entries
//@@ prove py_pof_header
//@@ prove py_pof_set_header
//@@ prove py_pof_metadata_is_fuzzy
//@@ prove py_pof_set_metadata_is_fuzzy
//@@ prove py_pof_get_metadata
//@@ prove py_pof_set_metadata
//@@ prove py_pof_update_metadata
//@@ prove py_pof_remove_metadata_field
//@@ prove py_pof_path_or_content
//@@ prove py_pof_wrapwidth
//@@ prove py_pof_set_wrapwidth
//@@ prove py_pof_byte_content
//@@ prove py_pof_save
//@@ prove py_pof_save_as_pofile
//@@ prove py_pof_save_as_mofile
//@@ prove py_pof_remove
//@@ prove py_pof_remove_by_msgid
//@@ prove py_pof_remove_by_msgid_msgctxt
//@@ prove py_pof_append
//@@ prove py_pof_find
//@@ prove py_pof_find_by_msgid
//@@ prove py_pof_find_by_msgid_msgctxt
//@@ prove py_pof_percent
//@@ prove py_pof_translated
//@@ prove py_pof_untranslated
//@@ prove py_pof_obsolete
//@@ prove py_pof_fuzzy
//@@ prove py_pof_metadata_as_entry
//@@ prove py_pof_as_bytes_with
//@@ prove py_pof_as_bytes
//@@ prove py_pof_as_bytes_le
//@@ prove py_pof_as_bytes_be
//@@ prove py_pof_len
//@@ prove py_pof_contains
//@@ prove py_pof_getitem
//@@ prove py_pof_str
//@@ prove py_pof_eq
//@@ prove py_pof_ne
} // verus!
fn main() {}
