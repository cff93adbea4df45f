//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/printfile.rs
//@@ include verus/spec/printmofile.rs
//@@ include verus/spec/save.rs
//@@ include verus/spec/query_mo.rs
//@@ include verus/spec/cmp.rs
//@@ include verus/spec/pyerr.rs
//@@ include verus/spec/pyentry.rs
//@@ include verus/spec/pymofile.rs
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mowrite.vx
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/print.vx
//@@ blocks verus/contracts/printfile.vx
//@@ blocks verus/contracts/save.vx
//@@ blocks verus/contracts/query_mo.vx
//@@ blocks verus/contracts/pyentry.vx
//@@ blocks verus/contracts/pyfile.vx
verus! {
//@@ stub po_new
//@@ stub moentry_new
//@@ stub wrap
//@@ stub mo_metadata_as_entry
//@@ stub mo_metadata_entry_to_string
//@@ stub mo_to_string_with
//@@ stub poentry_fmt
//@@ stub moentry_fmt
//@@ stub pofile_fmt
//@@ stub mofile_fmt
//@@ stub mo_file_of
//@@ stub mo_as_bytes_with
//@@ stub mo_as_bytes
//@@ stub mo_as_bytes_le
//@@ stub mo_as_bytes_be
//@@ stub mo_save
//@@ stub mo_save_as_pofile
//@@ stub mo_save_as_mofile
//@@ stub mo_find
//@@ stub mo_find_by_msgid
//@@ stub mo_find_by_msgid_msgctxt
//@@ stub mo_remove
//@@ stub mo_remove_by_msgid
//@@ stub mo_remove_by_msgid_msgctxt
//@@ stub py_mo_from
//@@ stub py_mo_inner
//@@ prove py_mof_get_entries
//@@ prove py_mof_set_entries
//@@ prove py_mof_MAGIC
//@@ prove py_mof_MAGIC_SWAPPED
//@@ prove py_mof_magic_number
//@@ prove py_mof_version
//@@ prove py_mof_get_metadata
//@@ prove py_mof_set_metadata
//@@ prove py_mof_update_metadata
//@@ prove py_mof_remove_metadata_field
//@@ prove py_mof_path_or_content
//@@ prove py_mof_wrapwidth
//@@ prove py_mof_set_wrapwidth
//@@ prove py_mof_byte_content
//@@ prove py_mof_save
//@@ prove py_mof_save_as_pofile
//@@ prove py_mof_save_as_mofile
//@@ prove py_mof_remove
//@@ prove py_mof_remove_by_msgid
//@@ prove py_mof_remove_by_msgid_msgctxt
//@@ prove py_mof_append
//@@ prove py_mof_find
//@@ prove py_mof_find_by_msgid
//@@ prove py_mof_find_by_msgid_msgctxt
//@@ prove py_mof_metadata_as_entry
//@@ prove py_mof_as_bytes_with
//@@ prove py_mof_as_bytes
//@@ prove py_mof_as_bytes_le
//@@ prove py_mof_as_bytes_be
//@@ prove py_mof_len
//@@ prove py_mof_contains
//@@ prove py_mof_getitem
//@@ prove py_mof_str
//@@ prove py_mof_eq
//@@ prove py_mof_ne
} // verus!
fn main() {}
