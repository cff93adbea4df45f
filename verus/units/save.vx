//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/mowrite.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/printfile.rs
//@@ include verus/spec/printmofile.rs
//@@ include verus/spec/save.rs
//@@ blocks verus/contracts/wrap.vx
//@@ blocks verus/contracts/mowrite.vx
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/metadata.vx
//@@ blocks verus/contracts/print.vx
//@@ blocks verus/contracts/printfile.vx
//@@ blocks verus/contracts/save.vx
verus! {
//@@ stub wrap
//@@ stub mo_metadata_as_entry
//@@ stub mo_metadata_entry_to_string
//@@ stub mo_to_string_with
//@@ stub pofile_fmt
//@@ stub mo_file_of
//@@ prove mofile_fmt
//@@ stub mo_as_bytes
//@@ prove po_save_as_pofile
//@@ prove po_save
//@@ prove mo_save
//@@ prove mo_save_as_mofile
//@@ prove mo_save_as_pofile
//@@ prove po_save_as_mofile
} // verus!
fn main() {}
