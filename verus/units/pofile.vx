//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ include verus/spec/polines.rs
//@@ include verus/spec/pohandle.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/query_po.rs
//@@ include verus/spec/poread.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/poparse.vx
//@@ blocks verus/contracts/pohandle.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/query_po.vx
//@@ blocks verus/contracts/poread.vx
//@@ include verus/spec/pofilethm.rs
//@@ include verus/spec/samesource.rs
//@@ include verus/spec/parsethm.rs
verus! {
//@@ stub po_new
//@@ prove lines_new
//@@ prove lines_next
//@@ stub parse_with_handler
//@@ prove parse_content
//@@ prove parse_file
//@@ prove parse
//@@ prove po_file_new
//@@ prove parser_new
//@@ prove pofile
//@@ prove fo_default
//@@ prove fo_str
//@@ prove fo_str_width
//@@ prove fo_bytes
//@@ prove fo_bytes_width
//@@ prove fo_ref
//@@ prove fo_path
//@@ prove pofile_from_str
//@@ prove pofile_from_path
} // verus!
fn main() {}
