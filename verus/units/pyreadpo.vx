//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ include verus/spec/polines.rs
//@@ include verus/spec/pohandle.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/query_po.rs
//@@ include verus/spec/poread.rs
//@@ include verus/spec/pofilethm.rs
//@@ include verus/spec/samesource.rs
//@@ include verus/spec/parsethm.rs
//@@ include verus/spec/pyerr.rs
//@@ include verus/spec/pyreadpo.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/poparse.vx
//@@ blocks verus/contracts/pohandle.vx
//@@ blocks verus/contracts/status.vx
//@@ blocks verus/contracts/query_po.vx
//@@ blocks verus/contracts/poread.vx
//@@ blocks verus/contracts/pyread.vx
verus! {
//@@ stub po_new
//@@ stub lines_next
//@@ stub fo_default
//@@ stub fo_str
//@@ stub fo_str_width
//@@ stub fo_bytes
//@@ stub fo_bytes_width
//@@ stub fo_ref
//@@ stub pofile
//@@ stub escape
//@@ stub unescape
//@@ prove py_pofile
//@@ prove py_pofile_new
//@@ prove py_escape
//@@ prove py_unescape
} // verus!
fn main() {}
