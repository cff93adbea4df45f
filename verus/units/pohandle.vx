//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/pofile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ include verus/spec/pohandle.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/merge.vx
//@@ blocks verus/contracts/poparse.vx
//@@ blocks verus/contracts/pohandle.vx
verus! {
//@@ stub unescape
//@@ stub po_new
//@@ prove maybe_filename_new
//@@ stub transitions
//@@ prove po_unescaped
//@@ prove add_entry
//@@ prove maybe_add_entry
//@@ prove handle_he
//@@ prove handle_tc
//@@ prove handle_gc
//@@ prove handle_oc
//@@ prove handle_fl
//@@ prove handle_pp
//@@ prove handle_pm
//@@ prove handle_pc
//@@ prove handle_ct
//@@ prove handle_mi
//@@ prove handle_mp
//@@ prove handle_ms
//@@ prove handle_mx
//@@ prove handle_mc
//@@ prove factory
//@@ prove process
} // verus!
fn main() {}
