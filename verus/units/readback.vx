//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/order.rs
//@@ include verus/spec/poentry.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/status.rs
//@@ include verus/spec/compile.rs
//@@ include verus/spec/escaping.rs
//@@ include verus/spec/slice.rs
//@@ include verus/spec/wrap.rs
//@@ include verus/spec/metadata.rs
//@@ include verus/spec/metapo.rs
//@@ include verus/spec/print.rs
//@@ include verus/spec/printmo.rs
//@@ include verus/spec/printpo.rs
//@@ include verus/spec/printfile.rs
//@@ include verus/spec/ptext.rs
//@@ include verus/spec/poparse.rs
//@@ include verus/spec/poparse2.rs
//@@ include verus/spec/pohandle.rs
//@@ include verus/spec/poread.rs
//@@ include verus/spec/classify.rs
//@@ include verus/spec/fields.rs
//@@ include verus/spec/readback.rs
//@@ include verus/spec/readmsg.rs
//@@ include verus/spec/readfile.rs
//@@ include verus/spec/samesource.rs
//@@ include verus/spec/savedthm.rs
//@@ blocks verus/contracts/escaping.vx
//@@ blocks verus/contracts/wrap.vx
verus! {
//@@ stub wrap
} // verus!

fn main() {}
