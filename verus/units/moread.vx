//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/moread.rs
//@@ include verus/spec/moread_thm.rs
//@@ blocks verus/contracts/moread.vx
verus! {
//@@ struct rust/src/moparser.rs MOFileParser
//@@ prove mo_extract_plurals
//@@ prove mo_extract_ctx
//@@ prove mo_4_bytes
//@@ prove mo_string
//@@ prove mo_magic
//@@ prove mo_revision
//@@ prove mo_numofstrings
//@@ prove mo_tables_offsets
//@@ prove mo_indexes_table
//@@ prove mo_msgs_indexes
//@@ prove moentry_new
//@@ prove mo_msgs
//@@ prove mo_parse
} // verus!
fn main() {}
