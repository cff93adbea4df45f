//@@ include verus/spec/base.rs
//@@ include verus/spec/entry.rs
//@@ include verus/spec/text.rs
//@@ include verus/spec/moentry.rs
//@@ include verus/spec/mofile.rs
//@@ include verus/spec/mobytes.rs
//@@ include verus/spec/moformat.rs
//@@ include verus/spec/moread.rs
//@@ include verus/spec/mosource.rs
//@@ blocks verus/contracts/compile.vx
//@@ blocks verus/contracts/moread.vx
//@@ blocks verus/contracts/mosource.vx
verus! {
//@@ struct rust/src/moparser.rs MOFileParser
//@@ stub mo_parse
//@@ prove mo_new
//@@ prove mo_parser_new
//@@ prove mofile
} // verus!
fn main() {}
