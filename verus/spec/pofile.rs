verus! {
//@@ struct rust/src/file/mod.rs FileOptions view clone
//@@ struct rust/src/file/pofile.rs POFile view clone
} // verus!
