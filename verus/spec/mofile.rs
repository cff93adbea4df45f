verus! {
//@@ struct rust/src/file/mod.rs FileOptions view clone
//@@ struct rust/src/file/mofile.rs MOFile view clone
} // verus!
