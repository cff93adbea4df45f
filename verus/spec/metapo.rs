verus! {
/// the header message of a file
pub open spec fn is_file_head(f: POFileV, e: POEntryV) -> bool {
    &&& e == (POEntryV { flags: if f.metadata_is_fuzzy { seq!["fuzzy"@] } else { Seq::empty() }, msgstr: e.msgstr, ..po_fresh(0) })
    &&& if f.metadata == Map::<Seq<char>, Seq<char>>::empty() { e.msgstr is None } else { e.msgstr is Some && is_meta_text(f.metadata, e.msgstr->0) }
}
} // verus!
