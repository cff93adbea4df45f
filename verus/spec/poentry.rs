verus! {
//@@ struct rust/src/entry/poentry.rs POEntry view clone eq default
impl VxEq<POEntry> for POEntry {
    open spec fn eq_sv(&self, o: &POEntry) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &POEntry) -> (r: bool) { unimplemented!() }
}
pub open spec fn vx_poentries(s: Seq<POEntry>) -> Seq<POEntryV> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_porefs(s: Seq<&POEntry>) -> Seq<POEntryV> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_porefopt(o: Option<&POEntry>) -> Option<POEntryV> {
    match o { Some(e) => Some(e@), None => None }
}
pub open spec fn not_entry(x: POEntryV) -> spec_fn(POEntryV) -> bool { |e: POEntryV| e != x }
pub open spec fn po_fresh(linenum: usize) -> POEntryV {
    POEntryV {
        msgid: Seq::empty(), msgstr: None, msgid_plural: None, msgstr_plural: Seq::empty(), msgctxt: None,
        obsolete: false, comment: None, tcomment: None, occurrences: Seq::empty(), flags: Seq::empty(),
        previous_msgid: None, previous_msgid_plural: None, previous_msgctxt: None, linenum: linenum,
    }
}
} // verus!
