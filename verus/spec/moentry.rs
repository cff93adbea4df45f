verus! {
//@@ struct rust/src/entry/moentry.rs MOEntry view clone eq default
impl VxEq<MOEntry> for MOEntry {
    open spec fn eq_sv(&self, o: &MOEntry) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &MOEntry) -> (r: bool) { unimplemented!() }
}
pub open spec fn vx_moentries(s: Seq<MOEntry>) -> Seq<MOEntryV> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_morefs(s: Seq<&MOEntry>) -> Seq<MOEntryV> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_morefopt(o: Option<&MOEntry>) -> Option<MOEntryV> {
    match o { Some(e) => Some(e@), None => None }
}
} // verus!
