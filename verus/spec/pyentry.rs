// The Python bindings (C20)
verus! {
//@@ struct python/src/pypoentry.rs PyPOEntry
//@@ struct python/src/pymoentry.rs PyMOEntry
impl View for PyPOEntry { type V = POEntryV; open spec fn view(&self) -> POEntryV { self.0@ } }
impl View for PyMOEntry { type V = MOEntryV; open spec fn view(&self) -> MOEntryV { self.0@ } }
pub open spec fn eot_key(c: Option<Seq<char>>, m: Seq<char>) -> Seq<char> {
    match c { Some(c) => c.push('\u{4}') + m, None => m }
}
pub open spec fn mo_translated(e: MOEntryV) -> bool {
    match e.msgstr {
        Some(s) => s.len() > 0,
        None => exists|i: int| 0 <= i < e.msgstr_plural.len() && (#[trigger] e.msgstr_plural[i]).len() > 0,
    }
}
impl VxEq<Ordering> for Ordering {
    open spec fn eq_sv(&self, o: &Ordering) -> bool { *self == *o }
    fn vx_eq_(&self, o: &Ordering) -> (r: bool) {
        match (*self, *o) {
            (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater) => true,
            _ => false,
        }
    }
}
pub open spec fn cmp_code(o: Ordering) -> i8 {
    match o { Ordering::Less => -1i8, Ordering::Equal => 0i8, Ordering::Greater => 1i8 }
}
// to_string() is what fmt() writes
impl POEntry {
    pub fn vx_to_string(&self) -> (r: String)
        ensures is_items(po_items(self@), 78, r@),
    {
        let mut f = VxFormatter { text: String::new() };
        self.fmt(&mut f);
        f.text
    }
}
impl MOEntry {
    pub fn vx_to_string(&self) -> (r: String)
        ensures is_items(mo_items(self@, Seq::empty()), 78, r@),
    {
        let mut f = VxFormatter { text: String::new() };
        self.fmt(&mut f);
        f.text
    }
}
} // verus!
