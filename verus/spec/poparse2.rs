verus! {
// ---------------------------------------------------------------------
// Trusted contracts of std for the parser

impl VxEq<St> for St {
    open spec fn eq_sv(&self, o: &St) -> bool { *self == *o }
    fn vx_eq_(&self, o: &St) -> (r: bool) { *self == *o }
}
impl<'a> VxContains<&'a St> for [St; 3] {
    open spec fn contains_spec(&self, t: &'a St) -> bool { self@[0] == *t || self@[1] == *t || self@[2] == *t }
    fn vx_contains(&self, t: &'a St) -> (r: bool) { self[0] == *t || self[1] == *t || self[2] == *t }
}
#[verifier::external]
impl std::fmt::Debug for EscapingError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl VxToString for EscapingError {
    uninterp spec fn str_spec(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// HashMap<String, &'static St>
#[verifier::external_body]
pub struct VxKwMap { m: std::collections::HashMap<String, &'static St> }
impl View for VxKwMap {
    type V = Map<Seq<char>, St>;
    uninterp spec fn view(&self) -> Map<Seq<char>, St>;
}
impl VxKwMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, St>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: &'static St) -> (r: Option<&'static St>) ensures final(self)@ == old(self)@.insert(k@, *v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&&'static St>)
        ensures r is Some == self@.contains_key(k@), r is Some ==> **r->0 == self@[k@],
    { unimplemented!() }
}
/// HashMap<(St, St), (St, St)>
#[verifier::external_body]
pub struct VxTransitions { m: std::collections::HashMap<(u8, u8), (St, St)> }
impl VxTransitions {
    pub uninterp spec fn at(&self, a: St, b: St) -> Option<(St, St)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|a: St, b: St| #[trigger] r.at(a, b) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (St, St), v: (St, St)) -> (r: Option<(St, St)>)
        ensures forall|a: St, b: St| #[trigger] final(self).at(a, b) == if a == k.0 && b == k.1 { Some(v) } else { old(self).at(a, b) },
    { unimplemented!() }
    /// eight inserts
    pub fn insert8(&mut self, p0: ((St, St), (St, St)), p1: ((St, St), (St, St)), p2: ((St, St), (St, St)), p3: ((St, St), (St, St)), p4: ((St, St), (St, St)), p5: ((St, St), (St, St)), p6: ((St, St), (St, St)), p7: ((St, St), (St, St)))
        ensures forall|a: St, b: St| #[trigger] final(self).at(a, b) == if a == (p7.0).0 && b == (p7.0).1 { Some(p7.1) } else if a == (p6.0).0 && b == (p6.0).1 { Some(p6.1) } else if a == (p5.0).0 && b == (p5.0).1 { Some(p5.1) } else if a == (p4.0).0 && b == (p4.0).1 { Some(p4.1) } else if a == (p3.0).0 && b == (p3.0).1 { Some(p3.1) } else if a == (p2.0).0 && b == (p2.0).1 { Some(p2.1) } else if a == (p1.0).0 && b == (p1.0).1 { Some(p1.1) } else if a == (p0.0).0 && b == (p0.0).1 { Some(p0.1) } else { old(self).at(a, b) },
    {
        self.insert(p0.0, p0.1);
        self.insert(p1.0, p1.1);
        self.insert(p2.0, p2.1);
        self.insert(p3.0, p3.1);
        self.insert(p4.0, p4.1);
        self.insert(p5.0, p5.1);
        self.insert(p6.0, p6.1);
        self.insert(p7.0, p7.1);
    }
    #[verifier::external_body]
    pub fn get(&self, k: &(St, St)) -> (r: Option<&(St, St)>)
        ensures match self.at(k.0, k.1) { Some(v) => r is Some && *r->0 == v, None => r is None },
    { unimplemented!() }
}
pub proof fn lemma_kw_names()
    ensures
        "msgctxt"@ == seq!['m', 's', 'g', 'c', 't', 'x', 't'],
        "msgid"@ == seq!['m', 's', 'g', 'i', 'd'],
        "msgstr"@ == seq!['m', 's', 'g', 's', 't', 'r'],
        "msgid_plural"@ == seq!['m', 's', 'g', 'i', 'd', '_', 'p', 'l', 'u', 'r', 'a', 'l'],
        "msgctxt"@ != "msgid"@ && "msgctxt"@ != "msgstr"@ && "msgctxt"@ != "msgid_plural"@
        && "msgid"@ != "msgstr"@ && "msgid"@ != "msgid_plural"@ && "msgstr"@ != "msgid_plural"@,
        "msgctxt"@.len() == 7, "msgid"@.len() == 5, "msgstr"@.len() == 6, "msgid_plural"@.len() == 12,
{
    reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgstr"); reveal_strlit("msgid_plural");
    assert("msgctxt"@ =~= seq!['m', 's', 'g', 'c', 't', 'x', 't']);
    assert("msgid"@ =~= seq!['m', 's', 'g', 'i', 'd']);
    assert("msgstr"@ =~= seq!['m', 's', 'g', 's', 't', 'r']);
    assert("msgid_plural"@ =~= seq!['m', 's', 'g', 'i', 'd', '_', 'p', 'l', 'u', 'r', 'a', 'l']);
}
} // verus!
verus! {
/// std::io::Error
#[verifier::external_body]
pub struct VxIoError { e: u8 }
impl VxToString for VxIoError {
    uninterp spec fn str_spec(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub open spec fn line_view(r: core::result::Result<String, VxIoError>) -> Option<Seq<char>> {
    match r { Ok(s) => Some(s@), Err(_) => None }
}
/// a part of a vector of texts
pub trait VxVecSlice {
    spec fn vsv(&self) -> Seq<Seq<char>>;
    fn vx_slice_from(&self, a: usize) -> (r: Vec<String>)
        requires a <= self.vsv().len(),
        ensures vx_strs(r@) == self.vsv().skip(a as int);
    fn vx_to_vec(self) -> (r: Self) where Self: Sized
        ensures r == self;
}
impl VxVecSlice for Vec<String> {
    open spec fn vsv(&self) -> Seq<Seq<char>> { vx_strs(self@) }
    #[verifier::external_body]
    fn vx_slice_from(&self, a: usize) -> (r: Vec<String>) { self[a..].to_vec() }
    fn vx_to_vec(self) -> (r: Self) { self }
}
pub trait VxOrDefault: Sized {
    type D;
    spec fn or_default_spec(&self, r: Self::D) -> bool;
    fn vx_unwrap_or_default(self) -> (r: Self::D)
        ensures self.or_default_spec(r);
}
impl VxOrDefault for Option<String> {
    type D = String;
    open spec fn or_default_spec(&self, r: String) -> bool { r@ == match self { Some(s) => s@, None => Seq::empty() } }
    fn vx_unwrap_or_default(self) -> (r: String) { match self { Some(s) => s, None => { let e = String::new(); proof { assert(e@ =~= Seq::<char>::empty()); } e } } }
}
} // verus!
