verus! {
// ---------------------------------------------------------------------
// Messages and files as mathematical values. The `...V` types are generated
// from the structs of /repo; the functions here give the values of the
// container types of their fields.

pub open spec fn vx_opt(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
/// a missing text counts as the empty text
pub open spec fn otext(o: Option<Seq<char>>) -> Seq<char> {
    match o { Some(s) => s, None => Seq::empty() }
}
pub open spec fn vx_strs(s: Seq<String>) -> Seq<Seq<char>> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_strrefs(s: Seq<&str>) -> Seq<Seq<char>> {
    Seq::new(s.len(), |i: int| s[i]@)
}
pub open spec fn vx_pairs(s: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> {
    Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@))
}
pub open spec fn vx_optbytes(o: Option<Vec<u8>>) -> Option<Seq<u8>> {
    match o { Some(s) => Some(s@), None => None }
}

/// the items of `s` that satisfy `f`, in order
pub open spec fn keep<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if f(s.last()) { keep(s.drop_last(), f).push(s.last()) }
    else { keep(s.drop_last(), f) }
}
pub proof fn lemma_keep_step<T>(s: Seq<T>, k: int, f: spec_fn(T) -> bool)
    requires 0 <= k < s.len(),
    ensures
        keep(s.take(k + 1), f) == (if f(s[k]) { keep(s.take(k), f).push(s[k]) } else { keep(s.take(k), f) }),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
pub proof fn lemma_keep_all<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures keep(s.take(s.len() as int), f) == keep(s, f), keep(s.take(0), f) == Seq::<T>::empty(),
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<T>::empty());
}
/// what `keep` is: exactly the items that satisfy `f`, none twice, in order
pub proof fn lemma_keep_meaning<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures
        forall|i: int| 0 <= i < keep(s, f).len() ==> f(#[trigger] keep(s, f)[i]) && s.contains(keep(s, f)[i]),
        forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) ==> keep(s, f).contains(s[i]),
        keep(s, f).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_keep_meaning(d, f);
        assert forall|i: int| 0 <= i < keep(s, f).len() implies f(#[trigger] keep(s, f)[i]) && s.contains(keep(s, f)[i]) by {
            if i < keep(d, f).len() {
                let x = keep(d, f)[i];
                assert(d.contains(x));
                let j = choose|j: int| 0 <= j < d.len() && d[j] == x;
                assert(s[j] == x);
            } else {
                assert(s[s.len() - 1] == s.last());
            }
        }
        assert forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) implies keep(s, f).contains(s[i]) by {
            if i < d.len() {
                assert(d[i] == s[i]);
                let j = choose|j: int| 0 <= j < keep(d, f).len() && keep(d, f)[j] == s[i];
                assert(keep(s, f)[j] == s[i]);
            } else {
                assert(keep(s, f)[keep(s, f).len() - 1] == s[i]);
            }
        }
    }
}
/// complementary selections: together they have every item exactly once
pub proof fn lemma_keep_complement<T>(s: Seq<T>, f: spec_fn(T) -> bool, g: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i]) == !f(s[i]),
    ensures keep(s, f).len() + keep(s, g).len() == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies g(#[trigger] d[i]) == !f(d[i]) by { assert(d[i] == s[i]); }
        assert(s[s.len() - 1] == s.last());
        lemma_keep_complement(d, f, g);
    }
}
/// the first item that satisfies `f`
pub open spec fn first<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Option<T>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if f(s[0]) { Some(s[0]) }
    else { first(s.skip(1), f) }
}
pub proof fn lemma_first_at<T>(s: Seq<T>, k: int, f: spec_fn(T) -> bool)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !f(#[trigger] s[i]),
    ensures
        k == s.len() ==> first(s, f) is None,
        k < s.len() && f(s[k]) ==> first(s, f) == Some(s[k]),
    decreases k,
{
    if k > 0 {
        assert(!f(s[0]));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies !f(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        if k < s.len() { assert(t[k - 1] == s[k]); }
        lemma_first_at(t, k - 1, f);
    }
}

// ---------------------------------------------------------------------
// Trusted contracts of std operations

pub trait VxEq<R: ?Sized> {
    spec fn eq_sv(&self, o: &R) -> bool;
    fn vx_eq_(&self, o: &R) -> (r: bool)
        ensures r == self.eq_sv(o);
}
pub fn vx_eq<A: ?Sized + VxEq<B>, B: ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == a.eq_sv(b),
{ a.vx_eq_(b) }
impl VxEq<str> for str {
    open spec fn eq_sv(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &str) -> (r: bool) { self == o }
}
impl VxEq<str> for String {
    open spec fn eq_sv(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &str) -> (r: bool) { self == o }
}
impl VxEq<String> for String {
    open spec fn eq_sv(&self, o: &String) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &String) -> (r: bool) { self == o }
}
impl<'a> VxEq<&'a str> for String {
    open spec fn eq_sv(&self, o: &&'a str) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &&'a str) -> (r: bool) { self == o }
}
impl VxEq<Option<String>> for Option<String> {
    open spec fn eq_sv(&self, o: &Option<String>) -> bool { vx_opt(*self) == vx_opt(*o) }
    #[verifier::external_body]
    fn vx_eq_(&self, o: &Option<String>) -> (r: bool) { self == o }
}
impl VxEq<bool> for bool {
    open spec fn eq_sv(&self, o: &bool) -> bool { *self == *o }
    fn vx_eq_(&self, o: &bool) -> (r: bool) { *self == *o }
}
impl VxEq<usize> for usize {
    open spec fn eq_sv(&self, o: &usize) -> bool { *self == *o }
    fn vx_eq_(&self, o: &usize) -> (r: bool) { *self == *o }
}
impl<'a, 'b, A: ?Sized + VxEq<B>, B: ?Sized> VxEq<&'b B> for &'a A {
    open spec fn eq_sv(&self, o: &&'b B) -> bool { (**self).eq_sv(*o) }
    fn vx_eq_(&self, o: &&'b B) -> (r: bool) { (**self).vx_eq_(*o) }
}

pub trait VxContains<T> {
    spec fn contains_spec(&self, t: T) -> bool;
    fn vx_contains(&self, t: T) -> (r: bool)
        ensures r == self.contains_spec(t);
}
impl<'a> VxContains<&'a String> for Vec<String> {
    open spec fn contains_spec(&self, t: &'a String) -> bool { vx_strs(self@).contains(t@) }
    #[verifier::external_body]
    fn vx_contains(&self, t: &'a String) -> (r: bool) { self.contains(t) }
}

pub trait VxFrom<T>: Sized { fn vx_from(t: T) -> Self; }

/// HashMap<String, String>; only the values of the map are specified, the
/// order of iteration is arbitrary
#[verifier::external_body]
pub struct VxMap { m: std::collections::HashMap<String, String> }
pub uninterp spec fn vx_map(m: VxMap) -> Map<Seq<char>, Seq<char>>;
impl VxMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures vx_map(r) == Map::<Seq<char>, Seq<char>>::empty() { VxMap { m: Default::default() } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures vx_map(*final(self)) == vx_map(*old(self)).insert(k@, v@),
    { self.m.insert(k, v) }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<String>)
        ensures
            vx_map(*final(self)) == vx_map(*old(self)).remove(k@),
            r is Some == vx_map(*old(self)).contains_key(k@),
            r is Some ==> r->0@ == vx_map(*old(self))[k@],
    { self.m.remove(k) }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == vx_map(*self).contains_key(k@) { self.m.contains_key(k) }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&String>)
        ensures
            r is Some == vx_map(*self).contains_key(k@),
            r is Some ==> r->0@ == vx_map(*self)[k@],
    { self.m.get(k) }
    /// the keys, in an order that is not known
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&String>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> vx_map(*self).contains_key((#[trigger] r@[i])@),
            forall|k: Seq<char>| #[trigger] vx_map(*self).contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@,
    { self.m.keys().collect() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (vx_map(*self) == Map::<Seq<char>, Seq<char>>::empty()) { self.m.is_empty() }
}
impl Clone for VxMap {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures vx_map(r) == vx_map(*self) { VxMap { m: self.m.clone() } }
}
} // verus!
