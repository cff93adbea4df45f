// The files of the Python bindings (C20)
verus! {
//@@ struct python/src/pypofile.rs PyPOFile
impl View for PyPOFile { type V = POFileV; open spec fn view(&self) -> POFileV { self.0@ } }
pub open spec fn vx_pypos(s: Seq<PyPOEntry>) -> Seq<POEntryV> {
    Seq::new(s.len(), |i: int| s[i]@)
}
impl MOFile {
    pub fn vx_as_bytes(&self) -> (r: Vec<u8>)
        requires mo_fits(self@),
        ensures is_mo_bytes(self@, false, 0, r@),
    { self.as_bytes() }
}
pub trait VxToVec: Sized {
    fn vx_to_vec(self) -> (r: Self) ensures r == self;
}
impl VxToVec for Vec<u8> { fn vx_to_vec(self) -> (r: Self) { self } }
/// a and b are the texts of two files
pub open spec fn texts_of(x: POFileV, y: POFileV, a: Seq<char>, b: Seq<char>) -> bool { is_file_text(x, a) && is_file_text(y, b) }
pub proof fn lemma_texts(x: POFileV, y: POFileV)
    ensures forall|a: Seq<char>, b: Seq<char>| #![trigger is_file_text(x, a), is_file_text(y, b)] is_file_text(x, a) && is_file_text(y, b) ==> texts_of(x, y, a, b),
{}
/// the pairs of a map, in an order that is not known
pub open spec fn vx_pairs_of(s: Seq<(String, String)>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
}
impl VxMap {
    #[verifier::external_body]
    pub fn vx_into_pairs(self) -> (r: Vec<(String, String)>)
        ensures vx_pairs_of(r@, vx_map(self)),
    { self.m.into_iter().collect() }
}
pub open spec fn put_pairs(m: Map<Seq<char>, Seq<char>>, s: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { m } else { put_pairs(m, s.drop_last()).insert(s.last().0, s.last().1) }
}
pub proof fn lemma_put_step(m: Map<Seq<char>, Seq<char>>, s: Seq<(Seq<char>, Seq<char>)>, n: int)
    requires 0 <= n < s.len(),
    ensures put_pairs(m, s.take(n + 1)) == put_pairs(m, s.take(n)).insert(s[n].0, s[n].1),
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
pub open spec fn has_key(s: Seq<(String, String)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0@ == k }
/// every pair of a map put into another one
pub proof fn lemma_put(m: Map<Seq<char>, Seq<char>>, s: Seq<(String, String)>, w: Map<Seq<char>, Seq<char>>, n: int)
    requires vx_pairs_of(s, w), 0 <= n <= s.len(),
    ensures ({
        let r = put_pairs(m, vx_pairs(s).take(n));
        &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) <==> m.contains_key(k) || has_key(s, n, k)
        &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) ==> r[k] == (if has_key(s, n, k) { w[k] } else { m[k] })
    }),
    decreases n,
{
    if n > 0 {
        lemma_put(m, s, w, n - 1);
        lemma_put_step(m, vx_pairs(s), n - 1);
        assert(vx_pairs(s)[n - 1] == (s[n - 1].0@, s[n - 1].1@));
        assert forall|k: Seq<char>| #[trigger] has_key(s, n, k) <==> s[n - 1].0@ == k || has_key(s, n - 1, k) by {
            if has_key(s, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0@ == k; assert(s[i].0@ == k); }
            if has_key(s, n - 1, k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0@ == k; assert(s[i].0@ == k); }
        }
    }
}
pub proof fn lemma_put_all(m: Map<Seq<char>, Seq<char>>, s: Seq<(String, String)>, w: Map<Seq<char>, Seq<char>>)
    requires vx_pairs_of(s, w),
    ensures put_pairs(m, vx_pairs(s)) == m.union_prefer_right(w),
{
    lemma_put(m, s, w, s.len() as int);
    assert(vx_pairs(s).take(s.len() as int) =~= vx_pairs(s));
    assert(put_pairs(m, vx_pairs(s)) =~= m.union_prefer_right(w));
}
} // verus!
