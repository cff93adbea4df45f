verus! {
// ---------------------------------------------------------------------
// Slices of texts

pub proof fn lemma_at_byte(s: Seq<char>, b: int)
    requires is_cb(s, b),
    ensures at_byte(s, b, cidx(s, b)), 0 <= cidx(s, b) <= s.len(), 0 <= b <= blen(s),
{
    let k = cidx(s, b);
    lemma_blen_mono(s, k, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_cb_order(s: Seq<char>, a: int, b: int)
    requires is_cb(s, a), is_cb(s, b), a <= b,
    ensures cidx(s, a) <= cidx(s, b), a < b ==> cidx(s, a) < cidx(s, b),
{
    lemma_at_byte(s, a);
    lemma_at_byte(s, b);
    if cidx(s, b) < cidx(s, a) { lemma_blen_mono(s, cidx(s, b), cidx(s, a)); }
}
pub proof fn lemma_cb_ends(s: Seq<char>)
    ensures is_cb(s, 0), cidx(s, 0) == 0, is_cb(s, blen(s) as int), cidx(s, blen(s) as int) == s.len(),
{
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(at_byte(s, 0, 0));
    lemma_cidx(s, 0, 0);
    assert(s.take(s.len() as int) =~= s);
    assert(at_byte(s, blen(s) as int, s.len() as int));
    lemma_cidx(s, blen(s) as int, s.len() as int);
}

/// trusted: slicing at byte offsets, it panics if they are out of order, out
/// of bounds or inside of a character
pub trait VxSlice {
    spec fn slv(&self) -> Seq<char>;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str)
        requires is_cb(self.slv(), a as int), is_cb(self.slv(), b as int), a <= b,
        ensures r@ == self.slv().subrange(cidx(self.slv(), a as int), cidx(self.slv(), b as int));
    fn vx_slice_from(&self, a: usize) -> (r: &str)
        requires is_cb(self.slv(), a as int),
        ensures r@ == self.slv().skip(cidx(self.slv(), a as int));
}
impl VxSlice for str {
    open spec fn slv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
/// trusted: a text has at most isize::MAX bytes
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] blen(s@) <= isize::MAX;
pub broadcast axiom fn axiom_string_len(s: String)
    ensures #[trigger] blen(s@) <= isize::MAX;

} // verus!
