verus! {
// ---------------------------------------------------------------------
// Splitting and trimming of texts, with the trusted contracts of the std
// operations

/// position of the first `c`, the length if there is none
pub open spec fn cpos(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + cpos(s.skip(1), c) }
}
pub proof fn lemma_cpos(s: Seq<char>, c: char)
    ensures
        0 <= cpos(s, c) <= s.len(),
        cpos(s, c) < s.len() ==> s[cpos(s, c)] == c,
        forall|i: int| 0 <= i < cpos(s, c) ==> s[i] != c,
        (cpos(s, c) < s.len()) == s.contains(c),
    decreases s.len(),
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        lemma_cpos(t, c);
        assert forall|i: int| 0 <= i < cpos(s, c) implies s[i] != c by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if s.contains(c) {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == c;
            assert(t[j - 1] == c);
        }
    } else if s.len() > 0 {
        assert(s[0] == c);
    }
}
/// the position is determined by these two facts
pub proof fn lemma_cpos_is(s: Seq<char>, c: char, k: int)
    requires
        0 <= k <= s.len(),
        k < s.len() ==> s[k] == c,
        forall|i: int| 0 <= i < k ==> s[i] != c,
    ensures cpos(s, c) == k,
{
    lemma_cpos(s, c);
}
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len() via split_decreases
{
    let k = cpos(s, c);
    if k >= s.len() { seq![s] } else { seq![s.take(k)] + split(s.skip(k + 1), c) }
}
#[via_fn]
proof fn split_decreases(s: Seq<char>, c: char) {
    lemma_cpos(s, c);
}
pub open spec fn splitn2(s: Seq<char>, c: char) -> Seq<Seq<char>> {
    let k = cpos(s, c);
    if k >= s.len() { seq![s] } else { seq![s.take(k), s.skip(k + 1)] }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures split(s, c).len() >= 1, s.contains(c) ==> split(s, c).len() >= 2,
    decreases s.len(),
{
    lemma_cpos(s, c);
    if cpos(s, c) < s.len() { lemma_split_len(s.skip(cpos(s, c) + 1), c); }
}
/// texts without the separator, joined with it
pub open spec fn join(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() }
    else if p.len() == 1 { p[0] }
    else { p[0] + sep + join(p.skip(1), sep) }
}
pub proof fn lemma_split_join(p: Seq<Seq<char>>, c: char)
    requires p.len() > 0, forall|i: int| 0 <= i < p.len() ==> !(#[trigger] p[i]).contains(c),
    ensures split(join(p, seq![c]), c) == p,
    decreases p.len(),
{
    let s = join(p, seq![c]);
    let a = p[0];
    if p.len() == 1 {
        assert(!p[0].contains(c));
        lemma_cpos(s, c);
        assert(split(s, c) =~= p);
    } else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i]).contains(c) by { assert(q[i] == p[i + 1]); }
        lemma_split_join(q, c);
        assert(s == a + seq![c] + join(q, seq![c]));
        assert(s[a.len() as int] == c);
        assert forall|i: int| 0 <= i < a.len() implies s[i] != c by {
            assert(s[i] == a[i]);
            assert(!p[0].contains(c));
        }
        lemma_cpos_is(s, c, a.len() as int);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= join(q, seq![c]));
        assert(split(s, c) =~= p);
    }
}

/// char::is_whitespace
pub open spec fn is_ws(c: char) -> bool {
    ('\u{9}' <= c && c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}'
        || ('\u{2000}' <= c && c <= '\u{200a}') || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}'
        || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) { trim_start(s.skip(1)) } else { s }
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> {
    trim_end(trim_start(s))
}

pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trim(self.tv());
    fn vx_trim_start(&self) -> (r: &str)
        ensures r@ == trim_start(self.tv());
    fn vx_trim_end(&self) -> (r: &str)
        ensures r@ == trim_end(self.tv());
    fn vx_split_char(&self, c: char) -> (r: Vec<&str>)
        ensures vx_strrefs(r@) == split(self.tv(), c);
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxStrs<'_>)
        requires n == 2,
        ensures r@ == splitn2(self.tv(), c);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body]
    fn vx_split_char(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
    #[verifier::external_body]
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxStrs<'_>) { VxStrs { v: self.splitn(n, c).collect() } }
}
/// an iterator over texts, seen as the texts that are left
#[verifier::external_body]
pub struct VxStrs<'a> { v: std::collections::VecDeque<&'a str> }
impl<'a> View for VxStrs<'a> {
    type V = Seq<Seq<char>>;
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
}
impl<'a> VxStrs<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { self.v.pop_front() }
}
pub trait VxCollect: Sized {
    spec fn collected(self) -> Self;
    fn vx_collect(self) -> (r: Self) ensures r == self;
}
impl<'a> VxCollect for Vec<&'a String> {
    open spec fn collected(self) -> Self { self }
    fn vx_collect(self) -> (r: Self) { self }
}
pub trait VxJoin {
    spec fn jv(&self) -> Seq<Seq<char>>;
    fn vx_join(&self, sep: &str) -> (r: String)
        ensures r@ == join(self.jv(), sep@);
}
impl VxJoin for Vec<String> {
    open spec fn jv(&self) -> Seq<Seq<char>> { vx_strs(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
impl<'a> VxCollect for Vec<&'a str> {
    open spec fn collected(self) -> Self { self }
    fn vx_collect(self) -> (r: Self) { self }
}
} // verus!
