verus! {
// ---------------------------------------------------------------------
// More of std on texts, as used by the PO parser

pub open spec fn is_aws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\u{c}' || c == '\r'
}
/// length of the first token
pub open spec fn awpos(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if is_aws(s[0]) { 0 } else { 1 + awpos(s.skip(1)) }
}
pub open spec fn wpos(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if is_ws(s[0]) { 0 } else { 1 + wpos(s.skip(1)) }
}
pub proof fn lemma_awpos(s: Seq<char>)
    ensures
        0 <= awpos(s) <= s.len(),
        forall|i: int| 0 <= i < awpos(s) ==> !is_aws(#[trigger] s[i]),
        awpos(s) < s.len() ==> is_aws(s[awpos(s)]),
        s.len() > 0 && !is_aws(s[0]) ==> awpos(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 && !is_aws(s[0]) {
        lemma_awpos(s.skip(1));
        assert forall|i: int| 0 <= i < awpos(s) implies !is_aws(#[trigger] s[i]) by {
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
    }
}
pub proof fn lemma_wpos(s: Seq<char>)
    ensures
        0 <= wpos(s) <= s.len(),
        forall|i: int| 0 <= i < wpos(s) ==> !is_ws(#[trigger] s[i]),
        wpos(s) < s.len() ==> is_ws(s[wpos(s)]),
        s.len() > 0 && !is_ws(s[0]) ==> wpos(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 && !is_ws(s[0]) {
        lemma_wpos(s.skip(1));
        assert forall|i: int| 0 <= i < wpos(s) implies !is_ws(#[trigger] s[i]) by {
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
    }
}
/// str::split_ascii_whitespace
pub open spec fn atoks(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via atoks_decreases
{
    if s.len() == 0 { Seq::empty() }
    else if is_aws(s[0]) { atoks(s.skip(1)) }
    else { seq![s.take(awpos(s))] + atoks(s.skip(awpos(s))) }
}
#[via_fn]
proof fn atoks_decreases(s: Seq<char>) {
    lemma_awpos(s);
}
/// str::split_whitespace
pub open spec fn wtoks(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via wtoks_decreases
{
    if s.len() == 0 { Seq::empty() }
    else if is_ws(s[0]) { wtoks(s.skip(1)) }
    else { seq![s.take(wpos(s))] + wtoks(s.skip(wpos(s))) }
}
#[via_fn]
proof fn wtoks_decreases(s: Seq<char>) {
    lemma_wpos(s);
}
/// str::trim_start_matches of a character
pub open spec fn lstrip(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && s[0] == c { lstrip(s.skip(1), c) } else { s }
}
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}
/// position of the first `p`, the length if there is none
pub open spec fn spos(s: Seq<char>, p: Seq<char>) -> int
    decreases s.len()
{
    if has_prefix(s, p) { 0 } else if s.len() == 0 { 0 } else { 1 + spos(s.skip(1), p) }
}
pub open spec fn split_once(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let k = spos(s, p);
    if p.len() > 0 && k < s.len() { Some((s.take(k), s.skip(k + p.len()))) } else { None }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// number with these decimal digits
pub open spec fn dec_val(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat }
}
pub open spec fn unplus(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
/// str::parse::<usize>
pub open spec fn parse_usize(s: Seq<char>) -> Option<nat> {
    let d = unplus(s);
    if d.len() > 0 && all_digits(d) && dec_val(d) <= usize::MAX { Some(dec_val(d)) } else { None }
}

pub struct VxParseIntError {}
pub trait VxPText {
    spec fn pv(&self) -> Seq<char>;
    fn vx_split_ascii_whitespace(&self) -> (r: Vec<&str>)
        ensures vx_strrefs(r@) == atoks(self.pv());
    fn vx_split_whitespace(&self) -> (r: Vec<&str>)
        ensures vx_strrefs(r@) == wtoks(self.pv());
    fn vx_trim_start_matches(&self, c: char) -> (r: &str)
        ensures r@ == lstrip(self.pv(), c);
    fn vx_starts_with_char(&self, c: char) -> (r: bool)
        ensures r == (self.pv().len() > 0 && self.pv()[0] == c);
    fn vx_starts_with_str(&self, c: &str) -> (r: bool)
        ensures r == has_prefix(self.pv(), c@);
    fn vx_find_char(&self, c: char) -> (r: Option<usize>)
        ensures
            r is Some == self.pv().contains(c),
            r is Some ==> r->0 == blen(self.pv().take(cpos(self.pv(), c)));
    fn vx_split_once_char(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is Some == self.pv().contains(c),
            r is Some ==> (r->0).0@ == self.pv().take(cpos(self.pv(), c)) && (r->0).1@ == self.pv().skip(cpos(self.pv(), c) + 1);
    fn vx_split_once_str(&self, c: &str) -> (r: Option<(&str, &str)>)
        ensures
            match split_once(self.pv(), c@) { Some((a, b)) => r is Some && (r->0).0@ == a && (r->0).1@ == b, None => r is None };
    fn vx_parse_usize(&self) -> (r: core::result::Result<usize, VxParseIntError>)
        ensures match parse_usize(self.pv()) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err };
    fn vx_char_count(&self) -> (r: usize)
        ensures r == self.pv().len();
    fn vx_chars(&self) -> (r: VxChars)
        ensures r.all() == self.pv();
}
#[verifier::external_body]
pub struct VxChars { v: Vec<char> }
impl VxChars {
    pub uninterp spec fn all(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<char>)
        ensures r == (if self.all().len() > 0 { Some(self.all().last()) } else { None }),
    { self.v.last().copied() }
}
impl VxPText for str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_split_ascii_whitespace(&self) -> (r: Vec<&str>) { self.split_ascii_whitespace().collect() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: Vec<&str>) { self.split_whitespace().collect() }
    #[verifier::external_body]
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body]
    fn vx_starts_with_char(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vx_starts_with_str(&self, c: &str) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vx_find_char(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body]
    fn vx_split_once_char(&self, c: char) -> (r: Option<(&str, &str)>) { self.split_once(c) }
    #[verifier::external_body]
    fn vx_split_once_str(&self, c: &str) -> (r: Option<(&str, &str)>) { self.split_once(c) }
    #[verifier::external_body]
    fn vx_parse_usize(&self) -> (r: core::result::Result<usize, VxParseIntError>) { self.parse::<usize>().map_err(|_| VxParseIntError {}) }
    #[verifier::external_body]
    fn vx_char_count(&self) -> (r: usize) { self.chars().count() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxChars) { VxChars { v: self.chars().collect() } }
}
pub trait VxDigit {
    fn vx_is_ascii_digit(&self) -> (r: bool);
}
impl VxDigit for char {
    fn vx_is_ascii_digit(&self) -> (r: bool)
        ensures r == is_digit(*self),
    { '0' <= *self && *self <= '9' }
}
pub trait VxVec: Sized {
    type T;
    spec fn vv(&self) -> Seq<Self::T>;
    fn vx_next(self) -> (r: Option<Self::T>)
        ensures r == (if self.vv().len() > 0 { Some(self.vv()[0]) } else { None });
}
impl<'a> VxVec for Vec<&'a str> {
    type T = &'a str;
    open spec fn vv(&self) -> Seq<&'a str> { self@ }
    fn vx_next(self) -> (r: Option<&'a str>) {
        if self.len() > 0 { Some(self[0]) } else { None }
    }
}
impl<'a> VxStrs<'a> {
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<&'a str>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && r->0@ == self@.last(),
    { self.v.back().copied() }
}
impl<'a> VxEq<char> for char {
    open spec fn eq_sv(&self, o: &char) -> bool { *self == *o }
    fn vx_eq_(&self, o: &char) -> (r: bool) { *self == *o }
}

// ---------------------------------------------------------------------
// Slices of texts that begin with ASCII characters

pub open spec fn ascii_to(s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) as u32 <= 127
}
pub proof fn lemma_ascii_at(s: Seq<char>, k: int)
    requires ascii_to(s, k),
    ensures at_byte(s, k, k), is_cb(s, k), cidx(s, k) == k, blen(s.take(k)) == k, k <= blen(s),
    decreases k,
{
    if k == 0 {
        assert(s.take(0) =~= Seq::<char>::empty());
    } else {
        assert(ascii_to(s, k - 1));
        lemma_ascii_at(s, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        assert(s.take(k).last() == s[k - 1]);
    }
    lemma_cidx(s, k, k);
    lemma_blen_mono(s, k, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
/// the last character is an ASCII one
pub proof fn lemma_ascii_last(s: Seq<char>)
    requires s.len() > 0, s.last() as u32 <= 127,
    ensures is_cb(s, blen(s) - 1), cidx(s, blen(s) - 1) == s.len() - 1, blen(s) >= s.len(),
{
    assert(s.drop_last() =~= s.take(s.len() - 1));
    assert(at_byte(s, blen(s) - 1, s.len() - 1));
    lemma_cidx(s, blen(s) - 1, s.len() - 1);
    lemma_blen_mono(s, 0, s.len() as int);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
}
/// the end of a text that begins with ASCII characters
pub proof fn lemma_prefix_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_cb(s, blen(s.take(k)) as int), cidx(s, blen(s.take(k)) as int) == k,
{
    assert(at_byte(s, blen(s.take(k)) as int, k));
    lemma_cidx(s, blen(s.take(k)) as int, k);
}
pub proof fn lemma_trim_len(s: Seq<char>)
    ensures trim_start(s).len() <= s.len(), trim_end(s).len() <= s.len(),
        trim_start(s).len() > 0 ==> !is_ws(trim_start(s)[0]),
        trim_end(s).len() > 0 ==> !is_ws(trim_end(s).last()) && trim_end(s)[0] == s[0],
        trim_end(s) == s.take(trim_end(s).len() as int),
        trim_start(s) == s.skip(s.len() - trim_start(s).len()),
    decreases s.len(),
{
    if s.len() > 0 && is_ws(s[0]) {
        let t = s.skip(1);
        lemma_trim_len(t);
        assert(t.skip(t.len() - trim_start(t).len()) =~= s.skip(s.len() - trim_start(t).len()));
    } else {
        assert(s.skip(0) =~= s);
    }
    if s.len() > 0 && is_ws(s.last()) {
        let t = s.drop_last();
        lemma_trim_len(t);
        assert(t.take(trim_end(t).len() as int) =~= s.take(trim_end(t).len() as int));
    } else {
        assert(s.take(s.len() as int) =~= s);
    }
}
/// the first and last characters are no whitespace after trimming
pub proof fn lemma_trim(s: Seq<char>)
    ensures trim(s).len() > 0 ==> !is_ws(trim(s)[0]) && !is_ws(trim(s).last()), trim(s).len() <= s.len(),
{
    lemma_trim_len(s);
    lemma_trim_len(trim_start(s));
}
/// leading whitespace is dropped up to the first other character
pub proof fn lemma_trim_start_at(s: Seq<char>, j: int)
    requires 0 <= j < s.len(), forall|i: int| 0 <= i < j ==> is_ws(#[trigger] s[i]), !is_ws(s[j]),
    ensures trim_start(s) == s.skip(j),
    decreases j,
{
    if j > 0 {
        let t = s.skip(1);
        assert(is_ws(s[0]));
        assert forall|i: int| 0 <= i < j - 1 implies is_ws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        assert(t[j - 1] == s[j]);
        lemma_trim_start_at(t, j - 1);
        assert(t.skip(j - 1) =~= s.skip(j));
    } else {
        assert(s.skip(0) =~= s);
    }
}
/// the first token: after whitespace, without whitespace, not empty
pub proof fn lemma_atoks_first(s: Seq<char>) -> (j: int)
    requires atoks(s).len() > 0,
    ensures
        0 <= j < s.len(), forall|i: int| 0 <= i < j ==> is_aws(#[trigger] s[i]), !is_aws(s[j]),
        atoks(s)[0] == s.subrange(j, j + awpos(s.skip(j))),
        0 < awpos(s.skip(j)) <= s.len() - j,
        atoks(s).skip(1) == atoks(s.skip(j + awpos(s.skip(j)))),
    decreases s.len(),
{
    lemma_awpos(s);
    if is_aws(s[0]) {
        let t = s.skip(1);
        let k = lemma_atoks_first(t);
        assert forall|i: int| 0 <= i < k + 1 implies is_aws(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        assert(t[k] == s[k + 1]);
        assert(t.skip(k) =~= s.skip(k + 1));
        let n = awpos(t.skip(k));
        assert(t.subrange(k, k + n) =~= s.subrange(k + 1, k + 1 + n));
        assert(t.skip(k + n) =~= s.skip(k + 1 + n));
        k + 1
    } else {
        assert(s.skip(0) =~= s);
        let n = awpos(s);
        assert(s.take(n) =~= s.subrange(0, n));
        assert(atoks(s).skip(1) =~= atoks(s.skip(n)));
        0
    }
}
/// a text that does not begin with whitespace begins with its first token
pub proof fn lemma_atoks_head(s: Seq<char>)
    requires s.len() > 0, !is_aws(s[0]),
    ensures
        atoks(s).len() > 0, atoks(s)[0] == s.take(awpos(s)), 0 < awpos(s) <= s.len(),
        atoks(s).skip(1) == atoks(s.skip(awpos(s))),
        atoks(s).len() > 1 ==> awpos(s) < s.len() && is_aws(s[awpos(s)]),
        atoks(s)[0].len() == awpos(s),
{
    lemma_awpos(s);
    let n = awpos(s);
    assert(atoks(s).skip(1) =~= atoks(s.skip(n)));
    if n == s.len() { assert(s.skip(n).len() == 0); }
}
} // verus!
