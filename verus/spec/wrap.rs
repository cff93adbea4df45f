verus! {
// ---------------------------------------------------------------------
// Widths, line breaks

/// width of a character, 0 for control characters
pub uninterp spec fn cw_opt(c: char) -> Option<usize>;
pub open spec fn cw(c: char) -> nat {
    match cw_opt(c) { Some(n) => n as nat, None => 0 }
}
/// trusted, checked for every character by the oracle: no character is wider
/// than its number of bytes
pub broadcast axiom fn axiom_cw(c: char)
    ensures #[trigger] cw_opt(c) is Some ==> cw_opt(c)->0 <= clen(c);
#[verifier::external_body]
pub fn vx_char_width(c: char) -> (r: Option<usize>) ensures r == cw_opt(c) { unimplemented!() }
pub open spec fn cw_sum(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { cw_sum(s.drop_last()) + cw(s.last()) }
}
/// width of a text
pub uninterp spec fn tw(s: Seq<char>) -> nat;
pub trait VxWidth {
    spec fn wv(&self) -> Seq<char>;
    /// trusted: the width of a text is at most its number of bytes
    fn vx_width(&self) -> (r: usize)
        ensures r == tw(self.wv()), r <= blen(self.wv()), blen(self.wv()) <= isize::MAX;
}
impl VxWidth for str {
    open spec fn wv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_width(&self) -> (r: usize) { unimplemented!() }
}

/// byte offsets of the line break opportunities of a text (unicode-linebreak)
pub uninterp spec fn breaks(s: Seq<char>) -> Seq<int>;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxBreakOpportunity {}
/// trusted: the opportunities are ordered, between characters, and the last
/// one is the end of the text
pub open spec fn are_breaks(s: Seq<char>, b: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> is_cb(s, #[trigger] b[i])
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] < #[trigger] b[j]
    &&& b.len() > 0 ==> b.last() == blen(s)
}
pub open spec fn lb_pos(v: Seq<(usize, VxBreakOpportunity)>) -> Seq<int> {
    Seq::new(v.len(), |i: int| v[i].0 as int)
}
#[verifier::external_body]
pub fn unicode_linebreaks(s: &str) -> (r: Vec<(usize, VxBreakOpportunity)>)
    ensures lb_pos(r@) == breaks(s@), are_breaks(s@, breaks(s@)),
{ unimplemented!() }
impl VxCollect for Vec<(usize, VxBreakOpportunity)> {
    open spec fn collected(self) -> Self { self }
    fn vx_collect(self) -> (r: Self) { self }
}
pub trait VxCharIndices {
    spec fn civ(&self) -> Seq<char>;
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>)
        ensures
            r@.len() == self.civ().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == blen(self.civ().take(i)) && r@[i].1 == self.civ()[i];
}
impl VxCharIndices for str {
    open spec fn civ(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>) { self.char_indices().collect() }
}
/// HashMap<usize, usize>
#[verifier::external_body]
pub struct VxUMap { m: std::collections::HashMap<usize, usize> }
impl View for VxUMap {
    type V = Map<usize, usize>;
    uninterp spec fn view(&self) -> Map<usize, usize>;
}
impl VxUMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, usize>::empty() { VxUMap { m: Default::default() } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { self.m.insert(k, v) }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&usize>)
        ensures r is Some == self@.contains_key(*k), r is Some ==> *r->0 == self@[*k],
    { self.m.get(k) }
}

/// width of the character that starts at a byte offset, 0 if none does
pub open spec fn bw(s: Seq<char>, b: int) -> nat {
    if is_cb(s, b) && cidx(s, b) < s.len() { cw(s[cidx(s, b)]) } else { 0 }
}
/// widths of the characters that start in a range of bytes
pub open spec fn bsum(s: Seq<char>, a: int, b: int) -> nat
    decreases b - a
{
    if a >= b { 0 } else { bsum(s, a, b - 1) + bw(s, b - 1) }
}
pub proof fn lemma_bsum_split(s: Seq<char>, a: int, b: int, c: int)
    requires a <= b <= c,
    ensures bsum(s, a, c) == bsum(s, a, b) + bsum(s, b, c),
    decreases c - b,
{
    if b < c { lemma_bsum_split(s, a, b, c - 1); }
}
/// inside of a character nothing starts
pub proof fn lemma_bsum_inside(s: Seq<char>, k: int, a: int, b: int)
    requires 0 <= k < s.len(), blen(s.take(k)) < a, b <= blen(s.take(k)) + clen(s[k]),
    ensures bsum(s, a, b) == 0,
    decreases b - a,
{
    if a < b {
        lemma_bsum_inside(s, k, a, b - 1);
        let x = b - 1;
        if is_cb(s, x) {
            lemma_at_byte(s, x);
            let j = cidx(s, x);
            assert(s.take(k + 1).drop_last() =~= s.take(k));
            assert(s.take(k + 1).last() == s[k]);
            if j <= k { lemma_blen_mono(s, j, k); } else { lemma_blen_mono(s, k + 1, j); }
        }
    }
}
pub proof fn lemma_take_byte(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_cb(s, blen(s.take(k)) as int), cidx(s, blen(s.take(k)) as int) == k,
        k < s.len() ==> blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
{
    assert(at_byte(s, blen(s.take(k)) as int, k));
    lemma_cidx(s, blen(s.take(k)) as int, k);
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
    }
}
/// one character
pub proof fn lemma_bsum_char(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures bsum(s, blen(s.take(k)) as int, (blen(s.take(k)) + clen(s[k])) as int) == cw(s[k]),
{
    let a = blen(s.take(k)) as int;
    lemma_take_byte(s, k);
    lemma_bsum_inside(s, k, a + 1, a + clen(s[k]));
    lemma_bsum_split(s, a, a + 1, a + clen(s[k]));
    reveal_with_fuel(bsum, 2);
}
/// characters are not wider than their bytes
pub proof fn lemma_bsum_bytes(s: Seq<char>, a: int, k: int)
    requires 0 <= k <= s.len(), 0 <= a <= blen(s.take(k)),
    ensures bsum(s, a, blen(s.take(k)) as int) <= blen(s.take(k)) - a,
    decreases k,
{
    broadcast use axiom_cw;
    if k > 0 {
        let b = blen(s.take(k - 1)) as int;
        lemma_take_byte(s, k - 1);
        lemma_bsum_char(s, k - 1);
        if a <= b {
            lemma_bsum_bytes(s, a, k - 1);
            lemma_bsum_split(s, a, b, blen(s.take(k)) as int);
        } else {
            lemma_bsum_inside(s, k - 1, a, blen(s.take(k)) as int);
        }
    }
}
pub proof fn lemma_bsum_mono(s: Seq<char>, a: int, b: int, c: int)
    requires a <= b <= c,
    ensures bsum(s, a, b) <= bsum(s, a, c), bsum(s, b, c) <= bsum(s, a, c),
{
    lemma_bsum_split(s, a, b, c);
}
/// between characters it is the sum of their widths
pub proof fn lemma_bsum_chars(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= s.len(),
    ensures bsum(s, blen(s.take(j)) as int, blen(s.take(k)) as int) == cw_sum(s.subrange(j, k)),
    decreases k,
{
    if j < k {
        lemma_bsum_chars(s, j, k - 1);
        lemma_bsum_char(s, k - 1);
        lemma_take_byte(s, k - 1);
        lemma_blen_mono(s, j, k - 1);
        lemma_bsum_split(s, blen(s.take(j)) as int, blen(s.take(k - 1)) as int, blen(s.take(k)) as int);
        assert(s.subrange(j, k).drop_last() =~= s.subrange(j, k - 1));
        assert(s.subrange(j, k).last() == s[k - 1]);
    } else {
        assert(s.subrange(j, k) =~= Seq::<char>::empty());
    }
}

/// no opportunity inside, or not too wide (byte offsets)
pub open spec fn bytes_ok(s: Seq<char>, b: Seq<int>, w: int, p: int, q: int) -> bool {
    bsum(s, p, q) <= w || forall|i: int| 0 <= i < b.len() ==> !(p < #[trigger] b[i] < q)
}
/// bounds of the segments: 0, the cuts, the end
pub open spec fn bound(cuts: Seq<usize>, end: int, i: int) -> int {
    if i <= 0 { 0 } else if i <= cuts.len() { cuts[i - 1] as int } else { end }
}
/// the cuts are opportunities in order, and nothing too wide can be cut more
pub open spec fn are_cuts(s: Seq<char>, w: int, cuts: Seq<usize>) -> bool {
    &&& forall|i: int| 0 <= i < cuts.len() ==> breaks(s).contains(#[trigger] cuts[i] as int) && cuts[i] < blen(s)
    &&& forall|i: int, j: int| 0 <= i < j < cuts.len() ==> #[trigger] cuts[i] < #[trigger] cuts[j]
    &&& forall|i: int| 0 <= i <= cuts.len() ==> #[trigger] bytes_ok(s, breaks(s), w, bound(cuts, blen(s) as int, i), bound(cuts, blen(s) as int, i + 1))
}

/// fixes the type of a number
pub open spec fn un(x: usize) -> int { x as int }
/// what the map of the widths gives for a byte
pub open spec fn mapped(m: Map<usize, usize>, b: usize) -> nat {
    if m.contains_key(b) { m[b] as nat } else { 0 }
}
/// bw() over the first k characters
pub open spec fn bw_below(s: Seq<char>, k: int, b: int) -> nat {
    if is_cb(s, b) && cidx(s, b) < k { cw(s[cidx(s, b)]) } else { 0 }
}
pub proof fn lemma_map_step(s: Seq<char>, m: Map<usize, usize>, k: int, x: usize, v: usize)
    requires
        0 <= k < s.len(), x == blen(s.take(k)), v == cw(s[k]),
        forall|b: usize| #[trigger] mapped(m, b) == bw_below(s, k, b as int),
    ensures
        forall|b: usize| #[trigger] mapped(m.insert(x, v), b) == bw_below(s, k + 1, b as int),
{
    lemma_take_byte(s, k);
    assert forall|b: usize| #[trigger] mapped(m.insert(x, v), b) == bw_below(s, k + 1, b as int) by {
        assert(mapped(m, b) == bw_below(s, k, b as int));
        if is_cb(s, b as int) { lemma_at_byte(s, b as int); }
    }
}
pub proof fn lemma_bsum_step(s: Seq<char>, a: int, b: int)
    requires a <= b,
    ensures bsum(s, a, b + 1) == bsum(s, a, b) + bw(s, b), bsum(s, a, a) == 0,
{
}
/// the opportunity before the j-th
pub open spec fn before(b: Seq<int>, j: int) -> int {
    if j <= 0 { 0 } else { b[j - 1] }
}
/// are_cuts() for the cuts chosen before the j-th opportunity
pub open spec fn cuts_to(s: Seq<char>, w: int, cuts: Seq<usize>, j: int) -> bool {
    let n = cuts.len() as int;
    let end = blen(s) as int;
    &&& forall|i: int| 0 <= i < n ==> breaks(s).contains(#[trigger] cuts[i] as int) && cuts[i] < blen(s)
    &&& forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] cuts[a] < #[trigger] cuts[b]
    &&& forall|i: int| 0 <= i < n ==> #[trigger] bytes_ok(s, breaks(s), w, bound(cuts, end, i), bound(cuts, end, i + 1))
    &&& bound(cuts, end, n) <= before(breaks(s), j) && (j <= 0 ==> n == 0)
    &&& bytes_ok(s, breaks(s), w, bound(cuts, end, n), if j < breaks(s).len() { breaks(s)[j] } else { end })
}
pub proof fn lemma_breaks(s: Seq<char>)
    requires are_breaks(s, breaks(s)),
    ensures
        forall|w: int| w >= 0 ==> cuts_to(s, w, Seq::empty(), 0),
        forall|b: usize| #[trigger] mapped(Map::empty(), b) == bw_below(s, 0, b as int),
        bsum(s, bound(Seq::empty(), blen(s) as int, 0), 0) == 0,
{
    assert forall|b: usize| #[trigger] mapped(Map::empty(), b) == bw_below(s, 0, b as int) by {
        if is_cb(s, b as int) { lemma_at_byte(s, b as int); }
    }
    let bs = breaks(s);
    if bs.len() == 0 { } else {
        assert forall|i: int| 0 <= i < bs.len() implies !(0 < #[trigger] bs[i] < bs[0]) by { }
    }
}
pub proof fn lemma_break_step(s: Seq<char>, j: int)
    requires are_breaks(s, breaks(s)), 0 <= j < breaks(s).len(),
    ensures 0 <= before(breaks(s), j) <= breaks(s)[j] <= blen(s), is_cb(s, breaks(s)[j]), j < breaks(s).len() - 1 ==> breaks(s)[j] < blen(s),
{
    lemma_at_byte(s, breaks(s)[j]);
    if j > 0 { lemma_at_byte(s, breaks(s)[j - 1]); }
}
pub proof fn lemma_bsum_cb(s: Seq<char>, a: int, b: int)
    requires is_cb(s, b), 0 <= a <= b,
    ensures bsum(s, a, b) <= b - a,
{
    lemma_at_byte(s, b);
    lemma_bsum_bytes(s, a, cidx(s, b));
}
pub proof fn lemma_cut_step(s: Seq<char>, w: int, cuts0: Seq<usize>, cuts: Seq<usize>, j: int)
    requires
        are_breaks(s, breaks(s)), 0 <= j < breaks(s).len(), cuts_to(s, w, cuts0, j),
        ({
            let p = bound(cuts0, blen(s) as int, cuts0.len() as int);
            if j == breaks(s).len() - 1 { cuts == cuts0 } else {
                ||| cuts == cuts0 && bsum(s, p, breaks(s)[j + 1]) <= w
                ||| cuts == cuts0.push(breaks(s)[j] as usize) && breaks(s)[j] <= usize::MAX
            }
        }),
    ensures cuts_to(s, w, cuts, j + 1),
{
    let bs = breaks(s);
    let end = blen(s) as int;
    lemma_break_step(s, j);
    if cuts != cuts0 {
        let n = cuts0.len() as int;
        assert forall|i: int| 0 <= i <= n implies #[trigger] bytes_ok(s, bs, w, bound(cuts, end, i), bound(cuts, end, i + 1)) by {
            assert(bound(cuts, end, i) == bound(cuts0, end, i));
            if i < n {
                assert(bytes_ok(s, bs, w, bound(cuts0, end, i), bound(cuts0, end, i + 1)));
            }
        }
        assert(bs.contains(bs[j]));
    }
}
pub proof fn lemma_cuts_end(s: Seq<char>, w: int, cuts: Seq<usize>)
    requires are_breaks(s, breaks(s)), cuts_to(s, w, cuts, breaks(s).len() as int),
    ensures are_cuts(s, w, cuts),
{
}

/// the texts one after another
pub open spec fn concat(p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { concat(p.drop_last()) + p.last() }
}
/// where the i-th text starts
pub open spec fn pos(p: Seq<Seq<char>>, i: int) -> int { concat(p.take(i)).len() as int }
pub proof fn lemma_concat_push(p: Seq<Seq<char>>, x: Seq<char>)
    ensures concat(p.push(x)) == concat(p) + x,
{
    assert(p.push(x).drop_last() =~= p);
}
pub proof fn lemma_pos(p: Seq<Seq<char>>, i: int)
    requires 0 <= i < p.len(),
    ensures
        pos(p, 0) == 0, pos(p, i + 1) == pos(p, i) + p[i].len(), 0 <= pos(p, i), pos(p, i + 1) <= concat(p).len(),
        concat(p).subrange(pos(p, i), pos(p, i + 1)) == p[i], pos(p, p.len() as int) == concat(p).len(),
        concat(p.take(i)) == concat(p).take(pos(p, i)),
    decreases p.len(),
{
    assert(p.take(i + 1).drop_last() =~= p.take(i));
    assert(p.take(i + 1).last() == p[i]);
    assert(p.take(0) =~= Seq::<Seq<char>>::empty());
    assert(p.take(p.len() as int) =~= p);
    if i == p.len() - 1 {
        assert(p.take(i + 1) =~= p);
        assert(p.take(i) =~= p.drop_last());
        assert(concat(p).subrange(pos(p, i), pos(p, i + 1)) =~= p[i]);
        assert(concat(p.take(i)) =~= concat(p).take(pos(p, i)));
    } else {
        let d = p.drop_last();
        lemma_pos(d, i);
        assert(d.take(i) =~= p.take(i));
        assert(d.take(i + 1) =~= p.take(i + 1));
        assert(concat(p).subrange(pos(p, i), pos(p, i + 1)) =~= concat(d).subrange(pos(d, i), pos(d, i + 1)));
        assert(concat(p).take(pos(p, i)) =~= concat(d).take(pos(d, i)));
    }
}
/// a line break opportunity before the k-th character
pub open spec fn is_break(s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && breaks(s).contains(blen(s.take(k)) as int)
}
pub open spec fn no_break(s: Seq<char>, a: int, b: int) -> bool {
    forall|k: int| a < k < b ==> !(#[trigger] is_break(s, k))
}
/// what wrapping a text gives: its parts, cut at opportunities; a part that is
/// too wide has none inside
pub open spec fn is_wrap(s: Seq<char>, w: int, p: Seq<Seq<char>>) -> bool {
    &&& p.len() > 0 && concat(p) == s
    &&& forall|i: int| 0 < i < p.len() ==> is_break(s, #[trigger] pos(p, i))
    &&& forall|i: int| 0 < i < p.len() ==> (#[trigger] p[i]).len() > 0
    &&& forall|i: int| 0 <= i < p.len() ==> cw_sum(#[trigger] p[i]) <= w || no_break(s, pos(p, i), pos(p, i + 1))
}
pub open spec fn cut_parts(s: Seq<char>, cuts: Seq<usize>, n: int) -> Seq<Seq<char>> {
    Seq::new(n as nat, |i: int| s.subrange(cidx(s, bound(cuts, blen(s) as int, i)), cidx(s, bound(cuts, blen(s) as int, i + 1))))
}
pub proof fn lemma_bound(s: Seq<char>, w: int, cuts: Seq<usize>, i: int)
    requires are_breaks(s, breaks(s)), are_cuts(s, w, cuts), 0 <= i <= cuts.len(),
    ensures ({
        let (a, b) = (bound(cuts, blen(s) as int, i), bound(cuts, blen(s) as int, i + 1));
        is_cb(s, a) && is_cb(s, b) && 0 <= a <= b <= blen(s) && 0 <= cidx(s, a) <= cidx(s, b) <= s.len()
    }),
{
    lemma_cb_ends(s);
    let (a, b) = (bound(cuts, blen(s) as int, i), bound(cuts, blen(s) as int, i + 1));
    if i > 0 {
        assert(breaks(s).contains(cuts[i - 1] as int));
        let j = choose|j: int| 0 <= j < breaks(s).len() && breaks(s)[j] == cuts[i - 1];
        assert(is_cb(s, breaks(s)[j]));
    }
    if i < cuts.len() {
        assert(breaks(s).contains(cuts[i] as int));
        let j = choose|j: int| 0 <= j < breaks(s).len() && breaks(s)[j] == cuts[i];
        assert(is_cb(s, breaks(s)[j]));
    }
    lemma_at_byte(s, a);
    lemma_at_byte(s, b);
    lemma_cb_order(s, a, b);
}
pub proof fn lemma_cut_concat(s: Seq<char>, w: int, cuts: Seq<usize>, n: int)
    requires are_breaks(s, breaks(s)), are_cuts(s, w, cuts), 0 <= n <= cuts.len() + 1,
    ensures concat(cut_parts(s, cuts, n)) == s.take(cidx(s, bound(cuts, blen(s) as int, n))),
    decreases n,
{
    lemma_cb_ends(s);
    if n > 0 {
        lemma_cut_concat(s, w, cuts, n - 1);
        lemma_bound(s, w, cuts, n - 1);
        let (a, b) = (cidx(s, bound(cuts, blen(s) as int, n - 1)), cidx(s, bound(cuts, blen(s) as int, n)));
        assert(cut_parts(s, cuts, n).drop_last() =~= cut_parts(s, cuts, n - 1));
        assert(s.take(a) + s.subrange(a, b) =~= s.take(b));
    } else {
        assert(s.take(0) =~= Seq::<char>::empty());
    }
}
pub proof fn lemma_cut_parts(s: Seq<char>, w: int, cuts: Seq<usize>)
    requires are_breaks(s, breaks(s)), are_cuts(s, w, cuts),
    ensures is_wrap(s, w, cut_parts(s, cuts, cuts.len() as int + 1)),
{
    let n = cuts.len() as int + 1;
    let p = cut_parts(s, cuts, n);
    let end = blen(s) as int;
    lemma_cut_concat(s, w, cuts, n);
    lemma_cb_ends(s);
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i <= n implies pos(p, i) == cidx(s, bound(cuts, end, i)) by {
        lemma_cut_concat(s, w, cuts, i);
        assert(p.take(i) =~= cut_parts(s, cuts, i));
        if i < n { lemma_bound(s, w, cuts, i); } else { lemma_bound(s, w, cuts, i - 1); }
    }
    assert forall|i: int| 0 < i < p.len() implies is_break(s, #[trigger] pos(p, i)) by {
        lemma_bound(s, w, cuts, i);
        assert(breaks(s).contains(cuts[i - 1] as int));
        lemma_at_byte(s, bound(cuts, end, i));
    }
    assert forall|i: int| 0 < i < p.len() implies (#[trigger] p[i]).len() > 0 by {
        lemma_bound(s, w, cuts, i);
        lemma_cb_order(s, bound(cuts, end, i), bound(cuts, end, i + 1));
    }
    assert forall|i: int| 0 <= i < p.len() implies cw_sum(#[trigger] p[i]) <= w || no_break(s, pos(p, i), pos(p, i + 1)) by {
        lemma_bound(s, w, cuts, i);
        assert(pos(p, i) == cidx(s, bound(cuts, end, i)) && pos(p, i + 1) == cidx(s, bound(cuts, end, i + 1)));
        lemma_cut_narrow(s, w, cuts, i);
    }
}
pub proof fn lemma_cut_narrow(s: Seq<char>, w: int, cuts: Seq<usize>, i: int)
    requires are_breaks(s, breaks(s)), are_cuts(s, w, cuts), 0 <= i < cuts.len() + 1,
    ensures ({
        let (a, b) = (cidx(s, bound(cuts, blen(s) as int, i)), cidx(s, bound(cuts, blen(s) as int, i + 1)));
        0 <= a <= b <= s.len() && (cw_sum(s.subrange(a, b)) <= w || no_break(s, a, b))
    }),
{
    let end = blen(s) as int;
    let (a, b) = (bound(cuts, end, i), bound(cuts, end, i + 1));
    lemma_bound(s, w, cuts, i);
    assert(bytes_ok(s, breaks(s), w, a, b));
    lemma_at_byte(s, a);
    lemma_at_byte(s, b);
    lemma_bsum_chars(s, cidx(s, a), cidx(s, b));
    if cw_sum(s.subrange(cidx(s, a), cidx(s, b))) > w {
        assert forall|k: int| cidx(s, a) < k < cidx(s, b) implies !(#[trigger] is_break(s, k)) by {
            lemma_blen_mono(s, cidx(s, a), k);
            lemma_blen_mono(s, k, cidx(s, b));
            if is_break(s, k) {
                let j = choose|j: int| 0 <= j < breaks(s).len() && breaks(s)[j] == blen(s.take(k));
                assert(a < breaks(s)[j] < b);
            }
        }
    }
}
} // verus!
