verus! {
// ---------------------------------------------------------------------
// The text written for messages (C05, C06)

pub open spec fn dec_digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
/// decimal digits of a number
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![dec_digit(n as int)] } else { dec(n / 10).push(dec_digit((n % 10) as int)) }
}
impl VxToString for usize {
    open spec fn str_spec(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}

/// fmt::Formatter, seen as the text written to it
pub struct VxFormatter { pub text: String }
pub struct VxFmtError {}
pub type VxFmtResult = core::result::Result<(), VxFmtError>;
impl VxFormatter {
    pub fn vx_write_str(&mut self, s: &str) -> (r: VxFmtResult)
        ensures r is Ok, final(self).text@ == old(self).text@ + s@,
    { self.text.push_str(s); Ok(()) }
}

pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s }
}
/// str::lines: ended by \n or \r\n, the end of the last one may be missing
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via lines_decreases
{
    let k = cpos(s, '\n');
    if s.len() == 0 { Seq::empty() }
    else if k >= s.len() { seq![s] }
    else { seq![strip_cr(s.take(k))] + lines(s.skip(k + 1)) }
}
#[via_fn]
proof fn lines_decreases(s: Seq<char>) {
    lemma_cpos(s, '\n');
}
pub trait VxLines {
    spec fn lv(&self) -> Seq<char>;
    fn vx_lines(&self) -> (r: Vec<&str>)
        ensures vx_strrefs(r@) == lines(self.lv());
}
impl VxLines for str {
    open spec fn lv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: Vec<&str>) { self.lines().collect() }
}
impl<'a> VxJoin for Vec<&'a str> {
    open spec fn jv(&self) -> Seq<Seq<char>> { vx_strrefs(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}

// ---------------------------------------------------------------------
// String fields

/// the part of a field is not wider than the wrap width
pub open spec fn narrow(s: Seq<char>, w: int) -> bool { cw_sum(s) <= w || tw(s) <= w }
/// a line break opportunity inside of an escape sequence
pub open spec fn broken_escape(s: Seq<char>, a: int, b: int) -> bool {
    exists|k: int| a < k < b && #[trigger] is_break(s, k) && open_esc(s.take(k))
}
/// an opportunity, or the end of an empty first part
pub open spec fn cut_ok(s: Seq<char>, i: int, k: int) -> bool {
    ((i == 1 && k == 0) || is_break(s, k)) && !open_esc(s.take(k))
}
/// too wide only if it can not be cut
pub open spec fn part_ok(s: Seq<char>, w: int, p: Seq<Seq<char>>, i: int) -> bool {
    narrow(p[i], w) || no_break(s, pos(p, i), pos(p, i + 1)) || broken_escape(s, pos(p, i), pos(p, i + 1))
}
/// C05: the quoted parts of a field with the escaped value s
pub open spec fn is_parts(s: Seq<char>, w: int, p: Seq<Seq<char>>) -> bool {
    &&& p.len() > 0 && concat(p) == s
    &&& forall|i: int| 0 < i < p.len() ==> cut_ok(s, i, #[trigger] pos(p, i))
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] part_ok(s, w, p, i)
}
/// one keyword line, then continuation lines
pub open spec fn field_text(del: Seq<char>, name: Seq<char>, p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() }
    else if p.len() == 1 { del + name + seq![' ', '"'] + p[0] + seq!['"', '\n'] }
    else { field_text(del, name, p.drop_last()) + (del + seq!['"'] + p.last() + seq!['"', '\n']) }
}
/// keyword with the index of the plural form
pub open spec fn keyword(name: Seq<char>, index: Seq<char>) -> Seq<char> {
    if index.len() == 0 { name } else { name + seq!['['] + index + seq![']'] }
}
pub open spec fn is_field(del: Seq<char>, name: Seq<char>, value: Seq<char>, w: int, t: Seq<char>) -> bool {
    exists|p: Seq<Seq<char>>| #[trigger] is_parts(esc(value), w, p) && t == field_text(del, name, p)
}

pub proof fn lemma_open_cat(a: Seq<char>, b: Seq<char>)
    requires !open_esc(a),
    ensures open_esc(a + b) == open_esc(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_open_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
/// the parts while they are built of the first k pieces of wrap(): the last
/// one may still grow
pub open spec fn parts_to(s: Seq<char>, w: int, q: Seq<Seq<char>>, k: int, p: Seq<Seq<char>>) -> bool {
    let n = p.len() as int;
    &&& n > 0 && concat(p) == concat(q.take(k))
    &&& k > 0 ==> n > 1
    &&& k == 0 ==> n == 1
    &&& forall|i: int| 0 < i < n ==> cut_ok(s, i, #[trigger] pos(p, i))
    &&& forall|i: int| 0 <= i < n - 1 ==> #[trigger] part_ok(s, w, p, i)
    &&& ({
        ||| n == 1 && p[0].len() == 0
        ||| k > 0 && p.last() == q[k - 1] && pos(p, n - 1) == pos(q, k - 1)
        ||| broken_escape(s, pos(p, n - 1), pos(q, k))
    })
}
pub proof fn lemma_pos_prefix(p: Seq<Seq<char>>, q: Seq<Seq<char>>, i: int)
    requires 0 <= i <= p.len(), i <= q.len(), p.take(i) =~= q.take(i),
    ensures pos(p, i) == pos(q, i),
{
}
pub proof fn lemma_parts_start(s: Seq<char>, w: int, q: Seq<Seq<char>>, p: Seq<Seq<char>>)
    requires p == seq![Seq::<char>::empty()],
    ensures parts_to(s, w, q, 0, p),
{
    assert(q.take(0) =~= Seq::<Seq<char>>::empty());
    lemma_concat_push(Seq::empty(), Seq::empty());
    assert(p =~= Seq::<Seq<char>>::empty().push(Seq::empty()));
    assert(concat(p) =~= Seq::<char>::empty());
}
pub proof fn lemma_part_same(s: Seq<char>, w: int, p: Seq<Seq<char>>, r: Seq<Seq<char>>, i: int)
    requires 0 <= i < p.len(), i < r.len(), p.take(i + 1) =~= r.take(i + 1),
    ensures part_ok(s, w, p, i) == part_ok(s, w, r, i), pos(p, i) == pos(r, i), pos(p, i + 1) == pos(r, i + 1),
{
    assert(p.take(i) =~= p.take(i + 1).take(i));
    assert(r.take(i) =~= r.take(i + 1).take(i));
    assert(p.take(i + 1)[i] == p[i]);
    assert(r.take(i + 1)[i] == r[i]);
}
/// facts about the end of the parts
pub proof fn lemma_parts_last(s: Seq<char>, w: int, q: Seq<Seq<char>>, k: int, p: Seq<Seq<char>>)
    requires concat(q) == s, q.len() > 0, 0 <= k <= q.len(), parts_to(s, w, q, k, p),
    ensures
        concat(p) == s.take(pos(q, k)), pos(p, p.len() as int) == pos(q, k), 0 <= pos(q, k) <= s.len(),
        pos(p, p.len() - 1) + p.last().len() == pos(q, k),
        open_esc(p.last()) == open_esc(s.take(pos(q, k))),
        open_esc(p.last()) ==> p.last().len() > 0,
{
    let n = p.len() as int;
    lemma_pos(p, n - 1);
    if k < q.len() { lemma_pos(q, k); } else { lemma_pos(q, k - 1); assert(q.take(k) =~= q); assert(s.take(pos(q, k)) =~= s); }
    let a = pos(p, n - 1);
    if n > 1 { assert(cut_ok(s, n - 1, pos(p, n - 1))); } else { assert(s.take(0) =~= Seq::<char>::empty()); }
    assert(s.take(pos(q, k)).take(a) =~= s.take(a));
    assert(p.take(n - 1) =~= p.drop_last());
    lemma_open_cat(s.take(a), p.last());
}
/// a piece becomes a part
pub proof fn lemma_parts_push(s: Seq<char>, w: int, q: Seq<Seq<char>>, k: int, p: Seq<Seq<char>>)
    requires is_wrap(s, w, q), 0 <= k < q.len(), parts_to(s, w, q, k, p), !open_esc(p.last()),
    ensures parts_to(s, w, q, k + 1, p.push(q[k])),
{
    let r = p.push(q[k]);
    let n = p.len() as int;
    lemma_parts_last(s, w, q, k, p);
    lemma_concat_push(p, q[k]);
    lemma_concat_push(q.take(k), q[k]);
    assert(q.take(k).push(q[k]) =~= q.take(k + 1));
    assert(r.take(n) =~= p);
    assert(p.take(n) =~= p);
    assert(pos(r, n) == pos(q, k));
    assert forall|i: int| 0 < i < r.len() implies cut_ok(s, i, #[trigger] pos(r, i)) by {
        if i < n {
            assert(r.take(i) =~= p.take(i));
            assert(cut_ok(s, i, pos(p, i)));
        } else if k > 0 {
            assert(is_break(s, pos(q, k)));
        } else {
            assert(q.take(0) =~= Seq::<Seq<char>>::empty());
        }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] part_ok(s, w, r, i) by {
        assert(r.take(i + 1) =~= p.take(i + 1));
        lemma_part_same(s, w, p, r, i);
        if i < n - 1 {
            assert(part_ok(s, w, p, i));
        } else {
            assert(pos(p, n) == pos(q, k));
            if n == 1 && p[0].len() == 0 {
                assert(pos(p, 0) == 0) by { lemma_pos(p, 0); }
                assert(no_break(s, pos(p, 0), pos(p, 1)));
            } else if k > 0 && p.last() == q[k - 1] && pos(p, n - 1) == pos(q, k - 1) {
                assert(cw_sum(q[k - 1]) <= w || no_break(s, pos(q, k - 1), pos(q, k - 1 + 1)));
            }
        }
    }
}
/// a piece is added to the last part, because it ends inside of an escape
pub proof fn lemma_parts_grow(s: Seq<char>, w: int, q: Seq<Seq<char>>, k: int, p: Seq<Seq<char>>)
    requires is_wrap(s, w, q), 0 <= k < q.len(), parts_to(s, w, q, k, p), open_esc(p.last()),
    ensures parts_to(s, w, q, k + 1, p.update(p.len() - 1, p.last() + q[k])),
{
    let n = p.len() as int;
    let r = p.update(n - 1, p.last() + q[k]);
    lemma_parts_last(s, w, q, k, p);
    lemma_concat_push(q.take(k), q[k]);
    assert(q.take(k).push(q[k]) =~= q.take(k + 1));
    assert(r.drop_last() =~= p.drop_last());
    assert(concat(r) =~= concat(p) + q[k]);
    lemma_pos(q, k);
    assert(k > 0) by { if k == 0 { assert(n == 1); assert(p[0] == p.last()); assert(pos(q, 0) == 0); } }
    assert(q[k].len() > 0);
    assert(r.take(n - 1) =~= p.take(n - 1));
    assert forall|i: int| 0 < i < n implies cut_ok(s, i, #[trigger] pos(r, i)) by {
        assert(r.take(i) =~= p.take(i));
        assert(cut_ok(s, i, pos(p, i)));
    }
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] part_ok(s, w, r, i) by {
        assert(r.take(i + 1) =~= p.take(i + 1));
        lemma_part_same(s, w, p, r, i);
        assert(part_ok(s, w, p, i));
    }
    let a = pos(r, n - 1);
    assert(a == pos(p, n - 1));
    assert(is_break(s, pos(q, k)));
    assert(a < pos(q, k) < pos(q, k + 1));
    assert(broken_escape(s, a, pos(q, k + 1)));
}
pub proof fn lemma_parts_done(s: Seq<char>, w: int, q: Seq<Seq<char>>, k: int, p: Seq<Seq<char>>)
    requires is_wrap(s, w, q), parts_to(s, w, q, k, p), k <= q.len(),
    ensures k == q.len() ==> is_parts(s, w, p),
{
    if k < q.len() { return; }
    let n = p.len() as int;
    assert(q.take(k) =~= q);
    lemma_parts_last(s, w, q, k, p);
    assert forall|i: int| 0 <= i < n implies #[trigger] part_ok(s, w, p, i) by {
        if i == n - 1 {
            if k > 0 && p.last() == q[k - 1] && pos(p, n - 1) == pos(q, k - 1) {
                assert(cw_sum(q[k - 1]) <= w || no_break(s, pos(q, k - 1), pos(q, k - 1 + 1)));
            }
        }
    }
}
pub proof fn lemma_parts_one(s: Seq<char>, w: int, p: Seq<Seq<char>>)
    requires p == seq![s], tw(s) <= w,
    ensures is_parts(s, w, p),
{
    lemma_concat_push(Seq::empty(), s);
    assert(p =~= Seq::<Seq<char>>::empty().push(s));
    assert(concat(p) =~= s);
    assert(part_ok(s, w, p, 0));
}
} // verus!
verus! {
// ---------------------------------------------------------------------
// Messages: a sequence of items

pub enum Item {
    /// a line of a comment, with its marker
    Cmt(Seq<char>, Seq<char>),
    /// all the occurrences
    Occs(Seq<Seq<char>>),
    Flags(Seq<Seq<char>>),
    /// prefix, keyword and value of a string field
    Field(Seq<char>, Seq<char>, Seq<char>),
}
/// cut at line break opportunities only
pub open spec fn is_cut(s: Seq<char>, p: Seq<Seq<char>>) -> bool {
    &&& p.len() > 0 && concat(p) == s
    &&& forall|i: int| 0 < i < p.len() ==> is_break(s, #[trigger] pos(p, i))
}
/// each text on a line with the marker
pub open spec fn marked(mark: Seq<char>, p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { marked(mark, p.drop_last()) + mark + p.last() + seq!['\n'] }
}
pub open spec fn flat(g: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>>
    decreases g.len()
{
    if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last() }
}
pub open spec fn is_groups(o: Seq<Seq<char>>, g: Seq<Seq<Seq<char>>>) -> bool {
    flat(g) == o && g.len() > 0 && forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0
}
pub open spec fn occ_lines(g: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>> {
    Seq::new(g.len(), |i: int| seq!['#', ':', ' '] + join(g[i], seq![' ']))
}
pub open spec fn is_cmt(mark: Seq<char>, line: Seq<char>, t: Seq<char>) -> bool {
    exists|p: Seq<Seq<char>>| #[trigger] is_cut(line, p) && t == marked(mark, p)
}
pub open spec fn is_occs(o: Seq<Seq<char>>, t: Seq<char>) -> bool {
    exists|g: Seq<Seq<Seq<char>>>| #[trigger] is_groups(o, g) && t == join(occ_lines(g), seq!['\n']) + seq!['\n']
}
pub open spec fn item_ok(it: Item, w: int, t: Seq<char>) -> bool {
    match it {
        Item::Cmt(mark, line) => is_cmt(mark, line, t),
        Item::Occs(o) => is_occs(o, t),
        Item::Flags(f) => t == seq!['#', ',', ' '] + join(f, seq![',', ' ']) + seq!['\n'],
        Item::Field(del, kw, value) => is_field(del, kw, value, w, t),
    }
}
pub open spec fn cut_at(t: Seq<char>, k: int) -> bool { 0 <= k <= t.len() }
/// the texts of the items one after another
pub open spec fn is_items(its: Seq<Item>, w: int, t: Seq<char>) -> bool
    decreases its.len()
{
    if its.len() == 0 { t.len() == 0 } else {
        exists|k: int| #[trigger] cut_at(t, k) && is_items(its.drop_last(), w, t.take(k)) && item_ok(its.last(), w, t.skip(k))
    }
}
pub open spec fn added1(it: Item, w: int, t: Seq<char>, t2: Seq<char>) -> bool {
    exists|u: Seq<char>| #[trigger] item_ok(it, w, u) && t2 == t + u
}
pub open spec fn added(its: Seq<Item>, w: int, t: Seq<char>, t2: Seq<char>) -> bool {
    exists|u: Seq<char>| #[trigger] is_items(its, w, u) && t2 == t + u
}
pub proof fn lemma_item(its: Seq<Item>, w: int, t: Seq<char>, it: Item, t2: Seq<char>)
    requires is_items(its, w, t), added1(it, w, t, t2),
    ensures is_items(its.push(it), w, t2),
{
    let u = choose|u: Seq<char>| #[trigger] item_ok(it, w, u) && t2 == t + u;
    let k = t.len() as int;
    assert(its.push(it).drop_last() =~= its);
    assert(t2.take(k) =~= t);
    assert(t2.skip(k) =~= u);
    assert(cut_at(t2, k));
}
pub proof fn lemma_items(its: Seq<Item>, w: int, t: Seq<char>, b: Seq<Item>, t2: Seq<char>)
    requires is_items(its, w, t), added(b, w, t, t2),
    ensures is_items(its + b, w, t2),
    decreases b.len(),
{
    let u = choose|u: Seq<char>| #[trigger] is_items(b, w, u) && t2 == t + u;
    if b.len() == 0 {
        assert(its + b =~= its);
        assert(t2 =~= t);
    } else {
        let k = choose|k: int| #[trigger] cut_at(u, k) && is_items(b.drop_last(), w, u.take(k)) && item_ok(b.last(), w, u.skip(k));
        let t1 = t + u.take(k);
        assert(added(b.drop_last(), w, t, t1));
        lemma_items(its, w, t, b.drop_last(), t1);
        assert(t2 =~= t1 + u.skip(k));
        lemma_item(its + b.drop_last(), w, t1, b.last(), t2);
        assert((its + b.drop_last()).push(b.last()) =~= its + b);
    }
}
pub proof fn lemma_added(its: Seq<Item>, w: int, t0: Seq<char>, t: Seq<char>, it: Item, t2: Seq<char>)
    requires added(its, w, t0, t), added1(it, w, t, t2),
    ensures added(its.push(it), w, t0, t2),
{
    let u = choose|u: Seq<char>| #[trigger] is_items(its, w, u) && t == t0 + u;
    let v = choose|v: Seq<char>| #[trigger] item_ok(it, w, v) && t2 == t + v;
    assert(added1(it, w, u, u + v));
    lemma_item(its, w, u, it, u + v);
    assert(t2 =~= t0 + (u + v));
}
pub proof fn lemma_wrap_cut(s: Seq<char>, w: int, p: Seq<Seq<char>>)
    requires is_wrap(s, w, p),
    ensures is_cut(s, p), p.len() > 0,
{
}
pub proof fn lemma_cut_one(s: Seq<char>)
    ensures is_cut(s, seq![s]), forall|m: Seq<char>| #[trigger] marked(m, seq![s]) == m + s + seq!['\n'],
{
    lemma_concat_push(Seq::empty(), s);
    assert(seq![s] =~= Seq::<Seq<char>>::empty().push(s));
    assert(concat(seq![s]) =~= s);
    assert forall|m: Seq<char>| #[trigger] marked(m, seq![s]) == m + s + seq!['\n'] by {
        assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty());
        reveal_with_fuel(marked, 2);
        assert(marked(m, seq![s]) =~= m + s + seq!['\n']);
    }
}
/// bytes of texts, with one more for each
pub open spec fn texts_len(s: Seq<Seq<char>>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { texts_len(s.drop_last()) + blen(s.last()) + 1 }
}
pub proof fn lemma_bytes_take(s: Seq<Seq<char>>, k: int)
    requires 0 <= k <= s.len(),
    ensures texts_len(s.take(k)) <= texts_len(s), k < s.len() ==> texts_len(s.take(k + 1)) == texts_len(s.take(k)) + blen(s[k]) + 1,
    decreases s.len(),
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        lemma_bytes_take(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}
/// trusted: the texts of a vector do not overlap in memory
pub axiom fn axiom_strings_fit(v: &Vec<String>)
    ensures texts_len(vx_strs(v@)) <= isize::MAX;
pub proof fn lemma_flat_push(g: Seq<Seq<Seq<char>>>, x: Seq<Seq<char>>)
    ensures flat(g.push(x)) == flat(g) + x,
{
    assert(g.push(x).drop_last() =~= g);
}
pub proof fn lemma_no_items(w: int)
    ensures is_items(Seq::empty(), w, Seq::empty()),
{
}

pub open spec fn cmt_items(mark: Seq<char>, ls: Seq<Seq<char>>) -> Seq<Item> {
    Seq::new(ls.len(), |i: int| Item::Cmt(mark, ls[i]))
}
pub open spec fn opt_field(its: Seq<Item>, del: Seq<char>, name: Seq<char>, v: Option<Seq<char>>) -> Seq<Item> {
    match v { Some(v) => its.push(Item::Field(del, name, v)), None => its }
}
pub open spec fn opt_cmt(its: Seq<Item>, mark: Seq<char>, v: Option<Seq<char>>) -> Seq<Item> {
    match v { Some(v) => its + cmt_items(mark, lines(v)), None => its }
}
pub open spec fn plural_items(its: Seq<Item>, del: Seq<char>, p: Seq<Seq<char>>) -> Seq<Item> {
    its + Seq::new(p.len(), |i: int| Item::Field(del, keyword("msgstr"@, dec(i as nat)), p[i]))
}
/// an occurrence is the file name, with its line number if there is one
pub open spec fn occ_text(o: (Seq<char>, Seq<char>)) -> Seq<char> {
    if o.1.len() == 0 { o.0 } else { o.0 + seq![':'] + o.1 }
}
pub open spec fn occ_texts(o: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> {
    Seq::new(o.len(), |i: int| occ_text(o[i]))
}

pub proof fn lemma_opt_field(its: Seq<Item>, w: int, t: Seq<char>, del: Seq<char>, name: Seq<char>, v: Option<Seq<char>>, t2: Seq<char>)
    requires
        is_items(its, w, t),
        match v { Some(v) => added1(Item::Field(del, name, v), w, t, t2), None => t2 == t },
    ensures is_items(opt_field(its, del, name, v), w, t2),
{
    if v is Some { lemma_item(its, w, t, Item::Field(del, name, v->0), t2); }
}
pub proof fn lemma_opt_cmt(its: Seq<Item>, w: int, t: Seq<char>, mark: Seq<char>, v: Option<Seq<char>>, t2: Seq<char>)
    requires
        is_items(its, w, t),
        match v { Some(v) => added(cmt_items(mark, lines(v)), w, t, t2), None => t2 == t },
    ensures is_items(opt_cmt(its, mark, v), w, t2),
{
    if v is Some { lemma_items(its, w, t, cmt_items(mark, lines(v->0)), t2); }
}
pub proof fn lemma_occs_item(o: Seq<Seq<char>>, g: Seq<Seq<Seq<char>>>, w: int, t: Seq<char>, t2: Seq<char>)
    requires is_groups(o, g), t2 == t + join(occ_lines(g), seq!['\n']) + seq!['\n'],
    ensures added1(Item::Occs(o), w, t, t2),
{
    let u = join(occ_lines(g), seq!['\n']) + seq!['\n'];
    assert(is_occs(o, u));
    assert(item_ok(Item::Occs(o), w, u));
    assert(t2 =~= t + u);
}
pub proof fn lemma_flags_item(f: Seq<Seq<char>>, w: int, t: Seq<char>, t2: Seq<char>)
    requires t2 == t + (seq!['#', ',', ' '] + join(f, seq![',', ' ']) + seq!['\n']),
    ensures added1(Item::Flags(f), w, t, t2),
{
    assert(item_ok(Item::Flags(f), w, seq!['#', ',', ' '] + join(f, seq![',', ' ']) + seq!['\n']));
}
pub proof fn lemma_cmt_item(line: Seq<char>, w: int, mark: Seq<char>, p: Seq<Seq<char>>, t: Seq<char>, t2: Seq<char>)
    requires is_cut(line, p), t2 == t + marked(mark, p),
    ensures added1(Item::Cmt(mark, line), w, t, t2),
{
    assert(is_cmt(mark, line, marked(mark, p)));
    assert(item_ok(Item::Cmt(mark, line), w, marked(mark, p)));
}
} // verus!
