verus! {
use vstd::relations::{sorted_by, total_ordering};
use vstd::multiset::Multiset;
// ---------------------------------------------------------------------
// Comparing messages

//@@ struct rust/src/entry/mod.rs EntryCmpByOptions
/// the choice of all fields, or of none
pub open spec fn all_fields(b: bool) -> EntryCmpByOptions {
    EntryCmpByOptions { by_msgid: b, by_msgstr: b, by_msgctxt: b, by_obsolete: b, by_occurrences: b, by_msgid_plural: b, by_msgstr_plural: b, by_flags: b }
}
/// one field chosen by its name, unknown names choose nothing
pub open spec fn with_field(o: EntryCmpByOptions, k: Seq<char>, b: bool) -> EntryCmpByOptions {
    if k == "msgid"@ { EntryCmpByOptions { by_msgid: b, ..o } }
    else if k == "msgstr"@ { EntryCmpByOptions { by_msgstr: b, ..o } }
    else if k == "msgctxt"@ { EntryCmpByOptions { by_msgctxt: b, ..o } }
    else if k == "obsolete"@ { EntryCmpByOptions { by_obsolete: b, ..o } }
    else if k == "occurrences"@ { EntryCmpByOptions { by_occurrences: b, ..o } }
    else if k == "msgid_plural"@ { EntryCmpByOptions { by_msgid_plural: b, ..o } }
    else if k == "msgstr_plural"@ { EntryCmpByOptions { by_msgstr_plural: b, ..o } }
    else if k == "flags"@ { EntryCmpByOptions { by_flags: b, ..o } }
    else { o }
}
/// choices by name on top of all fields, the last one counts
pub open spec fn fields_of(s: Seq<(String, bool)>) -> EntryCmpByOptions
    decreases s.len()
{
    if s.len() == 0 { all_fields(true) } else { with_field(fields_of(s.drop_last()), s.last().0@, s.last().1) }
}
pub proof fn lemma_field_names()
    ensures "msgid"@ != "msgstr"@, "msgid"@ != "msgctxt"@, "msgid"@ != "obsolete"@, "msgid"@ != "occurrences"@, "msgid"@ != "msgid_plural"@, "msgid"@ != "msgstr_plural"@, "msgid"@ != "flags"@, "msgstr"@ != "msgctxt"@, "msgstr"@ != "obsolete"@, "msgstr"@ != "occurrences"@, "msgstr"@ != "msgid_plural"@, "msgstr"@ != "msgstr_plural"@, "msgstr"@ != "flags"@, "msgctxt"@ != "obsolete"@, "msgctxt"@ != "occurrences"@, "msgctxt"@ != "msgid_plural"@, "msgctxt"@ != "msgstr_plural"@, "msgctxt"@ != "flags"@, "obsolete"@ != "occurrences"@, "obsolete"@ != "msgid_plural"@, "obsolete"@ != "msgstr_plural"@, "obsolete"@ != "flags"@, "occurrences"@ != "msgid_plural"@, "occurrences"@ != "msgstr_plural"@, "occurrences"@ != "flags"@, "msgid_plural"@ != "msgstr_plural"@, "msgid_plural"@ != "flags"@, "msgstr_plural"@ != "flags"@,
{
    reveal_strlit("msgid"); reveal_strlit("msgstr"); reveal_strlit("msgctxt"); reveal_strlit("obsolete"); reveal_strlit("occurrences"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr_plural"); reveal_strlit("flags");
    assert("msgid"@.len() != "msgstr"@.len());
    assert("msgid"@.len() != "msgctxt"@.len());
    assert("msgid"@.len() != "obsolete"@.len());
    assert("msgid"@.len() != "occurrences"@.len());
    assert("msgid"@.len() != "msgid_plural"@.len());
    assert("msgid"@.len() != "msgstr_plural"@.len());
    assert("msgid"@[0] != "flags"@[0]);
    assert("msgstr"@.len() != "msgctxt"@.len());
    assert("msgstr"@.len() != "obsolete"@.len());
    assert("msgstr"@.len() != "occurrences"@.len());
    assert("msgstr"@.len() != "msgid_plural"@.len());
    assert("msgstr"@.len() != "msgstr_plural"@.len());
    assert("msgstr"@.len() != "flags"@.len());
    assert("msgctxt"@.len() != "obsolete"@.len());
    assert("msgctxt"@.len() != "occurrences"@.len());
    assert("msgctxt"@.len() != "msgid_plural"@.len());
    assert("msgctxt"@.len() != "msgstr_plural"@.len());
    assert("msgctxt"@.len() != "flags"@.len());
    assert("obsolete"@.len() != "occurrences"@.len());
    assert("obsolete"@.len() != "msgid_plural"@.len());
    assert("obsolete"@.len() != "msgstr_plural"@.len());
    assert("obsolete"@.len() != "flags"@.len());
    assert("occurrences"@.len() != "msgid_plural"@.len());
    assert("occurrences"@.len() != "msgstr_plural"@.len());
    assert("occurrences"@.len() != "flags"@.len());
    assert("msgid_plural"@.len() != "msgstr_plural"@.len());
    assert("msgid_plural"@.len() != "flags"@.len());
    assert("msgstr_plural"@.len() != "flags"@.len());
}
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering {
    match a { Ordering::Equal => b, o => o }
}
pub open spec fn pair_cmp(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> Ordering {
    then(text_cmp(a.0, b.0), text_cmp(a.1, b.1))
}
/// lexicographic order
pub open spec fn seq_cmp<T>(a: Seq<T>, b: Seq<T>, ord: spec_fn(T, T) -> Ordering) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { then(ord(a[0], b[0]), seq_cmp(a.skip(1), b.skip(1), ord)) }
}
pub open spec fn leq<T>(ord: spec_fn(T, T) -> Ordering) -> spec_fn(T, T) -> bool {
    |a: T, b: T| ord(a, b) != Ordering::Greater
}
pub open spec fn text_ord() -> spec_fn(Seq<char>, Seq<char>) -> Ordering {
    |a: Seq<char>, b: Seq<char>| text_cmp(a, b)
}
pub open spec fn pair_ord() -> spec_fn((Seq<char>, Seq<char>), (Seq<char>, Seq<char>)) -> Ordering {
    |a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| pair_cmp(a, b)
}
/// the items in their order
pub open spec fn sorted<T>(s: Seq<T>, ord: spec_fn(T, T) -> Ordering) -> Seq<T> {
    s.sort_by(leq(ord))
}
/// lists compared regardless of the order of their items
pub open spec fn bag_cmp<T>(a: Seq<T>, b: Seq<T>, ord: spec_fn(T, T) -> Ordering) -> Ordering {
    seq_cmp(sorted(a, ord), sorted(b, ord), ord)
}
/// a missing text counts as one NUL
pub open spec fn otext0(o: Option<Seq<char>>) -> Seq<char> {
    match o { Some(s) => s, None => seq!['\u{0}'] }
}
/// obsolete messages first
pub open spec fn flag_cmp(a: bool, b: bool) -> Ordering {
    if a == b { Ordering::Equal } else if a { Ordering::Less } else { Ordering::Greater }
}
pub open spec fn when(b: bool, o: Ordering) -> Ordering { if b { o } else { Ordering::Equal } }
pub open spec fn mo_cmp(a: MOEntryV, b: MOEntryV, o: EntryCmpByOptions) -> Ordering {
    then(when(o.by_msgctxt, text_cmp(otext0(a.msgctxt), otext0(b.msgctxt))),
    then(when(o.by_msgid_plural, text_cmp(otext0(a.msgid_plural), otext0(b.msgid_plural))),
    then(when(o.by_msgstr_plural, bag_cmp(a.msgstr_plural, b.msgstr_plural, text_ord())),
    then(when(o.by_msgid, text_cmp(a.msgid, b.msgid)),
         when(o.by_msgstr, text_cmp(otext0(a.msgstr), otext0(b.msgstr)))))))
}
pub open spec fn mo_part(a: POEntryV) -> MOEntryV {
    MOEntryV { msgid: a.msgid, msgstr: a.msgstr, msgid_plural: a.msgid_plural, msgstr_plural: a.msgstr_plural, msgctxt: a.msgctxt }
}
pub open spec fn po_cmp(a: POEntryV, b: POEntryV, o: EntryCmpByOptions) -> Ordering {
    then(when(o.by_obsolete, flag_cmp(a.obsolete, b.obsolete)),
    then(when(o.by_occurrences, bag_cmp(a.occurrences, b.occurrences, pair_ord())),
    then(when(o.by_flags, bag_cmp(a.flags, b.flags, text_ord())),
         mo_cmp(mo_part(a), mo_part(b), o))))
}

// ---------------------------------------------------------------------
// They are orders

/// the results of comparing three things with each other in an order
pub open spec fn good(ab: Ordering, ba: Ordering, bc: Ordering, cb: Ordering, ac: Ordering, ca: Ordering) -> bool {
    &&& ab == flip(ba) && bc == flip(cb) && ac == flip(ca)
    &&& (ab == Ordering::Equal ==> ac == bc)
    &&& (bc == Ordering::Equal ==> ac == ab)
    &&& (ab == bc ==> ac == ab)
}
pub proof fn lemma_good_then(p: (Ordering, Ordering, Ordering, Ordering, Ordering, Ordering), q: (Ordering, Ordering, Ordering, Ordering, Ordering, Ordering))
    requires good(p.0, p.1, p.2, p.3, p.4, p.5), good(q.0, q.1, q.2, q.3, q.4, q.5),
    ensures good(then(p.0, q.0), then(p.1, q.1), then(p.2, q.2), then(p.3, q.3), then(p.4, q.4), then(p.5, q.5)),
{
}
pub open spec fn good3<T>(ord: spec_fn(T, T) -> Ordering, a: T, b: T, c: T) -> bool {
    good(ord(a, b), ord(b, a), ord(b, c), ord(c, b), ord(a, c), ord(c, a))
}
/// a total order: equal are only equal values
pub open spec fn is_order<T>(ord: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T, c: T| #[trigger] good3(ord, a, b, c)
    &&& forall|a: T, b: T| (#[trigger] ord(a, b) == Ordering::Equal) == (a == b)
}
pub proof fn lemma_text_good(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        good(text_cmp(a, b), text_cmp(b, a), text_cmp(b, c), text_cmp(c, b), text_cmp(a, c), text_cmp(c, a)),
        (text_cmp(a, b) == Ordering::Equal) == (a == b),
{
    lemma_text_cmp(a, b, c);
    lemma_text_cmp(b, c, a);
    lemma_text_cmp(c, a, b);
    lemma_text_cmp(c, b, a);
    if text_cmp(a, b) == Ordering::Equal { lemma_utf8_inj(a, b); }
    if text_cmp(b, c) == Ordering::Equal { lemma_utf8_inj(b, c); }
}
pub proof fn lemma_text_order()
    ensures is_order(text_ord()),
{
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] good3(text_ord(), a, b, c) by { lemma_text_good(a, b, c); }
    assert forall|a: Seq<char>, b: Seq<char>| (#[trigger] text_ord()(a, b) == Ordering::Equal) == (a == b) by { lemma_text_good(a, b, a); }
}
pub proof fn lemma_pair_order()
    ensures is_order(pair_ord()),
{
    assert forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)| #[trigger] good3(pair_ord(), a, b, c) by {
        lemma_text_good(a.0, b.0, c.0);
        lemma_text_good(a.1, b.1, c.1);
    }
    assert forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| (#[trigger] pair_ord()(a, b) == Ordering::Equal) == (a == b) by {
        lemma_text_good(a.0, b.0, a.0);
        lemma_text_good(a.1, b.1, a.1);
    }
}
pub proof fn lemma_seq_good<T>(ord: spec_fn(T, T) -> Ordering, a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires is_order(ord),
    ensures
        good(seq_cmp(a, b, ord), seq_cmp(b, a, ord), seq_cmp(b, c, ord), seq_cmp(c, b, ord), seq_cmp(a, c, ord), seq_cmp(c, a, ord)),
    decreases a.len() + b.len() + c.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_seq_good(ord, a.skip(1), b.skip(1), c.skip(1));
        assert(good3(ord, a[0], b[0], c[0]));
    } else if a.len() > 0 && b.len() > 0 {
        lemma_seq_good(ord, a.skip(1), b.skip(1), c);
        assert(good3(ord, a[0], b[0], a[0]));
    } else if b.len() > 0 && c.len() > 0 {
        lemma_seq_good(ord, a, b.skip(1), c.skip(1));
        assert(good3(ord, b[0], c[0], b[0]));
    } else if a.len() > 0 && c.len() > 0 {
        lemma_seq_good(ord, a.skip(1), b, c.skip(1));
        assert(good3(ord, a[0], c[0], a[0]));
    }
}
pub proof fn lemma_seq_equal<T>(ord: spec_fn(T, T) -> Ordering, a: Seq<T>, b: Seq<T>)
    requires is_order(ord),
    ensures (seq_cmp(a, b, ord) == Ordering::Equal) == (a == b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_seq_equal(ord, a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    }
}
pub proof fn lemma_leq<T>(ord: spec_fn(T, T) -> Ordering)
    requires is_order(ord),
    ensures total_ordering(leq(ord)),
{
    let l = leq(ord);
    assert forall|a: T| #[trigger] l(a, a) by { assert(ord(a, a) == Ordering::Equal); }
    assert forall|a: T, b: T| #[trigger] l(a, b) && #[trigger] l(b, a) implies a == b by { assert(good3(ord, a, b, a)); }
    assert forall|a: T, b: T, c: T| #[trigger] l(a, b) && #[trigger] l(b, c) implies l(a, c) by { assert(good3(ord, a, b, c)); }
    assert forall|a: T, b: T| #[trigger] l(a, b) || #[trigger] l(b, a) by { assert(good3(ord, a, b, a)); }
}
/// the sorted list is determined by the items
pub proof fn lemma_sorted<T>(s: Seq<T>, t: Seq<T>, ord: spec_fn(T, T) -> Ordering)
    requires is_order(ord), s.to_multiset() == t.to_multiset(), is_sorted(t, ord),
    ensures t == sorted(s, ord),
{
    lemma_leq(ord);
    s.lemma_sort_by_ensures(leq(ord));
    assert(sorted_by(t, leq(ord)));
    vstd::seq_lib::lemma_sorted_unique(t, sorted(s, ord), leq(ord));
}
pub proof fn lemma_bag<T>(ord: spec_fn(T, T) -> Ordering, a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires is_order(ord),
    ensures
        good(bag_cmp(a, b, ord), bag_cmp(b, a, ord), bag_cmp(b, c, ord), bag_cmp(c, b, ord), bag_cmp(a, c, ord), bag_cmp(c, a, ord)),
        (bag_cmp(a, b, ord) == Ordering::Equal) == (a.to_multiset() == b.to_multiset()),
{
    lemma_seq_good(ord, sorted(a, ord), sorted(b, ord), sorted(c, ord));
    lemma_seq_equal(ord, sorted(a, ord), sorted(b, ord));
    lemma_leq(ord);
    a.lemma_sort_by_ensures(leq(ord));
    b.lemma_sort_by_ensures(leq(ord));
    if a.to_multiset() == b.to_multiset() {
        vstd::seq_lib::lemma_sorted_unique(sorted(a, ord), sorted(b, ord), leq(ord));
    }
}
pub open spec fn mo_agree(a: MOEntryV, b: MOEntryV, o: EntryCmpByOptions) -> bool {
    &&& o.by_msgctxt ==> otext0(a.msgctxt) == otext0(b.msgctxt)
    &&& o.by_msgid_plural ==> otext0(a.msgid_plural) == otext0(b.msgid_plural)
    &&& o.by_msgstr_plural ==> a.msgstr_plural.to_multiset() == b.msgstr_plural.to_multiset()
    &&& o.by_msgid ==> a.msgid == b.msgid
    &&& o.by_msgstr ==> otext0(a.msgstr) == otext0(b.msgstr)
}
pub open spec fn po_agree(a: POEntryV, b: POEntryV, o: EntryCmpByOptions) -> bool {
    &&& o.by_obsolete ==> a.obsolete == b.obsolete
    &&& o.by_occurrences ==> a.occurrences.to_multiset() == b.occurrences.to_multiset()
    &&& o.by_flags ==> a.flags.to_multiset() == b.flags.to_multiset()
    &&& mo_agree(mo_part(a), mo_part(b), o)
}
/// opposite results, transitive, equal exactly when the selected fields agree
pub proof fn theorem_mo_cmp(a: MOEntryV, b: MOEntryV, c: MOEntryV, o: EntryCmpByOptions)
    ensures
        good(mo_cmp(a, b, o), mo_cmp(b, a, o), mo_cmp(b, c, o), mo_cmp(c, b, o), mo_cmp(a, c, o), mo_cmp(c, a, o)),
        mo_cmp(a, a, o) == Ordering::Equal,
        (mo_cmp(a, b, o) == Ordering::Equal) == mo_agree(a, b, o),
{
    lemma_text_order();
    lemma_text_good(otext0(a.msgctxt), otext0(b.msgctxt), otext0(c.msgctxt));
    lemma_text_good(otext0(a.msgid_plural), otext0(b.msgid_plural), otext0(c.msgid_plural));
    lemma_bag(text_ord(), a.msgstr_plural, b.msgstr_plural, c.msgstr_plural);
    lemma_bag(text_ord(), a.msgstr_plural, a.msgstr_plural, c.msgstr_plural);
    lemma_text_good(a.msgid, b.msgid, c.msgid);
    lemma_text_good(otext0(a.msgstr), otext0(b.msgstr), otext0(c.msgstr));
}
pub proof fn theorem_po_cmp(a: POEntryV, b: POEntryV, c: POEntryV, o: EntryCmpByOptions)
    ensures
        good(po_cmp(a, b, o), po_cmp(b, a, o), po_cmp(b, c, o), po_cmp(c, b, o), po_cmp(a, c, o), po_cmp(c, a, o)),
        po_cmp(a, a, o) == Ordering::Equal,
        (po_cmp(a, b, o) == Ordering::Equal) == po_agree(a, b, o),
{
    lemma_text_order();
    lemma_pair_order();
    lemma_bag(pair_ord(), a.occurrences, b.occurrences, c.occurrences);
    lemma_bag(pair_ord(), a.occurrences, a.occurrences, c.occurrences);
    lemma_bag(text_ord(), a.flags, b.flags, c.flags);
    lemma_bag(text_ord(), a.flags, a.flags, c.flags);
    theorem_mo_cmp(mo_part(a), mo_part(b), mo_part(c), o);
}
/// "the relation is transitive", in the usual form
pub proof fn theorem_cmp_transitive(a: POEntryV, b: POEntryV, c: POEntryV, o: EntryCmpByOptions)
    requires po_cmp(a, b, o) != Ordering::Greater, po_cmp(b, c, o) != Ordering::Greater,
    ensures po_cmp(a, c, o) != Ordering::Greater,
{
    theorem_po_cmp(a, b, c, o);
}

// ---------------------------------------------------------------------
// Trusted contracts of the comparisons and of sort

pub trait VxOrd {
    spec fn ord_sv(&self, o: &Self) -> Ordering;
    fn vx_lt_(&self, o: &Self) -> (r: bool)
        ensures r == (self.ord_sv(o) == Ordering::Less);
}
pub fn vx_lt<A: VxOrd>(a: &A, b: &A) -> (r: bool)
    ensures r == (a.ord_sv(b) == Ordering::Less),
{ a.vx_lt_(b) }
impl VxOrd for String {
    open spec fn ord_sv(&self, o: &String) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_lt_(&self, o: &String) -> (r: bool) { self < o }
}
impl<'a> VxOrd for &'a String {
    open spec fn ord_sv(&self, o: &&'a String) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_lt_(&self, o: &&'a String) -> (r: bool) { self < o }
}
impl<'a> VxOrd for &'a str {
    open spec fn ord_sv(&self, o: &&'a str) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_lt_(&self, o: &&'a str) -> (r: bool) { self < o }
}
impl VxOrd for Vec<String> {
    open spec fn ord_sv(&self, o: &Vec<String>) -> Ordering { seq_cmp(vx_strs(self@), vx_strs(o@), text_ord()) }
    #[verifier::external_body]
    fn vx_lt_(&self, o: &Vec<String>) -> (r: bool) { self < o }
}
impl VxOrd for Vec<(String, String)> {
    open spec fn ord_sv(&self, o: &Vec<(String, String)>) -> Ordering { seq_cmp(vx_pairs(self@), vx_pairs(o@), pair_ord()) }
    #[verifier::external_body]
    fn vx_lt_(&self, o: &Vec<(String, String)>) -> (r: bool) { self < o }
}
impl VxCmp<Vec<String>> for Vec<String> {
    open spec fn cmp_sv(&self, o: &Vec<String>) -> Ordering { seq_cmp(vx_strs(self@), vx_strs(o@), text_ord()) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Vec<String>) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp<Vec<(String, String)>> for Vec<(String, String)> {
    open spec fn cmp_sv(&self, o: &Vec<(String, String)>) -> Ordering { seq_cmp(vx_pairs(self@), vx_pairs(o@), pair_ord()) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Vec<(String, String)>) -> (r: Ordering) { self.cmp(o) }
}
/// `t` has the items of `s` in their order
#[verifier::opaque]
pub open spec fn is_sort_of<T>(s: Seq<T>, t: Seq<T>, ord: spec_fn(T, T) -> Ordering) -> bool {
    s.to_multiset() == t.to_multiset() && is_sorted(t, ord)
}
pub trait VxSort: Sized {
    spec fn sort_sv(self, r: Self) -> bool;
    fn vx_sort_(&mut self)
        ensures old(self).sort_sv(*final(self));
}
pub fn vx_sort<A: VxSort>(a: &mut A)
    ensures old(a).sort_sv(*final(a)),
{ a.vx_sort_() }
impl VxSort for Vec<String> {
    open spec fn sort_sv(self, r: Vec<String>) -> bool {
        is_sort_of(vx_strs(self@), vx_strs(r@), text_ord())
    }
    #[verifier::external_body]
    fn vx_sort_(&mut self) { self.sort() }
}
impl VxSort for Vec<(String, String)> {
    open spec fn sort_sv(self, r: Vec<(String, String)>) -> bool {
        is_sort_of(vx_pairs(self@), vx_pairs(r@), pair_ord())
    }
    #[verifier::external_body]
    fn vx_sort_(&mut self) { self.sort() }
}
/// trusted: the clone of a pair of texts
pub broadcast axiom fn axiom_pair_clone(a: (String, String), b: (String, String))
    requires #[trigger] vstd::pervasive::cloned(a, b),
    ensures a.0@ == b.0@, a.1@ == b.1@;
pub broadcast proof fn lemma_pairs_clone(a: Vec<(String, String)>, b: Vec<(String, String)>)
    requires
        #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b),
        a@.len() == b@.len(),
        forall|i: int| 0 <= i < a@.len() ==> vstd::pervasive::cloned(#[trigger] a@[i], b@[i]),
    ensures vx_pairs(a@) == vx_pairs(b@),
{
    broadcast use axiom_pair_clone;
    assert forall|i: int| 0 <= i < a@.len() implies vx_pairs(a@)[i] == vx_pairs(b@)[i] by {
        assert(vstd::pervasive::cloned(a@[i], b@[i]));
    }
    assert(vx_pairs(a@) =~= vx_pairs(b@));
}
/// sorting gives the sorted list
pub broadcast proof fn lemma_sort_strs(a: Vec<String>, r: Vec<String>)
    requires #[trigger] a.sort_sv(r),
    ensures vx_strs(r@) == sorted(vx_strs(a@), text_ord()),
{
    reveal(is_sort_of);
    lemma_text_order();
    lemma_sorted(vx_strs(a@), vx_strs(r@), text_ord());
}
pub broadcast proof fn lemma_sort_pairs(a: Vec<(String, String)>, r: Vec<(String, String)>)
    requires #[trigger] a.sort_sv(r),
    ensures vx_pairs(r@) == sorted(vx_pairs(a@), pair_ord()),
{
    reveal(is_sort_of);
    lemma_pair_order();
    lemma_sorted(vx_pairs(a@), vx_pairs(r@), pair_ord());
}
/// the sides of a comparison exchanged
pub broadcast proof fn lemma_text_flip(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] text_cmp(a, b) == flip(text_cmp(b, a)), (text_cmp(a, b) == Ordering::Equal) == (a == b),
{
    lemma_text_good(a, b, a);
}
pub broadcast proof fn lemma_strs_flip(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures #[trigger] seq_cmp(a, b, text_ord()) == flip(seq_cmp(b, a, text_ord())), (seq_cmp(a, b, text_ord()) == Ordering::Equal) == (a == b),
{
    lemma_text_order();
    lemma_seq_good(text_ord(), a, b, a);
    lemma_seq_equal(text_ord(), a, b);
}
pub broadcast proof fn lemma_pairs_flip(a: Seq<(Seq<char>, Seq<char>)>, b: Seq<(Seq<char>, Seq<char>)>)
    ensures #[trigger] seq_cmp(a, b, pair_ord()) == flip(seq_cmp(b, a, pair_ord())), (seq_cmp(a, b, pair_ord()) == Ordering::Equal) == (a == b),
{
    lemma_pair_order();
    lemma_seq_good(pair_ord(), a, b, a);
    lemma_seq_equal(pair_ord(), a, b);
}
pub broadcast group group_cmp { lemma_pairs_clone, lemma_sort_strs, lemma_sort_pairs, lemma_text_flip, lemma_strs_flip, lemma_pairs_flip }
} // verus!
