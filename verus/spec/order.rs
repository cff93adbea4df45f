verus! {
use core::cmp::Ordering;
// ---------------------------------------------------------------------
// Orders and sorting

pub open spec fn flip(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn is_preorder<T>(ord: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] ord(a, b) == flip(ord(b, a))
    &&& forall|a: T, b: T, c: T| #[trigger] ord(a, b) != Ordering::Greater && #[trigger] ord(b, c) != Ordering::Greater
            ==> ord(a, c) != Ordering::Greater
}
pub open spec fn is_sorted<T>(s: Seq<T>, ord: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> ord(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
/// a permutation of the numbers below `n`
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && p.no_duplicates()
}
pub open spec fn reorder<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> {
    Seq::new(p.len(), |i: int| s[p[i]])
}
/// `t` has the items of `s` in some order
pub open spec fn same_items<T>(s: Seq<T>, t: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] is_perm(p, s.len() as int) && t == reorder(s, p)
}

/// bytes in lexicographic order
pub open spec fn blt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] }
    else { blt(a.skip(1), b.skip(1)) }
}
pub open spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering {
    if a == b { Ordering::Equal } else if blt(a, b) { Ordering::Less } else { Ordering::Greater }
}
/// the order of texts: the one of their UTF-8 form
pub open spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering {
    bytes_cmp(vstd::utf8::encode_utf8(a), vstd::utf8::encode_utf8(b))
}
pub proof fn lemma_blt_total(a: Seq<u8>, b: Seq<u8>)
    ensures a == b || blt(a, b) || blt(b, a), !(blt(a, b) && blt(b, a)), !blt(a, a),
    decreases a.len(),
{
    lemma_blt_irr(a);
    if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    } else if a.len() > 0 && b.len() > 0 {
        lemma_blt_total(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    }
}
pub proof fn lemma_blt_irr(a: Seq<u8>)
    ensures !blt(a, a),
    decreases a.len(),
{
    if a.len() > 0 { lemma_blt_irr(a.skip(1)); }
}
pub proof fn lemma_blt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires blt(a, b), blt(b, c),
    ensures blt(a, c),
    decreases a.len(),
{
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_blt_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
pub proof fn lemma_text_cmp(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        text_cmp(a, b) == flip(text_cmp(b, a)),
        text_cmp(a, a) == Ordering::Equal,
        text_cmp(a, b) != Ordering::Greater && text_cmp(b, c) != Ordering::Greater ==> text_cmp(a, c) != Ordering::Greater,
        text_cmp(a, b) == Ordering::Less && text_cmp(b, c) == Ordering::Less ==> text_cmp(a, c) == Ordering::Less,
{
    let (x, y, z) = (vstd::utf8::encode_utf8(a), vstd::utf8::encode_utf8(b), vstd::utf8::encode_utf8(c));
    lemma_blt_total(x, y);
    lemma_blt_total(y, z);
    lemma_blt_total(x, z);
    if blt(x, y) && blt(y, z) { lemma_blt_trans(x, y, z); }
}

pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires vstd::utf8::encode_utf8(a) == vstd::utf8::encode_utf8(b),
    ensures a == b,
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}

// trusted: str::cmp and the sort methods of slices
pub trait VxCmp<R: ?Sized> {
    spec fn cmp_sv(&self, o: &R) -> Ordering;
    fn vx_cmp(&self, o: &R) -> (r: Ordering)
        ensures r == self.cmp_sv(o);
}
impl VxCmp<String> for String {
    open spec fn cmp_sv(&self, o: &String) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &String) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp<str> for str {
    open spec fn cmp_sv(&self, o: &str) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &str) -> (r: Ordering) { self.cmp(o) }
}
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(ord): Ghost<spec_fn(T, T) -> Ordering>)
    requires
        forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
        forall|a: T, b: T, o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == ord(a, b),
        is_preorder(ord),
    ensures
        same_items(old(v)@, final(v)@),
        is_sorted(final(v)@, ord),
{ v.sort_by(|a, b| f(a, b)) }

/// reordering does not change a sum
pub open spec fn sum<T>(s: Seq<T>, f: spec_fn(T) -> nat) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last(), f) + f(s.last()) }
}
pub proof fn lemma_sum_remove<T>(s: Seq<T>, i: int, f: spec_fn(T) -> nat)
    requires 0 <= i < s.len(),
    ensures sum(s, f) == sum(s.remove(i), f) + f(s[i]),
    decreases s.len(),
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        lemma_sum_remove(s.drop_last(), i, f);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
pub proof fn lemma_sum_perm<T>(s: Seq<T>, p: Seq<int>, f: spec_fn(T) -> nat)
    requires is_perm(p, s.len() as int),
    ensures sum(reorder(s, p), f) == sum(s, f),
    decreases s.len(),
{
    if s.len() > 0 {
        let n = s.len() as int;
        let l = p.last();
        let s2 = s.remove(l);
        let p2 = Seq::new((n - 1) as nat, |i: int| if p[i] > l { p[i] - 1 } else { p[i] });
        assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] p2[i] < n - 1 by { assert(p[i] != p[n - 1]); }
        assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != j implies p2[i] != p2[j] by {
            assert(p[i] != p[j]);
            assert(p[i] != p[n - 1] && p[j] != p[n - 1]);
        }
        lemma_sum_perm(s2, p2, f);
        assert forall|i: int| 0 <= i < n - 1 implies reorder(s, p)[i] == reorder(s2, p2)[i] by { assert(p[i] != p[n - 1]); }
        assert(reorder(s, p).drop_last() =~= reorder(s2, p2));
        lemma_sum_remove(s, l, f);
    }
}
/// a permutation has every number
pub proof fn lemma_perm_has(p: Seq<int>, n: int, x: int)
    requires is_perm(p, n), 0 <= x < n,
    ensures exists|k: int| 0 <= k < n && p[k] == x,
    decreases n,
{
    if !(exists|k: int| 0 <= k < n && p[k] == x) {
        // squeeze x out: n numbers below n - 1
        let l = p[n - 1];
        if n == 1 {
            assert(p[0] == 0);
        } else {
            let sq = |y: int| if y > x { y - 1 } else { y };
            let r = Seq::new((n - 1) as nat, |i: int| { let y = sq(p[i]); let z = sq(l); if y > z { y - 1 } else { y } });
            // r is a permutation of n - 1 numbers below n - 2
            assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] r[i] < n - 2 by {
                assert(p[i] != x && p[n - 1] != x && p[i] != p[n - 1]);
            }
            assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != j implies r[i] != r[j] by {
                assert(p[i] != x && p[j] != x && p[n - 1] != x && p[i] != p[n - 1] && p[j] != p[n - 1] && p[i] != p[j]);
            }
            assert(is_perm(r, n - 1)) by { assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] r[i] < n - 1 by {} }
            lemma_perm_has(r, n - 1, n - 2);
        }
    }
}
} // verus!
