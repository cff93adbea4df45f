verus! {
// ---------------------------------------------------------------------
// C09, from the contract of MOFile::as_bytes_with
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }

pub proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(utf8(a) + utf8(b) =~= utf8(b));
    } else {
        lemma_utf8_add(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert((a + b)[0] == a[0]);
        assert(utf8(a + b) =~= utf8(a) + utf8(b));
    }
}
pub proof fn lemma_utf8_nul()
    ensures utf8(seq!['\u{0}']) == seq![0u8],
{
    let s = seq!['\u{0}'];
    assert(s.drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    assert(utf8(s) =~= vstd::utf8::encode_scalar('\u{0}' as u32));
    assert(0u32 & 0x7F == 0u32) by (bit_vector);
    assert(vstd::utf8::encode_scalar(0u32) =~= seq![0u8]);
}
proof fn lemma_tab(be: bool, t: Seq<Seq<char>>, start: int, k: int, i: int)
    requires 0 <= i < k,
    ensures
        tab(be, t, start, k).len() == 8 * k,
        tab(be, t, start, k).subrange(8 * i, 8 * i + 4) == to_bytes(be, blen(t[i]) as u32),
        tab(be, t, start, k).subrange(8 * i + 4, 8 * i + 8) == to_bytes(be, (start + blen(cat(t.take(i)))) as u32),
    decreases k,
{
    lemma_num_bytes(be, blen(t[k - 1]) as u32);
    lemma_num_bytes(be, (start + blen(cat(t.take(k - 1)))) as u32);
    let a = tab(be, t, start, k - 1);
    if k == 1 {
        assert(a.len() == 0);
    } else {
        let j = if i < k - 1 { i } else { 0 };
        lemma_tab(be, t, start, k - 1, j);
    }
    let b = tab(be, t, start, k);
    if i < k - 1 {
        assert(b.subrange(8 * i, 8 * i + 4) =~= a.subrange(8 * i, 8 * i + 4));
        assert(b.subrange(8 * i + 4, 8 * i + 8) =~= a.subrange(8 * i + 4, 8 * i + 8));
    } else {
        assert(b.subrange(8 * i, 8 * i + 4) =~= to_bytes(be, blen(t[i]) as u32));
        assert(b.subrange(8 * i + 4, 8 * i + 8) =~= to_bytes(be, (start + blen(cat(t.take(i)))) as u32));
    }
}
proof fn lemma_tab_len(be: bool, t: Seq<Seq<char>>, start: int, k: int)
    requires 0 <= k,
    ensures tab(be, t, start, k).len() == 8 * k,
{
    if k > 0 { lemma_tab(be, t, start, k, 0); }
}
proof fn lemma_cat_split(t: Seq<Seq<char>>, i: int) -> (rest: Seq<char>)
    requires 0 <= i < t.len(),
    ensures cat(t) == cat(t.take(i)) + t[i] + seq!['\u{0}'] + rest,
    decreases t.len(),
{
    let d = t.drop_last();
    if i == t.len() - 1 {
        assert(d =~= t.take(i));
        assert(cat(t) =~= cat(t.take(i)) + t[i] + seq!['\u{0}'] + Seq::<char>::empty());
        Seq::empty()
    } else {
        let r = lemma_cat_split(d, i);
        assert(d.take(i) =~= t.take(i));
        let rest = r + t.last().push('\u{0}');
        assert(cat(t) =~= cat(t.take(i)) + t[i] + seq!['\u{0}'] + rest);
        rest
    }
}
/// the bytes of a text and its NUL in the bytes of all of them
proof fn lemma_cat_bytes(t: Seq<Seq<char>>, i: int)
    requires 0 <= i < t.len(),
    ensures ({
        let b = utf8(cat(t));
        let o = blen(cat(t.take(i))) as int;
        let l = blen(t[i]) as int;
        o + l + 1 <= b.len() && b.subrange(o, o + l) == utf8(t[i]) && b[o + l] == 0
    }),
{
    let rest = lemma_cat_split(t, i);
    let (x, y, z) = (cat(t.take(i)), t[i], seq!['\u{0}']);
    lemma_utf8_add(x, y);
    lemma_utf8_add(x + y, z);
    lemma_utf8_add(x + y + z, rest);
    lemma_utf8_nul();
    let b = utf8(cat(t));
    lemma_blen_utf8(x);
    lemma_blen_utf8(y);
    assert(b == utf8(x) + utf8(y) + seq![0u8] + utf8(rest));
    assert(b.subrange(blen(x) as int, (blen(x) + blen(y)) as int) =~= utf8(y));
}
pub open spec fn head_bytes(be: bool, rev: u32, s: Seq<MOEntryV>) -> Seq<u8> {
    Seq::<u8>::empty() + to_bytes(be, MAGIC) + to_bytes(be, rev) + to_bytes(be, s.len() as u32) + to_bytes(be, 28) + to_bytes(be, (28 + 8 * s.len()) as u32)
        + seq![0u8, 0u8, 0u8, 0u8] + to_bytes(be, key_start(s) as u32)
}
proof fn lemma_parts(be: bool, rev: u32, s: Seq<MOEntryV>)
    ensures ({
        let b = layout(be, rev, s);
        let n = s.len() as int;
        let h = head_bytes(be, rev, s);
        let (t1, t2) = (tab(be, origs(s), key_start(s), n), tab(be, transs(s), value_start(s), n));
        let (e1, e2) = (utf8(cat(origs(s))), utf8(cat(transs(s))));
        &&& h.len() == 28 && t1.len() == 8 * n && t2.len() == 8 * n
        &&& e1.len() == blen(cat(origs(s))) && e2.len() == blen(cat(transs(s)))
        &&& b == h + t1 + t2 + e1 + e2
        &&& b.len() == 28 + 16 * n + e1.len() + e2.len()
    }),
{
    let n = s.len() as int;
    lemma_tab_len(be, origs(s), key_start(s), n);
    lemma_tab_len(be, transs(s), value_start(s), n);
    lemma_num_bytes(be, MAGIC);
    lemma_num_bytes(be, rev);
    lemma_num_bytes(be, s.len() as u32);
    lemma_num_bytes(be, 28);
    lemma_num_bytes(be, (28 + 8 * s.len()) as u32);
    lemma_num_bytes(be, key_start(s) as u32);
    lemma_blen_utf8(cat(origs(s)));
    lemma_blen_utf8(cat(transs(s)));
    let h = head_bytes(be, rev, s);
    let (t1, t2) = (tab(be, origs(s), key_start(s), n), tab(be, transs(s), value_start(s), n));
    assert(h + (t1 + t2) =~= h + t1 + t2);
}
proof fn lemma_front<T>(h: Seq<T>, t: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= h.len(),
    ensures (h + t).subrange(a, b) == h.subrange(a, b),
{
    assert((h + t).subrange(a, b) =~= h.subrange(a, b));
}
/// magic number, revision, number of strings and positions of the tables
pub proof fn theorem_head(be: bool, rev: u32, s: Seq<MOEntryV>)
    requires mo_size(s) <= u32::MAX,
    ensures ({
        let b = layout(be, rev, s);
        &&& num_at(be, b, 0) == Some(MAGIC)
        &&& num_at(be, b, 4) == Some(rev)
        &&& num_at(be, b, 8) == Some(s.len() as u32)
        &&& num_at(be, b, 12) == Some(28u32)
        &&& num_at(be, b, 16) == Some((28 + 8 * s.len()) as u32)
        &&& b.len() == mo_size(s)
    }),
{
    hide(layout);
    lemma_parts(be, rev, s);
    lemma_mo_size(s);
    let b = layout(be, rev, s);
    let h = head_bytes(be, rev, s);
    lemma_num_bytes(be, MAGIC);
    lemma_num_bytes(be, rev);
    lemma_num_bytes(be, s.len() as u32);
    lemma_num_bytes(be, 28);
    lemma_num_bytes(be, (28 + 8 * s.len()) as u32);
    lemma_num_bytes(be, key_start(s) as u32);
    let r = tab(be, origs(s), key_start(s), s.len() as int) + tab(be, transs(s), value_start(s), s.len() as int) + utf8(cat(origs(s))) + utf8(cat(transs(s)));
    assert(b =~= h + r);
    lemma_front(h, r, 0, 4);
    lemma_front(h, r, 4, 8);
    lemma_front(h, r, 8, 12);
    lemma_front(h, r, 12, 16);
    lemma_front(h, r, 16, 20);
    assert(h.subrange(0, 4) =~= to_bytes(be, MAGIC));
    assert(h.subrange(4, 8) =~= to_bytes(be, rev));
    assert(h.subrange(8, 12) =~= to_bytes(be, s.len() as u32));
    assert(h.subrange(12, 16) =~= to_bytes(be, 28));
    assert(h.subrange(16, 20) =~= to_bytes(be, (28 + 8 * s.len()) as u32));
}
pub open spec fn key_pair(s: Seq<MOEntryV>, i: int) -> (u32, u32) {
    (blen(orig(s[i])) as u32, (key_start(s) + blen(cat(origs(s).take(i)))) as u32)
}
pub open spec fn value_pair(s: Seq<MOEntryV>, i: int) -> (u32, u32) {
    (blen(trans(s[i])) as u32, (value_start(s) + blen(cat(transs(s).take(i)))) as u32)
}
proof fn lemma_sub<T>(h: Seq<T>, m: Seq<T>, t: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= m.len(),
    ensures (h + m + t).subrange(h.len() + a, h.len() + b) == m.subrange(a, b), b < m.len() ==> (h + m + t)[h.len() + b] == m[b],
{
    assert((h + m + t).subrange(h.len() + a, h.len() + b) =~= m.subrange(a, b));
}
proof fn lemma_key(be: bool, rev: u32, s: Seq<MOEntryV>, i: int)
    requires mo_size(s) <= u32::MAX, 0 <= i < s.len(),
    ensures ({
        let b = layout(be, rev, s);
        let p = key_pair(s, i);
        &&& pair_at(be, b, 28, i) == Some(p)
        &&& bytes_of(b, p) == Some(utf8(orig(s[i])))
        &&& p.1 + p.0 < b.len() && b[p.1 + p.0] == 0
    }),
{
    hide(layout);
    hide(head_bytes);
    hide(tab);
    lemma_parts(be, rev, s);
    lemma_mo_size(s);
    let b = layout(be, rev, s);
    let n = s.len() as int;
    let h = head_bytes(be, rev, s);
    let (t1, t2) = (tab(be, origs(s), key_start(s), n), tab(be, transs(s), value_start(s), n));
    let (e1, e2) = (utf8(cat(origs(s))), utf8(cat(transs(s))));
    let p = key_pair(s, i);
    lemma_tab(be, origs(s), key_start(s), n, i);
    lemma_cat_bytes(origs(s), i);
    let o = blen(cat(origs(s).take(i))) as int;
    let l = blen(orig(s[i])) as int;
    assert(origs(s)[i] == orig(s[i]));
    assert(p.0 == l && p.1 == key_start(s) + o);
    lemma_num_bytes(be, p.0);
    lemma_num_bytes(be, p.1);
    assert(b =~= h + t1 + (t2 + e1 + e2));
    lemma_sub(h, t1, t2 + e1 + e2, 8 * i, 8 * i + 4);
    lemma_sub(h, t1, t2 + e1 + e2, 8 * i + 4, 8 * i + 8);
    assert(b =~= (h + t1 + t2) + e1 + e2);
    lemma_sub(h + t1 + t2, e1, e2, o, o + l);
    lemma_blen_utf8(orig(s[i]));
    if l == 0 { assert(utf8(orig(s[i])) =~= Seq::<u8>::empty()); }
}
proof fn lemma_value(be: bool, rev: u32, s: Seq<MOEntryV>, i: int)
    requires mo_size(s) <= u32::MAX, 0 <= i < s.len(),
    ensures ({
        let b = layout(be, rev, s);
        let p = value_pair(s, i);
        &&& pair_at(be, b, 28 + 8 * s.len() as int, i) == Some(p)
        &&& bytes_of(b, p) == Some(utf8(trans(s[i])))
        &&& p.1 + p.0 < b.len() && b[p.1 + p.0] == 0
    }),
{
    hide(layout);
    hide(head_bytes);
    hide(tab);
    lemma_parts(be, rev, s);
    lemma_mo_size(s);
    let b = layout(be, rev, s);
    let n = s.len() as int;
    let h = head_bytes(be, rev, s);
    let (t1, t2) = (tab(be, origs(s), key_start(s), n), tab(be, transs(s), value_start(s), n));
    let (e1, e2) = (utf8(cat(origs(s))), utf8(cat(transs(s))));
    let p = value_pair(s, i);
    lemma_tab(be, transs(s), value_start(s), n, i);
    lemma_cat_bytes(transs(s), i);
    let o = blen(cat(transs(s).take(i))) as int;
    let l = blen(trans(s[i])) as int;
    assert(transs(s)[i] == trans(s[i]));
    assert(p.0 == l && p.1 == value_start(s) + o);
    lemma_num_bytes(be, p.0);
    lemma_num_bytes(be, p.1);
    assert(b =~= (h + t1) + t2 + (e1 + e2));
    lemma_sub(h + t1, t2, e1 + e2, 8 * i, 8 * i + 4);
    lemma_sub(h + t1, t2, e1 + e2, 8 * i + 4, 8 * i + 8);
    let z = Seq::<u8>::empty();
    assert(b =~= (h + t1 + t2 + e1) + e2 + z);
    lemma_sub(h + t1 + t2 + e1, e2, z, o, o + l);
    lemma_blen_utf8(trans(s[i]));
    if l == 0 { assert(utf8(trans(s[i])) =~= Seq::<u8>::empty()); }
}
/// the tables point to the NUL terminated strings
pub proof fn theorem_strings(be: bool, rev: u32, s: Seq<MOEntryV>, i: int)
    requires mo_size(s) <= u32::MAX, 0 <= i < s.len(),
    ensures ({
        let b = layout(be, rev, s);
        let n = s.len() as int;
        let (p, q) = (key_pair(s, i), value_pair(s, i));
        &&& pair_at(be, b, 28, i) == Some(p) && pair_at(be, b, 28 + 8 * n, i) == Some(q)
        &&& bytes_of(b, p) == Some(utf8(orig(s[i]))) && bytes_of(b, q) == Some(utf8(trans(s[i])))
        &&& p.1 + p.0 < b.len() && b[p.1 + p.0] == 0
        &&& q.1 + q.0 < b.len() && b[q.1 + q.0] == 0
    }),
{
    lemma_key(be, rev, s, i);
    lemma_value(be, rev, s, i);
}
/// up to the first NUL
pub open spec fn upto0(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 || b[0] == 0 { Seq::empty() } else { seq![b[0]] + upto0(b.skip(1)) }
}
proof fn lemma_upto0_add(a: Seq<u8>, c: Seq<u8>)
    ensures upto0(a + seq![0u8] + c) == upto0(a),
    decreases a.len(),
{
    let s = a + seq![0u8] + c;
    if a.len() > 0 && a[0] != 0 {
        lemma_upto0_add(a.skip(1), c);
        assert(s.skip(1) =~= a.skip(1) + seq![0u8] + c);
    } else if a.len() == 0 {
        assert(s[0] == 0);
    }
}
proof fn lemma_upto0_order(x: Seq<u8>, y: Seq<u8>)
    requires blt(upto0(x), upto0(y)),
    ensures blt(x, y),
    decreases x.len(),
{
    if y.len() == 0 || y[0] == 0 {
        assert(upto0(y).len() == 0);
    } else if x.len() > 0 && x[0] != 0 {
        let (u, v) = (upto0(x), upto0(y));
        assert(u[0] == x[0] && v[0] == y[0]);
        assert(u.skip(1) =~= upto0(x.skip(1)));
        assert(v.skip(1) =~= upto0(y.skip(1)));
        if x[0] == y[0] { lemma_upto0_order(x.skip(1), y.skip(1)); }
    }
}
/// the original strings are in non-decreasing order up to their first NUL
pub proof fn theorem_order(f: MOFileV, s: Seq<MOEntryV>, i: int, j: int)
    requires is_mo_order(f, s), 0 <= i < j < s.len(),
    ensures !blt(upto0(utf8(orig(s[j]))), upto0(utf8(orig(s[i])))),
{
    let g = |a: MOEntryV, b: MOEntryV| by_key(a, b);
    assert(g(s[i], s[j]) != Ordering::Greater);
    let (a, b) = (utf8(mo_key(s[i])), utf8(mo_key(s[j])));
    lemma_blt_total(a, b);
    lemma_upto0_key(s[i]);
    lemma_upto0_key(s[j]);
    if blt(upto0(b), upto0(a)) { lemma_upto0_order(b, a); }
}
proof fn lemma_upto0_key(e: MOEntryV)
    ensures upto0(utf8(orig(e))) == upto0(utf8(mo_key(e))),
{
    if e.msgid_plural is Some {
        let (k, p) = (mo_key(e), e.msgid_plural->0);
        assert(orig(e) =~= k + seq!['\u{0}'] + p);
        lemma_utf8_add(k, seq!['\u{0}']);
        lemma_utf8_add(k + seq!['\u{0}'], p);
        lemma_utf8_nul();
        lemma_upto0_add(utf8(k), utf8(p));
    }
}
} // verus!
