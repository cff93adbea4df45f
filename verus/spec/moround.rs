verus! {
// ---------------------------------------------------------------------
// Reading the written metadata gives the same map (C08, C16)

proof fn lemma_meta_line(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<char>)
    requires k.len() > 0, !k.contains(':'), trim(v) == v,
    ensures meta_line(m, k + seq![':', ' '] + v) == m.insert(k, v),
{
    let l = k + seq![':', ' '] + v;
    assert forall|i: int| 0 <= i < k.len() implies l[i] != ':' by { assert(l[i] == k[i]); }
    lemma_cpos_is(l, ':', k.len() as int);
    assert(l.take(k.len() as int) =~= k);
    let r = l.skip(k.len() as int + 1);
    assert(r =~= seq![' '] + v);
    assert(r.skip(1) =~= v);
    assert(trim_start(r) == trim_start(v));
}
pub proof fn lemma_meta_back(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, n: int)
    requires clean_meta(m), is_meta_order(m, ps), 0 <= n <= ps.len(),
    ensures ({
        let r = meta_lines(Map::empty(), meta_lines_of(ps).take(n));
        &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) ==> m.contains_key(k) && m[k] == r[k]
        &&& forall|i: int| 0 <= i < n ==> r.contains_key((#[trigger] ps[i]).0)
    }),
    decreases n,
{
    if n > 0 {
        lemma_meta_back(m, ps, n - 1);
        let l = meta_lines_of(ps);
        assert(l.take(n).drop_last() =~= l.take(n - 1));
        assert(l.take(n).last() == l[n - 1]);
        assert(m.contains_key(ps[n - 1].0));
        lemma_meta_line(meta_lines(Map::empty(), l.take(n - 1)), ps[n - 1].0, ps[n - 1].1);
    }
}
pub proof fn theorem_meta_back(m: Map<Seq<char>, Seq<char>>, t: Seq<char>)
    requires clean_meta(m), is_meta_text(m, t),
    ensures meta_lines(Map::empty(), split(t, '\n')) == m,
{
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| #[trigger] is_meta_order(m, ps) && t == join(meta_lines_of(ps), seq!['\n']);
    let l = meta_lines_of(ps);
    if ps.len() == 0 {
        assert(t =~= Seq::<char>::empty());
        lemma_cpos(t, '\n');
        assert(split(t, '\n') =~= seq![t]);
        assert(seq![t].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(splitn2(t, ':')[0].len() == 0);
        reveal_with_fuel(meta_lines, 2);
        assert(m =~= Map::empty());
    } else {
        assert forall|i: int| 0 <= i < l.len() implies !(#[trigger] l[i]).contains('\n') by {
            assert(m.contains_key(ps[i].0));
            if l[i].contains('\n') {
                let j = choose|j: int| 0 <= j < l[i].len() && l[i][j] == '\n';
                let (k, v) = (ps[i].0, ps[i].1);
                if j < k.len() { assert(k[j] == '\n'); assert(k.contains('\n')); }
                else if j >= k.len() + 2 { assert(v[j - k.len() - 2] == '\n'); assert(v.contains('\n')); }
            }
        }
        lemma_split_join(l, '\n');
        lemma_meta_back(m, ps, ps.len() as int);
        assert(l.take(ps.len() as int) =~= l);
        let r = meta_lines(Map::empty(), l);
        assert forall|k: Seq<char>| m.contains_key(k) implies #[trigger] r.contains_key(k) by {
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == k;
            assert(r.contains_key(ps[i].0));
        }
        assert(r =~= m);
    }
}

// ---------------------------------------------------------------------
// C08: reading what was written

pub open spec fn plain_text(s: Seq<char>) -> bool { !s.contains('\u{0}') && !s.contains('\u{4}') }
pub open spec fn clean_mo(e: MOEntryV) -> bool {
    &&& e.msgid.len() > 0 || e.msgctxt is Some
    &&& plain_text(e.msgid) && plain_text(otext(e.msgctxt)) && plain_text(otext(e.msgid_plural)) && plain_text(otext(e.msgstr))
    &&& forall|i: int| 0 <= i < e.msgstr_plural.len() ==> plain_text(#[trigger] e.msgstr_plural[i])
    &&& if e.msgid_plural is Some { e.msgstr_plural.len() > 0 } else { e.msgstr is Some }
}
pub open spec fn clean_mofile(f: MOFileV) -> bool {
    clean_meta(f.metadata) && forall|i: int| 0 <= i < f.entries.len() ==> clean_mo(#[trigger] f.entries[i])
}
/// same msgid, context and plural, same translation or plural translations
pub open spec fn same_mo(a: MOEntryV, e: MOEntryV) -> bool {
    &&& a.msgid == e.msgid && a.msgctxt == e.msgctxt && a.msgid_plural == e.msgid_plural
    &&& if e.msgid_plural is Some { a.msgstr_plural == e.msgstr_plural } else { a.msgstr == e.msgstr && a.msgstr_plural.len() == 0 }
}
proof fn lemma_key_text(e: MOEntryV)
    requires clean_mo(e),
    ensures
        !mo_key(e).contains('\u{0}'),
        mo_key(e).len() > 0,
        split(mo_key(e), '\u{4}') == (match e.msgctxt { Some(c) => seq![c, e.msgid], None => seq![e.msgid] }),
{
    let k = mo_key(e);
    match e.msgctxt {
        Some(c) => {
            let p = seq![c, e.msgid];
            assert(p.skip(1) =~= seq![e.msgid]);
            reveal_with_fuel(join, 3);
            assert(join(p, seq!['\u{4}']) =~= k);
            lemma_split_join(p, '\u{4}');
            if k.contains('\u{0}') {
                let j = choose|j: int| 0 <= j < k.len() && k[j] == '\u{0}';
                if j < c.len() { assert(c[j] == '\u{0}'); assert(c.contains('\u{0}')); }
                else if j > c.len() { assert(e.msgid[j - c.len() - 1] == '\u{0}'); assert(e.msgid.contains('\u{0}')); }
            }
        },
        None => {
            assert(join(seq![e.msgid], seq!['\u{4}']) =~= k);
            lemma_split_join(seq![e.msgid], '\u{4}');
        },
    }
}
pub proof fn lemma_entry_back(e: MOEntryV)
    requires clean_mo(e),
    ensures same_mo(plain_entry(orig(e), trans(e)), e),
{
    lemma_key_text(e);
    let k = mo_key(e);
    match e.msgid_plural {
        Some(pl) => {
            let p = seq![k, pl];
            assert(p.skip(1) =~= seq![pl]);
            reveal_with_fuel(join, 3);
            assert(join(p, seq!['\u{0}']) =~= orig(e));
            assert(!pl.contains('\u{0}'));
            lemma_split_join(p, '\u{0}');
            assert(orig(e)[k.len() as int] == '\u{0}');
            assert(orig(e).contains('\u{0}'));
            assert forall|i: int| 0 <= i < e.msgstr_plural.len() implies !(#[trigger] e.msgstr_plural[i]).contains('\u{0}') by {
                assert(plain_text(e.msgstr_plural[i]));
            }
            lemma_split_join(e.msgstr_plural, '\u{0}');
        },
        None => {},
    }
}
proof fn lemma_utf8_empty(s: Seq<char>)
    requires utf8(s).len() == 0,
    ensures s.len() == 0,
{
    lemma_blen_utf8(s);
    if s.len() > 0 {
        assert(blen(s) == blen(s.drop_last()) + clen(s.last()));
    }
}
/// the metadata is the first string, the messages follow in order
proof fn lemma_meta_first(f: MOFileV, s: Seq<MOEntryV>) -> (e0: MOEntryV)
    requires is_mo_order(f, s), clean_mofile(f),
    ensures
        is_meta_entry(f.metadata, e0),
        s.len() == f.entries.len() + 1,
        s[0] == e0,
        same_items(f.entries, s.skip(1)),
        forall|i: int| 1 <= i < s.len() ==> clean_mo(#[trigger] s[i]),
        is_sorted(s.skip(1), |a: MOEntryV, b: MOEntryV| by_key(a, b)),
{
    let e0 = choose|e: MOEntryV| #[trigger] is_meta_entry(f.metadata, e) && same_items(seq![e] + f.entries, s);
    let all = seq![e0] + f.entries;
    let n = all.len() as int;
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, n) && s == reorder(all, p);
    let g = |a: MOEntryV, b: MOEntryV| by_key(a, b);
    lemma_perm_has(p, n, 0);
    let k0 = choose|k: int| 0 <= k < n && p[k] == 0;
    assert(s[k0] == e0);
    if k0 != 0 {
        assert(g(s[0], s[k0]) != Ordering::Greater);
        assert(p[0] != p[k0]);
        assert(s[0] == f.entries[p[0] - 1]);
        assert(clean_mo(s[0]));
        lemma_key_text(s[0]);
        assert(mo_key(e0) =~= Seq::<char>::empty());
        lemma_blen_utf8(mo_key(e0));
        if utf8(mo_key(s[0])).len() == 0 { lemma_utf8_empty(mo_key(s[0])); }
        assert(false);
    }
    let t = s.skip(1);
    let q = Seq::new((n - 1) as nat, |i: int| p[i + 1] - 1);
    assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] q[i] < n - 1 by { assert(p[i + 1] != p[0]); }
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != j implies q[i] != q[j] by { assert(p[i + 1] != p[j + 1]); }
    assert(is_perm(q, n - 1));
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] t[i] == f.entries[q[i]] by { assert(p[i + 1] != p[0]); assert(t[i] == s[i + 1]); }
    assert(t =~= reorder(f.entries, q));
    assert forall|i: int| 1 <= i < s.len() implies clean_mo(#[trigger] s[i]) by { assert(s[i] == t[i - 1]); assert(t[i - 1] == f.entries[q[i - 1]]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies g(#[trigger] t[i], #[trigger] t[j]) != Ordering::Greater by {
        assert(g(s[i + 1], s[j + 1]) != Ordering::Greater);
    }
    e0
}
proof fn lemma_entries(be: bool, rev: u32, s: Seq<MOEntryV>, b: Seq<u8>, p: Seq<(u32, u32)>, q: Seq<(u32, u32)>, k: int)
    requires
        mo_size(s) <= u32::MAX,
        b == layout(be, rev, s),
        1 <= k <= s.len(),
        p.len() == s.len(), q.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> text_of(b, #[trigger] p[i]) == orig(s[i]),
        forall|i: int| 0 <= i < s.len() ==> text_of(b, #[trigger] q[i]) == trans(s[i]),
        orig(s[0]).len() == 0,
    ensures
        entries_of(b, p, q, k).len() == k - 1,
        forall|i: int| 0 <= i < k - 1 ==> #[trigger] entries_of(b, p, q, k)[i] == plain_entry(orig(s[i + 1]), trans(s[i + 1])),
    decreases k,
{
    assert(text_of(b, p[0]) == orig(s[0]));
    if k > 1 {
        lemma_entries(be, rev, s, b, p, q, k - 1);
        assert(text_of(b, p[k - 1]) == orig(s[k - 1]));
        assert(text_of(b, q[k - 1]) == trans(s[k - 1]));
    }
}
proof fn lemma_magic(be: bool)
    ensures le32(to_bytes(be, MAGIC)) == (if be { MAGIC_SWAPPED } else { MAGIC }), MAGIC != MAGIC_SWAPPED,
{
    if be {
        assert(le32(to_be(MAGIC)) == MAGIC_SWAPPED) by (compute);
    } else {
        lemma_num_bytes(false, MAGIC);
    }
    assert(MAGIC == 0x950412deu32) by (compute);
    assert(MAGIC != MAGIC_SWAPPED) by (compute);
}
proof fn lemma_round_head(be: bool, rev: u32, s: Seq<MOEntryV>)
    requires mo_size(s) <= u32::MAX, rev == 0 || rev == 1,
    ensures head_of(layout(be, rev, s)) == Some(MoHead {
        magic: if be { MAGIC_SWAPPED } else { MAGIC }, version: rev, n: s.len() as u32, t1: 28, t2: (28 + 8 * s.len()) as u32,
    }),
        s.len() <= u32::MAX, 28 + 8 * s.len() <= u32::MAX,
{
    theorem_head(be, rev, s);
    lemma_mo_size(s);
    lemma_magic(be);
    let b = layout(be, rev, s);
    assert(b.subrange(0, 4) =~= to_bytes(be, MAGIC)) by { lemma_parts(be, rev, s); lemma_num_bytes(be, MAGIC); lemma_head_first(be, rev, s); }
}
proof fn lemma_head_first(be: bool, rev: u32, s: Seq<MOEntryV>)
    ensures layout(be, rev, s).len() >= 4, layout(be, rev, s).subrange(0, 4) == to_bytes(be, MAGIC),
{
    lemma_parts(be, rev, s);
    lemma_num_bytes(be, MAGIC);
    let h = head_bytes(be, rev, s);
    assert(layout(be, rev, s).subrange(0, 4) =~= to_bytes(be, MAGIC));
}
/// C08 and the MO half of C16
pub proof fn theorem_mo_round(f: MOFileV, be: bool, rev: u32, b: Seq<u8>, o: MOFileV) -> (t: Seq<MOEntryV>)
    requires is_mo_bytes(f, be, rev, b), clean_mofile(f), rev == 0 || rev == 1,
    ensures
        is_mo(b),
        same_items(f.entries, t),
        is_sorted(t, |a: MOEntryV, b: MOEntryV| by_key(a, b)),
        mo_file(b, o).entries.len() == t.len(),
        forall|i: int| 0 <= i < t.len() ==> same_mo(#[trigger] mo_file(b, o).entries[i], t[i]),
        mo_file(b, o).metadata == f.metadata,
{
    broadcast use axiom_lossy;
    let s = choose|s: Seq<MOEntryV>| #[trigger] is_mo_order(f, s) && b == layout(be, rev, s) && mo_size(s) <= u32::MAX;
    let e0 = lemma_meta_first(f, s);
    let n = s.len() as int;
    lemma_round_head(be, rev, s);
    let h = head_of(b)->0;
    let p = table(be, b, h.t1 as int, n);
    let q = table(be, b, h.t2 as int, n);
    assert(is_be(h.magic) == be) by { lemma_magic(be); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] pair_at(be, b, h.t1 as int, i)) is Some by { theorem_strings(be, rev, s, i); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] pair_at(be, b, h.t2 as int, i)) is Some by { theorem_strings(be, rev, s, i); }
    assert forall|i: int| 0 <= i < n implies bytes_of(b, #[trigger] p[i]) == Some(utf8(orig(s[i]))) by { theorem_strings(be, rev, s, i); }
    assert forall|i: int| 0 <= i < n implies bytes_of(b, #[trigger] q[i]) == Some(utf8(trans(s[i]))) by { theorem_strings(be, rev, s, i); }
    assert(is_mo(b));
    assert forall|i: int| 0 <= i < n implies text_of(b, #[trigger] p[i]) == orig(s[i]) by { }
    assert forall|i: int| 0 <= i < n implies text_of(b, #[trigger] q[i]) == trans(s[i]) by { }
    assert(orig(s[0]).len() == 0);
    lemma_entries(be, rev, s, b, p, q, n);
    let t = s.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies same_mo(#[trigger] mo_file(b, o).entries[i], t[i]) by {
        assert(clean_mo(s[i + 1]));
        lemma_entry_back(s[i + 1]);
        assert(entries_of(b, p, q, n)[i] == plain_entry(orig(s[i + 1]), trans(s[i + 1])));
    }
    assert(text_of(b, p[0]) == orig(s[0]));
    assert(text_of(b, q[0]) == trans(s[0]));
    if f.metadata == Map::<Seq<char>, Seq<char>>::empty() {
        let z = trans(e0);
        assert(z =~= Seq::<char>::empty());
        lemma_cpos(z, '\n');
        assert(split(z, '\n') =~= seq![z]);
        assert(seq![z].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(splitn2(z, ':')[0].len() == 0);
        reveal_with_fuel(meta_lines, 2);
    } else {
        theorem_meta_back(f.metadata, e0.msgstr->0);
    }
    t
}
} // verus!
