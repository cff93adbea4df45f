verus! {
// trusted: Extend for Vec, str::as_bytes
pub trait VxExtend<T> {
    spec fn extended(&self, t: T, r: &Self) -> bool;
    fn vx_extend(&mut self, t: T)
        ensures old(self).extended(t, &*final(self));
}
pub open spec fn vx_moptrs(s: Seq<MOEntry>) -> Seq<&'static MOEntry> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a> VxExtend<&'a Vec<MOEntry>> for Vec<&'a MOEntry> {
    open spec fn extended(&self, t: &'a Vec<MOEntry>, r: &Self) -> bool {
        r@ == self@ + vx_moptrs(t@)
    }
    #[verifier::external_body]
    fn vx_extend(&mut self, t: &'a Vec<MOEntry>) { self.extend(t) }
}
impl VxExtend<[u8; 4]> for Vec<u8> {
    open spec fn extended(&self, t: [u8; 4], r: &Self) -> bool { r@ == self@ + t@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, t: [u8; 4]) { self.extend(t) }
}
impl VxExtend<Vec<u8>> for Vec<u8> {
    open spec fn extended(&self, t: Vec<u8>, r: &Self) -> bool { r@ == self@ + t@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, t: Vec<u8>) { self.extend(t) }
}
impl<'a> VxExtend<&'a [u8]> for Vec<u8> {
    open spec fn extended(&self, t: &'a [u8], r: &Self) -> bool { r@ == self@ + t@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, t: &'a [u8]) { self.extend(t) }
}
pub trait VxBytes {
    fn vx_as_bytes(&self) -> &[u8];
}
impl VxBytes for String {
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8])
        ensures r@ == vstd::utf8::encode_utf8(self@),
    { self.as_bytes() }
}
impl VxInto<Vec<u8>> for Vec<u8> {
    open spec fn into_spec(self, t: Vec<u8>) -> bool { t@ == self@ }
    fn vx_into(self) -> (r: Vec<u8>) { self }
}

// ---------------------------------------------------------------------
// The MO format (C09)

/// the key of a message: context, EOT, msgid
pub open spec fn mo_key(e: MOEntryV) -> Seq<char> {
    match e.msgctxt { Some(c) => c.push('\u{4}') + e.msgid, None => e.msgid }
}
pub open spec fn orig(e: MOEntryV) -> Seq<char> {
    match e.msgid_plural { Some(p) => mo_key(e).push('\u{0}') + p, None => mo_key(e) }
}
pub open spec fn trans(e: MOEntryV) -> Seq<char> {
    if e.msgid_plural is Some { join(e.msgstr_plural, seq!['\u{0}']) } else { otext(e.msgstr) }
}
pub open spec fn origs(s: Seq<MOEntryV>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| orig(s[i])) }
pub open spec fn transs(s: Seq<MOEntryV>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| trans(s[i])) }
/// NUL terminated texts one after the other
pub open spec fn cat(t: Seq<Seq<char>>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else { cat(t.drop_last()) + t.last().push('\u{0}') }
}
/// the first `k` pairs of the table of the texts `t` that start at byte `start`
pub open spec fn tab(be: bool, t: Seq<Seq<char>>, start: int, k: int) -> Seq<u8>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else {
        tab(be, t, start, k - 1) + to_bytes(be, blen(t[k - 1]) as u32) + to_bytes(be, (start + blen(cat(t.take(k - 1)))) as u32)
    }
}
pub open spec fn key_start(s: Seq<MOEntryV>) -> int { 28 + 16 * s.len() as int }
pub open spec fn value_start(s: Seq<MOEntryV>) -> int { key_start(s) + blen(cat(origs(s))) }
pub open spec fn layout(be: bool, rev: u32, s: Seq<MOEntryV>) -> Seq<u8> {
    Seq::<u8>::empty() + to_bytes(be, MAGIC) + to_bytes(be, rev) + to_bytes(be, s.len() as u32) + to_bytes(be, 28) + to_bytes(be, (28 + 8 * s.len()) as u32)
        + seq![0u8, 0u8, 0u8, 0u8] + to_bytes(be, key_start(s) as u32)
        + (tab(be, origs(s), key_start(s), s.len() as int) + tab(be, transs(s), value_start(s), s.len() as int))
        + vstd::utf8::encode_utf8(cat(origs(s))) + vstd::utf8::encode_utf8(cat(transs(s)))
}
pub open spec fn entry_size(e: MOEntryV) -> nat { 18 + blen(orig(e)) + blen(trans(e)) }
pub open spec fn mo_size(s: Seq<MOEntryV>) -> nat { 28 + sum(s, |e: MOEntryV| entry_size(e)) }
pub proof fn lemma_cat_step(t: Seq<Seq<char>>, k: int)
    requires 0 <= k < t.len(),
    ensures
        cat(t.take(k + 1)) == cat(t.take(k)) + t[k].push('\u{0}'),
        blen(cat(t.take(k + 1))) == blen(cat(t.take(k))) + blen(t[k]) + 1,
{
    assert(t.take(k + 1).drop_last() =~= t.take(k));
    lemma_blen_add(cat(t.take(k)), t[k].push('\u{0}'));
    assert(t[k].push('\u{0}').drop_last() =~= t[k]);
}
pub proof fn lemma_mo_size(s: Seq<MOEntryV>)
    ensures mo_size(s) == value_start(s) + blen(cat(transs(s))),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        let n = d.len() as int;
        lemma_mo_size(d);
        lemma_cat_step(origs(s), n);
        lemma_cat_step(transs(s), n);
        assert(origs(s).take(n) =~= origs(d));
        assert(transs(s).take(n) =~= transs(d));
        assert(origs(s).take(n + 1) =~= origs(s));
        assert(transs(s).take(n + 1) =~= transs(s));
    } else {
        assert(origs(s) =~= Seq::empty());
        assert(transs(s) =~= Seq::empty());
    }
}
pub proof fn lemma_cat_mono(t: Seq<Seq<char>>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures blen(cat(t.take(a))) + (b - a) <= blen(cat(t.take(b))),
    decreases b - a,
{
    if a < b {
        lemma_cat_mono(t, a, b - 1);
        lemma_cat_step(t, b - 1);
    }
}

/// the message that stands for the metadata
pub open spec fn is_meta_entry(m: Map<Seq<char>, Seq<char>>, e: MOEntryV) -> bool {
    &&& e.msgid.len() == 0 && e.msgid_plural is None && e.msgstr_plural.len() == 0 && e.msgctxt is None
    &&& if m == Map::<Seq<char>, Seq<char>>::empty() { e.msgstr is None } else { e.msgstr is Some && is_meta_text(m, e.msgstr->0) }
}
pub open spec fn by_key(a: MOEntryV, b: MOEntryV) -> Ordering { text_cmp(mo_key(a), mo_key(b)) }
/// the messages in the order in which they are written
pub open spec fn is_mo_order(f: MOFileV, s: Seq<MOEntryV>) -> bool {
    &&& is_sorted(s, |a: MOEntryV, b: MOEntryV| by_key(a, b))
    &&& exists|e: MOEntryV| #[trigger] is_meta_entry(f.metadata, e) && same_items(seq![e] + f.entries, s)
}
/// fits into the 32 bit offsets of the format
pub open spec fn mo_fits(f: MOFileV) -> bool {
    forall|e: MOEntryV| #[trigger] is_meta_entry(f.metadata, e) ==> mo_size(seq![e] + f.entries) <= u32::MAX
}
pub open spec fn is_mo_bytes(f: MOFileV, be: bool, rev: u32, b: Seq<u8>) -> bool {
    exists|s: Seq<MOEntryV>| #[trigger] is_mo_order(f, s) && b == layout(be, rev, s) && mo_size(s) <= u32::MAX
}
pub proof fn lemma_by_key()
    ensures
        is_preorder(|a: MOEntryV, b: MOEntryV| by_key(a, b)),
        is_preorder(|a: &MOEntry, b: &MOEntry| by_key(a@, b@)),
{
    let f = |a: MOEntryV, b: MOEntryV| by_key(a, b);
    let g = |a: &MOEntry, b: &MOEntry| by_key(a@, b@);
    assert forall|a: MOEntryV, b: MOEntryV| #[trigger] f(a, b) == flip(f(b, a)) by { lemma_text_cmp(mo_key(a), mo_key(b), mo_key(a)); }
    assert forall|a: MOEntryV, b: MOEntryV, c: MOEntryV| #[trigger] f(a, b) != Ordering::Greater && #[trigger] f(b, c) != Ordering::Greater
        implies f(a, c) != Ordering::Greater by { lemma_text_cmp(mo_key(a), mo_key(b), mo_key(c)); }
    assert forall|a: &MOEntry, b: &MOEntry| #[trigger] g(a, b) == flip(g(b, a)) by { lemma_text_cmp(mo_key(a@), mo_key(b@), mo_key(a@)); }
    assert forall|a: &MOEntry, b: &MOEntry, c: &MOEntry| #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater
        implies g(a, c) != Ordering::Greater by { lemma_text_cmp(mo_key(a@), mo_key(b@), mo_key(c@)); }
}
/// the sorted references are an order in which the file may be written
pub proof fn lemma_written(f: MOFileV, e: &MOEntry, l: Seq<&MOEntry>, s: Seq<&MOEntry>)
    requires
        is_meta_entry(f.metadata, e@),
        vx_morefs(l) == seq![e@] + f.entries,
        same_items(l, s),
        is_sorted(s, |a: &MOEntry, b: &MOEntry| by_key(a@, b@)),
        mo_fits(f),
    ensures
        is_mo_order(f, vx_morefs(s)),
        mo_size(vx_morefs(s)) <= u32::MAX,
        s.len() == f.entries.len() + 1,
{
    let v = vx_morefs(s);
    let w = vx_morefs(l);
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, l.len() as int) && s == reorder(l, p);
    assert(v =~= reorder(w, p));
    assert(same_items(w, v));
    let g = |a: &MOEntry, b: &MOEntry| by_key(a@, b@);
    let h = |a: MOEntryV, b: MOEntryV| by_key(a, b);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies h(#[trigger] v[i], #[trigger] v[j]) != Ordering::Greater by {
        assert(g(s[i], s[j]) != Ordering::Greater);
    }
    lemma_sum_perm(w, p, |e: MOEntryV| entry_size(e));
}
pub proof fn lemma_join_push(p: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures join(p.push(x), sep) == (if p.len() == 0 { x } else { join(p, sep) + sep + x }),
    decreases p.len(),
{
    if p.len() == 1 {
        assert(p.push(x).skip(1) =~= seq![x]);
        assert(join(seq![x], sep) =~= x);
    } else if p.len() > 1 {
        lemma_join_push(p.skip(1), x, sep);
        assert(p.push(x).skip(1) =~= p.skip(1).push(x));
        assert(join(p.push(x), sep) =~= join(p, sep) + sep + x);
    }
}
} // verus!
