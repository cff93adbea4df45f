verus! {
//@@ const rust/src/file/mod.rs METADATA_KEYS_ORDER
// ---------------------------------------------------------------------
// Trusted: natord::compare followed by the order of bytes is a total order
#[verifier::external_body]
pub fn compare_natural_order(a: &str, b: &str) -> (r: Ordering)
    ensures r == nat_cmp(a@, b@),
{ unimplemented!() }
impl<'a, 'b> VxContains<&'b &'a str> for [&'a str; 11] {
    open spec fn contains_spec(&self, t: &'b &'a str) -> bool { vx_strrefs(self@).contains((*t)@) }
    #[verifier::external_body]
    fn vx_contains(&self, t: &'b &'a str) -> (r: bool) { self.contains(t) }
}
/// the order of the keys of two references
pub open spec fn by_name(a: &String, b: &String) -> Ordering { nat_cmp2(a@, b@) }
pub proof fn lemma_by_name()
    ensures is_preorder(|a: &String, b: &String| by_name(a, b)),
{
    axiom_natord();
    let n = |a: Seq<char>, b: Seq<char>| nat_cmp2(a, b);
    let o = |a: &String, b: &String| by_name(a, b);
    assert forall|a: &String, b: &String| #[trigger] o(a, b) == flip(o(b, a)) by { assert(n(a@, b@) == flip(n(b@, a@))); }
    assert forall|a: &String, b: &String, c: &String| #[trigger] o(a, b) != Ordering::Greater && #[trigger] o(b, c) != Ordering::Greater
        implies o(a, c) != Ordering::Greater by {
        assert(n(a@, b@) != Ordering::Greater && n(b@, c@) != Ordering::Greater);
    }
}
/// only equal keys compare equal
pub proof fn lemma_nat_cmp2(a: Seq<char>, b: Seq<char>)
    ensures
        nat_cmp2(a, b) == Ordering::Equal ==> a == b,
        nat_cmp2(a, b) == flip(nat_cmp2(b, a)),
{
    axiom_natord();
    let n = |a: Seq<char>, b: Seq<char>| nat_cmp2(a, b);
    assert(n(a, b) == flip(n(b, a)));
    if nat_cmp2(a, b) == Ordering::Equal {
        lemma_utf8_inj(a, b);
    }
}
/// the standard keys are different
pub proof fn lemma_std_keys()
    ensures
        std_keys().len() == 11,
        forall|i: int| 0 <= i < 11 ==> std_index(#[trigger] std_keys()[i]) == i,
{
    reveal_strlit("Project-Id-Version");
    reveal_strlit("Report-Msgid-Bugs-To");
    reveal_strlit("POT-Creation-Date");
    reveal_strlit("PO-Revision-Date");
    reveal_strlit("Last-Translator");
    reveal_strlit("Language-Team");
    reveal_strlit("Language");
    reveal_strlit("MIME-Version");
    reveal_strlit("Content-Type");
    reveal_strlit("Content-Transfer-Encoding");
    reveal_strlit("Plural-Forms");
    let s = std_keys();
    assert("MIME-Version"@[0] == 'M' && "Content-Type"@[0] == 'C' && "Plural-Forms"@[0] == 'P');
    assert forall|i: int, j: int| 0 <= i < 11 && 0 <= j < 11 && i != j implies s[i] != s[j] by {
        assert(s[i].len() != s[j].len() || s[i][0] != s[j][0]);
    }
    assert(s.no_duplicates());
    assert forall|i: int| 0 <= i < 11 implies std_index(#[trigger] s[i]) == i by {
        assert(s.contains(s[i]));
        let k = s.index_of(s[i]);
        assert(0 <= k < 11 && s[k] == s[i]);
    }
}
pub proof fn lemma_std_index(k: Seq<char>)
    ensures 0 <= std_index(k) <= 11, (std_index(k) == 11) == !std_keys().contains(k), std_index(k) < 11 ==> std_keys()[std_index(k)] == k,
{
    lemma_std_keys();
    if std_keys().contains(k) {
        let j = choose|j: int| 0 <= j < 11 && std_keys()[j] == k;
    }
}
proof fn lemma_key_before(a: Seq<char>, b: Seq<char>)
    ensures !(key_before(a, b) && key_before(b, a)), !key_before(a, a),
{
    lemma_nat_cmp2(a, b);
    lemma_nat_cmp2(a, a);
}
/// C16: the order is determined by the map
pub proof fn theorem_meta_unique(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, qs: Seq<(Seq<char>, Seq<char>)>)
    requires is_meta_order(m, ps), is_meta_order(m, qs),
    ensures ps == qs,
{
    lemma_meta_prefix(m, ps, qs, if ps.len() < qs.len() { ps.len() as int } else { qs.len() as int });
    if ps.len() < qs.len() { lemma_meta_longer(m, ps, qs); }
    if qs.len() < ps.len() { lemma_meta_prefix(m, qs, ps, qs.len() as int); lemma_meta_longer(m, qs, ps); }
    assert forall|i: int| 0 <= i < ps.len() implies ps[i] == qs[i] by {
        assert(ps[i].0 == qs[i].0);
    }
    assert(ps =~= qs);
}
proof fn lemma_meta_longer(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, qs: Seq<(Seq<char>, Seq<char>)>)
    requires is_meta_order(m, ps), is_meta_order(m, qs), ps.len() < qs.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 == qs[i].0,
    ensures false,
{
    let n = ps.len() as int;
    assert(m.contains_key(qs[n].0));
    let l = choose|l: int| 0 <= l < ps.len() && (#[trigger] ps[l]).0 == qs[n].0;
    assert(key_before(qs[l].0, qs[n].0));
    lemma_key_before(qs[n].0, qs[n].0);
}
proof fn lemma_meta_prefix(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, qs: Seq<(Seq<char>, Seq<char>)>, n: int)
    requires is_meta_order(m, ps), is_meta_order(m, qs), 0 <= n <= ps.len(), n <= qs.len(),
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] ps[i]).0 == qs[i].0,
    decreases n,
{
    if n > 0 {
        lemma_meta_prefix(m, ps, qs, n - 1);
        let i = n - 1;
        assert(m.contains_key(ps[i].0));
        assert(m.contains_key(qs[i].0));
        let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).0 == ps[i].0;
        let l = choose|l: int| 0 <= l < ps.len() && (#[trigger] ps[l]).0 == qs[i].0;
        lemma_key_before(ps[i].0, qs[i].0);
        lemma_key_before(ps[i].0, ps[i].0);
        lemma_key_before(qs[i].0, qs[i].0);
        if k < i { assert(ps[k].0 == qs[k].0); assert(key_before(ps[k].0, ps[i].0)); }
        if l < i { assert(ps[l].0 == qs[l].0); assert(key_before(qs[l].0, qs[i].0)); }
        if k > i && l > i {
            assert(key_before(qs[i].0, qs[k].0));
            assert(key_before(ps[i].0, ps[l].0));
        }
    }
}
/// the text of the metadata is determined by the map
pub proof fn theorem_meta_text_unique(m: Map<Seq<char>, Seq<char>>, a: Seq<char>, b: Seq<char>)
    requires is_meta_text(m, a), is_meta_text(m, b),
    ensures a == b,
{
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| #[trigger] is_meta_order(m, ps) && a == join(meta_lines_of(ps), seq!['\n']);
    let qs = choose|ps: Seq<(Seq<char>, Seq<char>)>| #[trigger] is_meta_order(m, ps) && b == join(meta_lines_of(ps), seq!['\n']);
    theorem_meta_unique(m, ps, qs);
}
} // verus!
verus! {
/// after `k` of the standard keys
pub open spec fn meta_part(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> m.contains_key((#[trigger] ps[i]).0) && m[ps[i].0] == ps[i].1 && std_index(ps[i].0) < k
    &&& forall|j: int| 0 <= j < k && m.contains_key(#[trigger] std_keys()[j]) ==> has_key(ps, std_keys()[j])
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> key_before((#[trigger] ps[i]).0, (#[trigger] ps[j]).0)
}
pub open spec fn has_key(ps: Seq<(Seq<char>, Seq<char>)>, k: Seq<char>) -> bool {
    exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == k
}
pub proof fn lemma_has_push(ps: Seq<(Seq<char>, Seq<char>)>, x: (Seq<char>, Seq<char>))
    ensures has_key(ps.push(x), x.0), forall|k: Seq<char>| has_key(ps, k) ==> #[trigger] has_key(ps.push(x), k),
{
    assert(ps.push(x)[ps.len() as int] == x);
    assert forall|k: Seq<char>| has_key(ps, k) implies #[trigger] has_key(ps.push(x), k) by {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == k;
        assert(ps.push(x)[i] == ps[i]);
    }
}
pub proof fn lemma_meta_part(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, qs: Seq<(Seq<char>, Seq<char>)>, k: int)
    requires
        0 <= k < 11, meta_part(m, ps, k),
        qs == (if m.contains_key(std_keys()[k]) { ps.push((std_keys()[k], m[std_keys()[k]])) } else { ps }),
    ensures meta_part(m, qs, k + 1),
{
    lemma_std_keys();
    let x = (std_keys()[k], m[std_keys()[k]]);
    lemma_has_push(ps, x);
    assert(std_index(std_keys()[k]) == k);
    assert forall|j: int| 0 <= j < k + 1 && m.contains_key(#[trigger] std_keys()[j]) implies has_key(qs, std_keys()[j]) by {
        if j < k { assert(has_key(ps, std_keys()[j])); }
    }
}
/// after `k` of the sorted keys
pub open spec fn meta_rest(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, ks: Seq<&String>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key((#[trigger] ks[i])@)
    &&& forall|x: Seq<char>| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == x
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> nat_cmp2((#[trigger] ks[i])@, (#[trigger] ks[j])@) == Ordering::Less
    &&& forall|i: int| 0 <= i < ps.len() ==> m.contains_key((#[trigger] ps[i]).0) && m[ps[i].0] == ps[i].1
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> key_before((#[trigger] ps[i]).0, (#[trigger] ps[j]).0)
    &&& forall|j: int| 0 <= j < 11 && m.contains_key(#[trigger] std_keys()[j]) ==> has_key(ps, std_keys()[j])
    &&& forall|j: int| 0 <= j < k ==> has_key(ps, (#[trigger] ks[j])@)
    &&& forall|i: int, j: int| 0 <= i < ps.len() && k <= j < ks.len() && std_index((#[trigger] ps[i]).0) == 11
            ==> nat_cmp2(ps[i].0, (#[trigger] ks[j])@) == Ordering::Less
}
pub proof fn lemma_meta_sorted(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, k0: Seq<&String>, ks: Seq<&String>)
    requires
        meta_part(m, ps, 11),
        forall|i: int| 0 <= i < k0.len() ==> m.contains_key((#[trigger] k0[i])@),
        forall|x: Seq<char>| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < k0.len() && (#[trigger] k0[i])@ == x,
        forall|i: int, j: int| 0 <= i < j < k0.len() ==> (#[trigger] k0[i])@ != (#[trigger] k0[j])@,
        same_items(k0, ks),
        is_sorted(ks, |a: &String, b: &String| by_name(a, b)),
    ensures meta_rest(m, ps, ks, 0),
{
    let n = k0.len() as int;
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, n) && ks == reorder(k0, p);
    let o = |a: &String, b: &String| by_name(a, b);
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key((#[trigger] ks[i])@) by { assert(ks[i] == k0[p[i]]); }
    assert forall|x: Seq<char>| #[trigger] m.contains_key(x) implies exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == x by {
        let j = choose|i: int| 0 <= i < k0.len() && (#[trigger] k0[i])@ == x;
        lemma_perm_has(p, n, j);
        let i = choose|i: int| 0 <= i < n && p[i] == j;
        assert(ks[i] == k0[j]);
    }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies nat_cmp2((#[trigger] ks[i])@, (#[trigger] ks[j])@) == Ordering::Less by {
        assert(o(ks[i], ks[j]) != Ordering::Greater);
        assert(p[i] != p[j]);
        assert(ks[i] == k0[p[i]] && ks[j] == k0[p[j]]);
        if p[i] < p[j] { assert(k0[p[i]]@ != k0[p[j]]@); } else { assert(k0[p[j]]@ != k0[p[i]]@); }
        lemma_nat_cmp2(ks[i]@, ks[j]@);
    }
}
pub proof fn lemma_meta_rest(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, qs: Seq<(Seq<char>, Seq<char>)>, ks: Seq<&String>, k: int)
    requires
        0 <= k < ks.len(), meta_rest(m, ps, ks, k),
        qs == (if std_keys().contains(ks[k]@) { ps } else { ps.push((ks[k]@, m[ks[k]@])) }),
    ensures meta_rest(m, qs, ks, k + 1),
{
    let x = (ks[k]@, m[ks[k]@]);
    lemma_has_push(ps, x);
    lemma_std_index(ks[k]@);
    if std_keys().contains(ks[k]@) {
        let j = std_index(ks[k]@);
        assert(std_keys()[j] == ks[k]@);
        assert(m.contains_key(std_keys()[j]));
        assert(has_key(qs, ks[k]@));
    } else {
        assert forall|i: int, j: int| 0 <= i < j < qs.len() implies key_before((#[trigger] qs[i]).0, (#[trigger] qs[j]).0) by {
            if j < ps.len() {
                assert(qs[i] == ps[i] && qs[j] == ps[j]);
            } else {
                assert(qs[i] == ps[i]);
                lemma_std_index(ps[i].0);
                if std_index(ps[i].0) == 11 { assert(nat_cmp2(ps[i].0, ks[k]@) == Ordering::Less); }
            }
        }
        assert forall|j: int| 0 <= j < 11 && m.contains_key(#[trigger] std_keys()[j]) implies has_key(qs, std_keys()[j]) by {
            assert(has_key(ps, std_keys()[j]));
        }
        assert forall|i: int, j: int| 0 <= i < qs.len() && k + 1 <= j < ks.len() && std_index((#[trigger] qs[i]).0) == 11
            implies nat_cmp2(qs[i].0, (#[trigger] ks[j])@) == Ordering::Less by {
            if i < ps.len() { assert(qs[i] == ps[i]); } else { assert(nat_cmp2(ks[k]@, ks[j]@) == Ordering::Less); }
        }
    }
    assert forall|j: int| 0 <= j < k + 1 implies has_key(qs, (#[trigger] ks[j])@) by {
        if j < k { assert(has_key(ps, ks[j]@)); }
    }
}
pub proof fn lemma_meta_done(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, ks: Seq<&String>)
    requires meta_rest(m, ps, ks, ks.len() as int),
    ensures is_meta_order(m, ps),
{
    assert forall|x: Seq<char>| #[trigger] m.contains_key(x) implies exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x by {
        let j = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == x;
        assert(has_key(ps, ks[j]@));
    }
}
} // verus!
