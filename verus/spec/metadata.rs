verus! {
// ---------------------------------------------------------------------
// The canonical order of the metadata (C16)

pub open spec fn std_keys() -> Seq<Seq<char>> {
    seq![
        "Project-Id-Version"@, "Report-Msgid-Bugs-To"@, "POT-Creation-Date"@, "PO-Revision-Date"@, "Last-Translator"@,
        "Language-Team"@, "Language"@, "MIME-Version"@, "Content-Type"@, "Content-Transfer-Encoding"@, "Plural-Forms"@,
    ]
}
/// natord::compare
pub uninterp spec fn nat_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
/// natural order, equal ones by their bytes
pub open spec fn nat_cmp2(a: Seq<char>, b: Seq<char>) -> Ordering {
    if nat_cmp(a, b) == Ordering::Equal { text_cmp(a, b) } else { nat_cmp(a, b) }
}
/// number of the standard key, 11 for the others
pub open spec fn std_index(k: Seq<char>) -> int
{
    if std_keys().contains(k) { std_keys().index_of(k) } else { 11 }
}
pub open spec fn key_before(a: Seq<char>, b: Seq<char>) -> bool {
    std_index(a) < std_index(b) || (std_index(a) == 11 && std_index(b) == 11 && nat_cmp2(a, b) == Ordering::Less)
}
/// the key and value pairs of `m`, each once and in order
pub open spec fn is_meta_order(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> m.contains_key((#[trigger] ps[i]).0) && m[ps[i].0] == ps[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> key_before((#[trigger] ps[i]).0, (#[trigger] ps[j]).0)
}
pub open spec fn meta_lines_of(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> {
    Seq::new(ps.len(), |i: int| ps[i].0 + seq![':', ' '] + ps[i].1)
}
pub open spec fn is_meta_text(m: Map<Seq<char>, Seq<char>>, t: Seq<char>) -> bool {
    exists|ps: Seq<(Seq<char>, Seq<char>)>| #[trigger] is_meta_order(m, ps) && t == join(meta_lines_of(ps), seq!['\n'])
}
/// the keys and values of C08 and C16
pub open spec fn clean_meta(m: Map<Seq<char>, Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> k.len() > 0 && !k.contains(':') && !k.contains('\n')
        && trim(m[k]) == m[k] && !m[k].contains('\n')
}
pub axiom fn axiom_natord()
    ensures is_preorder(|a: Seq<char>, b: Seq<char>| nat_cmp2(a, b));
pub proof fn lemma_key_self(a: Seq<char>)
    ensures !key_before(a, a),
{
    axiom_natord();
    let n = |a: Seq<char>, b: Seq<char>| nat_cmp2(a, b);
    assert(n(a, a) == flip(n(a, a)));
}
} // verus!
