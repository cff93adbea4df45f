verus! {
// C15: messages are identified by msgid and context
pub open spec fn same_id(a: POEntryV, b: POEntryV) -> bool {
    a.msgid == b.msgid && a.msgctxt == b.msgctxt
}
/// position of the first message identified like `b`, the length if none is
pub open spec fn id_pos(s: Seq<POEntryV>, b: POEntryV) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if same_id(s[0], b) { 0 }
    else { 1 + id_pos(s.skip(1), b) }
}
pub proof fn lemma_id_pos(s: Seq<POEntryV>, b: POEntryV, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !same_id(#[trigger] s[i], b),
    ensures
        k == s.len() ==> id_pos(s, b) == k,
        k < s.len() && same_id(s[k], b) ==> id_pos(s, b) == k,
    decreases k,
{
    if k > 0 {
        assert(!same_id(s[0], b));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies !same_id(#[trigger] t[i], b) by { assert(t[i] == s[i + 1]); }
        if k < s.len() { assert(t[k - 1] == s[k]); }
        lemma_id_pos(t, b, k - 1);
    }
}
pub proof fn lemma_id_pos_range(s: Seq<POEntryV>, b: POEntryV)
    ensures
        0 <= id_pos(s, b) <= s.len(),
        id_pos(s, b) < s.len() ==> same_id(s[id_pos(s, b)], b),
        forall|i: int| 0 <= i < id_pos(s, b) ==> !same_id(#[trigger] s[i], b),
    decreases s.len(),
{
    if s.len() > 0 && !same_id(s[0], b) {
        let t = s.skip(1);
        lemma_id_pos_range(t, b);
        if id_pos(s, b) < s.len() { assert(t[id_pos(t, b)] == s[id_pos(s, b)]); }
        assert forall|i: int| 0 <= i < id_pos(s, b) implies !same_id(#[trigger] s[i], b) by {
            if i > 0 { assert(t[i - 1] == s[i]); }
        }
    }
}
/// one incoming message: replaces its counterpart or is appended
pub open spec fn merge_one(s: Seq<POEntryV>, b: POEntryV) -> Seq<POEntryV> {
    let p = id_pos(s, b);
    if 0 <= p < s.len() { s.update(p, b) } else { s.push(b) }
}
pub open spec fn merge_in(s: Seq<POEntryV>, o: Seq<POEntryV>) -> Seq<POEntryV>
    decreases o.len()
{
    if o.len() == 0 { s } else { merge_one(merge_in(s, o.drop_last()), o.last()) }
}
pub open spec fn known_id(o: Seq<POEntryV>, e: POEntryV) -> bool {
    exists|j: int| 0 <= j < o.len() && same_id(#[trigger] o[j], e)
}
pub open spec fn retired(o: Seq<POEntryV>, e: POEntryV) -> POEntryV {
    if known_id(o, e) { e } else { POEntryV { obsolete: true, ..e } }
}
pub open spec fn merge_spec(s: Seq<POEntryV>, o: Seq<POEntryV>) -> Seq<POEntryV> {
    let m = merge_in(s, o);
    Seq::new(m.len(), |i: int| retired(o, m[i]))
}
pub proof fn lemma_merge_in_step(s: Seq<POEntryV>, o: Seq<POEntryV>, k: int)
    requires 0 <= k < o.len(),
    ensures merge_in(s, o.take(k + 1)) == merge_one(merge_in(s, o.take(k)), o[k]),
{
    assert(o.take(k + 1).drop_last() =~= o.take(k));
    assert(o.take(k + 1).last() == o[k]);
}

// C15, read off the sequential meaning: no message is removed or moved, those
// without counterpart only become obsolete, and those that are new come after
// the others
pub proof fn theorem_merge_in(s: Seq<POEntryV>, o: Seq<POEntryV>)
    ensures
        merge_in(s, o).len() >= s.len(),
        forall|i: int| 0 <= i < s.len() ==> same_id(#[trigger] merge_in(s, o)[i], s[i]),
        forall|i: int| 0 <= i < s.len() && !known_id(o, s[i]) ==> #[trigger] merge_in(s, o)[i] == s[i],
        forall|i: int| s.len() <= i < merge_in(s, o).len() ==> known_id(o, #[trigger] merge_in(s, o)[i]),
    decreases o.len(),
{
    if o.len() > 0 {
        let d = o.drop_last();
        let b = o.last();
        let m = merge_in(s, d);
        theorem_merge_in(s, d);
        lemma_id_pos_range(m, b);
        assert(o[o.len() - 1] == b);
        assert forall|e: POEntryV| known_id(d, e) implies known_id(o, e) by {
            let j = choose|j: int| 0 <= j < d.len() && same_id(#[trigger] d[j], e);
            assert(same_id(o[j], e));
        }
        assert forall|i: int| 0 <= i < s.len() && !known_id(o, s[i]) implies #[trigger] merge_in(s, o)[i] == s[i] by {
            assert(same_id(merge_in(s, d)[i], s[i]));
            assert(!same_id(o[o.len() - 1], s[i]));
        }
    }
}
pub proof fn theorem_merge(s: Seq<POEntryV>, o: Seq<POEntryV>)
    ensures
        merge_spec(s, o).len() >= s.len(),
        forall|i: int| 0 <= i < s.len() ==> same_id(#[trigger] merge_spec(s, o)[i], s[i]),
        forall|i: int| 0 <= i < s.len() && !known_id(o, s[i]) ==>
            #[trigger] merge_spec(s, o)[i] == (POEntryV { obsolete: true, ..s[i] }),
        forall|i: int| 0 <= i < merge_spec(s, o).len() && known_id(o, merge_in(s, o)[i]) ==>
            #[trigger] merge_spec(s, o)[i] == merge_in(s, o)[i],
{
    theorem_merge_in(s, o);
    assert forall|i: int| 0 <= i < s.len() implies same_id(#[trigger] merge_spec(s, o)[i], s[i]) by {
        assert(same_id(merge_in(s, o)[i], s[i]));
    }
    assert forall|i: int| 0 <= i < s.len() && !known_id(o, s[i]) implies
            #[trigger] merge_spec(s, o)[i] == (POEntryV { obsolete: true, ..s[i] }) by {
        assert(merge_in(s, o)[i] == s[i]);
    }
}
} // verus!
