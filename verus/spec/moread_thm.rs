verus! {
// ---------------------------------------------------------------------
// C10, from the contract of MOFileParser::parse

proof fn lemma_num_cut(be: bool, b: Seq<u8>, k: int, o: int)
    requires 0 <= k <= b.len(),
    ensures
        num_at(be, b.take(k), o) is Some ==> num_at(be, b, o) == num_at(be, b.take(k), o),
        num_at(be, b.take(k), o) is Some == (0 <= o && o + 4 <= k),
{
    if 0 <= o && o + 4 <= k {
        assert(b.take(k).subrange(o, o + 4) =~= b.subrange(o, o + 4));
    }
}
/// the `i`th pairs of the tables and their strings lie in the input
pub open spec fn inside(b: Seq<u8>, h: MoHead, i: int) -> bool {
    let be = is_be(h.magic);
    let p = pair_at(be, b, h.t1 as int, i)->0;
    let q = pair_at(be, b, h.t2 as int, i)->0;
    h.t1 + 8 * i + 8 <= b.len() && h.t2 + 8 * i + 8 <= b.len()
        && (p.0 == 0 || p.0 + p.1 <= b.len()) && (q.0 == 0 || q.0 + q.1 <= b.len())
}
proof fn lemma_inside(b: Seq<u8>, h: MoHead, i: int)
    requires is_mo(b), head_of(b) == Some(h), 0 <= i < h.n,
    ensures inside(b, h, i),
{
    let be = is_be(h.magic);
    let (t1, t2) = (table(be, b, h.t1 as int, h.n as int), table(be, b, h.t2 as int, h.n as int));
    assert(pair_at(be, b, h.t1 as int, i) is Some);
    assert(pair_at(be, b, h.t2 as int, i) is Some);
    assert(bytes_of(b, t1[i]) is Some);
    assert(bytes_of(b, t2[i]) is Some);
}
/// what is read lies in the input: magic number, revision, tables and strings
pub proof fn theorem_inside(b: Seq<u8>)
    requires is_mo(b),
    ensures
        b.len() >= 20,
        ({
            let h = head_of(b)->0;
            &&& h.magic == MAGIC || h.magic == MAGIC_SWAPPED
            &&& num_at(false, b, 0) == Some(h.magic)
            &&& h.version == 0 || h.version == 1
            &&& forall|i: int| 0 <= i < h.n ==> #[trigger] inside(b, h, i)
        }),
{
    let h = head_of(b)->0;
    assert forall|i: int| 0 <= i < h.n implies #[trigger] inside(b, h, i) by { lemma_inside(b, h, i); }
}
/// a file cut short inside its header, tables or strings is rejected
pub proof fn theorem_cut(b: Seq<u8>, k: int, i: int)
    requires
        is_mo(b),
        0 <= k <= b.len(),
        ({
            let h = head_of(b)->0;
            let be = is_be(h.magic);
            let p = pair_at(be, b, h.t1 as int, i)->0;
            let q = pair_at(be, b, h.t2 as int, i)->0;
            k < 20 || (0 <= i < h.n && (h.t1 + 8 * i + 8 > k || h.t2 + 8 * i + 8 > k
                || (p.0 > 0 && p.0 + p.1 > k) || (q.0 > 0 && q.0 + q.1 > k)))
        }),
    ensures !is_mo(b.take(k)),
{
    let c = b.take(k);
    if is_mo(c) {
        theorem_inside(c);
        let h = head_of(c)->0;
        let be = is_be(h.magic);
        lemma_num_cut(false, b, k, 0);
        lemma_num_cut(be, b, k, 4);
        lemma_num_cut(be, b, k, 8);
        lemma_num_cut(be, b, k, 12);
        lemma_num_cut(be, b, k, 16);
        assert(head_of(b) == head_of(c));
        if k >= 20 {
            lemma_inside(c, h, i);
            lemma_num_cut(be, b, k, h.t1 + 8 * i);
            lemma_num_cut(be, b, k, h.t1 + 8 * i + 4);
            lemma_num_cut(be, b, k, h.t2 + 8 * i);
            lemma_num_cut(be, b, k, h.t2 + 8 * i + 4);
        }
    }
}
} // verus!
