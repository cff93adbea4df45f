verus! {
// ---------------------------------------------------------------------
// Lemmas about the handlers

pub proof fn lemma_comment_at(t: Seq<char>)
    requires tok_ok(St::TC, t),
    ensures (blen(t) > 2) == (t.len() > 2), t.len() > 2 ==> is_cb(t, 2) && cidx(t, 2) == 2,
{
    if t.len() >= 2 {
        assert(ascii_to(t, 2));
        lemma_ascii_at(t, 2);
        if t.len() > 2 { lemma_blen_mono(t, 2, t.len() as int); assert(t.take(t.len() as int) =~= t); } else { assert(t.take(2) =~= t); }
    } else {
        assert(ascii_to(t, 1));
        lemma_ascii_at(t, 1);
        assert(t.take(1) =~= t);
    }
}
pub proof fn lemma_mark_at(t: Seq<char>)
    requires tok_ok(St::OC, t),
    ensures blen(t) > 3, is_cb(t, 3), cidx(t, 3) == 3,
{
    lemma_ascii_at(t, 3);
    lemma_blen_mono(t, 3, t.len() as int);
    assert(t.take(t.len() as int) =~= t);
}
pub proof fn lemma_quoted_at(t: Seq<char>)
    requires qerr(t) is None,
    ensures blen(t) >= 2, is_cb(t, 1), cidx(t, 1) == 1, is_cb(t, blen(t) - 1), cidx(t, blen(t) - 1) == t.len() - 1,
{
    assert(ascii_to(t, 1));
    lemma_ascii_at(t, 1);
    lemma_ascii_last(t);
}
pub proof fn lemma_plural_at(t: Seq<char>)
    requires tok_ok(St::MX, t),
    ensures
        t.contains('"'), 0 <= cpos(t, '"') < t.len() - 1,
        is_cb(t, 1 + blen(t.take(cpos(t, '"'))) as int), cidx(t, 1 + blen(t.take(cpos(t, '"'))) as int) == cpos(t, '"') + 1,
        is_cb(t, blen(t) - 1), cidx(t, blen(t) - 1) == t.len() - 1,
        blen(t.take(cpos(t, '"'))) + 1 <= blen(t) - 1,
{
    let k = cpos(t, '"');
    lemma_cpos(t, '"');
    lemma_ascii_last(t);
    assert(t[t.len() - 1] == '"');
    assert(t.take(k + 1).drop_last() =~= t.take(k));
    assert(t.take(k + 1).last() == '"');
    lemma_prefix_at(t, k + 1);
    assert(t.take(t.len() - 1) =~= t.drop_last());
    if k + 1 < t.len() - 1 { lemma_blen_mono(t, k + 1, t.len() - 1); }
}
pub proof fn lemma_unesc_all(s: Seq<Seq<char>>, t: Seq<Seq<char>>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> unesc(#[trigger] s[i]) == Some(t[i]),
    ensures unesc_all(s) == Some(t),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies unesc(#[trigger] s.drop_last()[i]) == Some(t.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_unesc_all(s.drop_last(), t.drop_last());
        assert(s.last() == s[s.len() - 1]);
        assert(t.drop_last().push(t.last()) =~= t);
    } else { assert(t =~= Seq::empty()); }
}
pub proof fn lemma_unesc_all_none(s: Seq<Seq<char>>, k: int)
    requires 0 <= k < s.len(), unesc(s[k]) is None,
    ensures unesc_all(s) is None,
    decreases s.len(),
{
    if k < s.len() - 1 {
        assert(s.drop_last()[k] == s[k]);
        lemma_unesc_all_none(s.drop_last(), k);
    }
}
pub proof fn lemma_wtoks_nonempty(s: Seq<char>)
    ensures forall|i: int| 0 <= i < wtoks(s).len() ==> (#[trigger] wtoks(s)[i]).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        if is_ws(s[0]) {
            lemma_wtoks_nonempty(s.skip(1));
            assert(wtoks(s) == wtoks(s.skip(1)));
        } else {
            lemma_wpos(s);
            let r = wtoks(s.skip(wpos(s)));
            lemma_wtoks_nonempty(s.skip(wpos(s)));
            assert forall|i: int| 0 <= i < wtoks(s).len() implies (#[trigger] wtoks(s)[i]).len() > 0 by {
                if i == 0 { assert(wtoks(s)[0] == s.take(wpos(s))); } else { assert(wtoks(s)[i] == r[i - 1]); }
            }
        }
    } else { assert(wtoks(s) == Seq::<Seq<char>>::empty()); }
}
/// lines keep the parser well-formed
pub proof fn lemma_proc_wf(sym: St, p: PSt, tok: Seq<char>, obs: bool)
    requires can_act(sym, p, tok),
    ensures
        proc(sym, p, tok, obs) is Ok ==> wf_pst(proc(sym, p, tok, obs)->Ok_0) && (proc(sym, p, tok, obs)->Ok_0).line == p.line,
        trans(sym, p.state) is Some ==> can_act(trans(sym, p.state)->0, p, tok),
        proc(sym, p, tok, obs) != core::result::Result::<PSt, PErr>::Err(PErr::Unknown),
{
}
} // verus!
