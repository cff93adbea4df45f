// Theorems over what PO texts mean (C03, C18)
verus! {
/// C03: no plural index of the text sizes anything beyond 256 items
pub open spec fn small(e: POEntryV) -> bool { e.msgstr_plural.len() <= 256 }
pub open spec fn small_st(p: PSt) -> bool {
    p.midx <= 255 && small(p.entry) && forall|i: int| 0 <= i < p.file.entries.len() ==> small(#[trigger] p.file.entries[i])
}
pub proof fn lemma_unesc_all_len(s: Seq<Seq<char>>)
    ensures unesc_all(s) is Some ==> (unesc_all(s)->0).len() == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_unesc_all_len(s.drop_last()); }
}
pub proof fn lemma_flush(p: PSt)
    ensures
        flush(p) is Ok ==> (flush(p)->Ok_0).line == p.line && (small_st(p) ==> small_st(flush(p)->Ok_0)),
        flush(p) is Err ==> flush(p)->Err_0 == PErr::Basic,
{
    lemma_unesc_all_len(p.entry.msgstr_plural);
}
pub open spec fn err_at(e: PErr, n: nat) -> bool {
    match e { PErr::At(_, m) => m == n, PErr::Basic => true, PErr::Unknown => false }
}
/// errors carry the number of the line that was read
pub proof fn lemma_step(p: PSt, raw: Seq<char>)
    ensures
        step(p, raw) is Ok ==> (step(p, raw)->Ok_0).line == p.line + 1 && (small_st(p) ==> small_st(step(p, raw)->Ok_0)),
        step(p, raw) is Err ==> err_at(step(p, raw)->Err_0, p.line + 1),
{
    hide(classify); hide(flush); hide(unesc_entry);
    let q = PSt { line: p.line + 1, ..p };
    match classify(raw) {
        Ln::Skip => {},
        Ln::Bad(k) => {},
        Ln::Tok(sym, tok, obs, idx) => {
            let q1 = PSt { midx: match idx { Some(i) => i, None => q.midx }, ..q };
            lemma_flush(q1);
            lemma_tok_index(raw);
            match trans(sym, q1.state) {
                None => {},
                Some(a) => {
                    assert(a != St::ST);
                    match act(a, q1, tok, obs) {
                        Ok(z) => {
                            if a == St::MX { assert(z.entry.msgstr_plural.len() <= 256 || !small_st(q1)); }
                        },
                        Err(e) => { assert(e == PErr::Basic || e == PErr::At(Kind::Custom, q1.line)); },
                    }
                },
            }
        },
    }
}
pub proof fn lemma_tok_index(raw: Seq<char>)
    ensures match classify(raw) { Ln::Tok(_, _, _, Some(i)) => i <= 255, _ => true },
{
    hide(trim); hide(toks3); hide(qerr); hide(kw); hide(pkw); hide(has_prefix); hide(plural_index);
}
pub proof fn lemma_run(p: PSt, ls: Seq<Option<Seq<char>>>)
    ensures
        run(p, ls) is Ok ==> (run(p, ls)->Ok_0).line == p.line + ls.len() && (small_st(p) ==> small_st(run(p, ls)->Ok_0)),
        run(p, ls) is Err ==> run(p, ls)->Err_0 != PErr::Unknown,
        match run(p, ls) {
            Err(PErr::At(k, n)) => p.line < n <= p.line + ls.len() && run(p, ls.take(n - p.line)) == run(p, ls) && run(p, ls.take(n - p.line - 1)) is Ok,
            _ => true,
        },
    decreases ls.len(),
{
    hide(step);
    if ls.len() > 0 {
        let a = ls.drop_last();
        lemma_run(p, a);
        match run(p, a) {
            Err(e) => {
                match e {
                    PErr::At(k, n) => {
                        assert(a.take(n - p.line) =~= ls.take(n - p.line));
                        assert(a.take(n - p.line - 1) =~= ls.take(n - p.line - 1));
                    },
                    _ => {},
                }
            },
            Ok(q) => match ls.last() {
                None => {},
                Some(l) => {
                    lemma_step(q, if ls.len() == 1 { lstrip(l, '\u{feff}') } else { l });
                    assert(ls.take(ls.len() as int) =~= ls);
                    assert(ls.take(ls.len() as int - 1) =~= a);
                },
            },
        }
    }
}
/// C18: a positioned error is of the first line that can not be accepted
/// after the lines before it, and nothing after it changes it
pub proof fn theorem_first_error(o: FileOptionsV, ls: Seq<Option<Seq<char>>>, k: Kind, n: nat)
    requires read_all(pst_fresh(o), ls) == core::result::Result::<PSt, PErr>::Err(PErr::At(k, n)),
    ensures
        1 <= n <= ls.len(),
        read_all(pst_fresh(o), ls.take(n as int)) == core::result::Result::<PSt, PErr>::Err(PErr::At(k, n)),
        forall|k2: Kind, n2: nat| read_all(pst_fresh(o), ls.take(n - 1)) != core::result::Result::<PSt, PErr>::Err(PErr::At(k2, n2)),
        forall|other: Seq<Option<Seq<char>>>| other.len() >= n && other.take(n as int) == ls.take(n as int)
            ==> #[trigger] read_all(pst_fresh(o), other) == core::result::Result::<PSt, PErr>::Err(PErr::At(k, n)),
{
    hide(run); hide(flush);
    let p = pst_fresh(o);
    lemma_run(p, ls);
    assert(run(p, ls) is Ok ==> close(run(p, ls)->Ok_0) is Err ==> close(run(p, ls)->Ok_0)->Err_0 == PErr::Basic) by {
        if run(p, ls) is Ok { lemma_flush(run(p, ls)->Ok_0); }
    }
    let a = ls.take(n - 1);
    if run(p, a) is Ok { lemma_flush(run(p, a)->Ok_0); }
    assert forall|other: Seq<Option<Seq<char>>>| other.len() >= n && other.take(n as int) == ls.take(n as int)
        implies #[trigger] read_all(p, other) == core::result::Result::<PSt, PErr>::Err(PErr::At(k, n)) by {
        lemma_run_err(p, other, n as int);
    }
}
/// C03: whatever the content is, what was read has at most 256 plural
/// translations in every message, and the parser never is in a state it
/// does not know
pub proof fn theorem_bounded(o: FileOptionsV, ls: Seq<Option<Seq<char>>>)
    ensures
        match read_all(pst_fresh(o), ls) {
            Ok(q) => forall|i: int| 0 <= i < q.file.entries.len() ==> small(#[trigger] q.file.entries[i]),
            Err(e) => e != PErr::Unknown,
        },
{
    hide(run); hide(flush);
    let p = pst_fresh(o);
    lemma_run(p, ls);
    if run(p, ls) is Ok {
        let q = run(p, ls)->Ok_0;
        lemma_flush(q);
        if close(q) is Ok {
            let z = close(q)->Ok_0;
            assert(small_st(z));
            match first(z.file.entries, |e: POEntryV| is_head(e)) {
                Some(h) => lemma_keep_small(z.file.entries, not_entry(h)),
                None => {},
            }
        }
    }
}
pub proof fn lemma_keep_small(s: Seq<POEntryV>, f: spec_fn(POEntryV) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> small(#[trigger] s[i]),
    ensures forall|i: int| 0 <= i < keep(s, f).len() ==> small(#[trigger] keep(s, f)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies small(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_keep_small(d, f);
        assert forall|i: int| 0 <= i < keep(s, f).len() implies small(#[trigger] keep(s, f)[i]) by {
            if i < keep(d, f).len() { assert(keep(s, f)[i] == keep(d, f)[i]); }
        }
        assert(s.last() == s[s.len() - 1]);
    }
}
} // verus!
