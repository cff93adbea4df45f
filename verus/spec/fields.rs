// Each line only sets its own field of its own message (C07)
verus! {
// ---------------------------------------------------------------------
// spacing

pub proof fn theorem_line_keyword(a: Seq<char>, k: Seq<char>, sp: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), is_kw(k), blank(sp), quoted(q),
    ensures classify(a + (k + sp + q) + b) == Ln::Tok(kw(k)->0, q, false, None),
{
    lemma_kw_word(k);
    lemma_word_line(k, sp, q);
    lemma_mark_names();
    let m = k + sp + q;
    lemma_top(a, m, b);
    lemma_toks3(m);
    lemma_body_kw(k, sp, q, toks3(m), false);
}
pub proof fn theorem_line_keyword_obsolete(a: Seq<char>, s0: Seq<char>, k: Seq<char>, sp: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), blank(s0), is_kw(k), blank(sp), quoted(q),
    ensures classify(a + ("#~"@ + s0 + (k + sp + q)) + b) == Ln::Tok(kw(k)->0, q, true, None),
{
    lemma_kw_word(k);
    lemma_word_line(k, sp, q);
    let m = k + sp + q;
    lemma_top_obs(a, s0, m, b);
    lemma_body_kw(k, sp, q, toks3("#~"@ + s0 + m).skip(1), true);
}
pub proof fn theorem_line_segment(a: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), quoted(q),
    ensures classify(a + q + b) == Ln::Tok(St::MC, q, false, None),
{
    lemma_quoted(q);
    lemma_mark_names();
    lemma_top(a, q, b);
    lemma_toks3(q);
    lemma_body_cont(q, toks3(q), false);
}
pub proof fn theorem_line_segment_obsolete(a: Seq<char>, s0: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), blank(s0), quoted(q),
    ensures classify(a + ("#~"@ + s0 + q) + b) == Ln::Tok(St::MC, q, true, None),
{
    lemma_quoted(q);
    lemma_top_obs(a, s0, q, b);
    lemma_body_cont(q, toks3("#~"@ + s0 + q).skip(1), true);
}
pub proof fn theorem_line_plural(a: Seq<char>, d: Seq<char>, sp: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), is_index(d), blank(sp), quoted(q),
    ensures
        ({ let m = plural_word(d) + sp + q; classify(a + m + b) == Ln::Tok(St::MX, m, false, Some(dec_val(d))) && mx_value(m) == inner(q) }),
{
    lemma_plural_word(d);
    lemma_word_line(plural_word(d), sp, q);
    lemma_mark_names();
    let m = plural_word(d) + sp + q;
    lemma_top(a, m, b);
    lemma_toks3(m);
    lemma_body_plural(d, sp, q, toks3(m), false);
}
pub proof fn theorem_line_plural_obsolete(a: Seq<char>, s0: Seq<char>, d: Seq<char>, sp: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), blank(s0), is_index(d), blank(sp), quoted(q),
    ensures
        ({ let m = plural_word(d) + sp + q; classify(a + ("#~"@ + s0 + m) + b) == Ln::Tok(St::MX, m, true, Some(dec_val(d))) && mx_value(m) == inner(q) }),
{
    lemma_plural_word(d);
    lemma_word_line(plural_word(d), sp, q);
    let m = plural_word(d) + sp + q;
    lemma_top_obs(a, s0, m, b);
    lemma_body_plural(d, sp, q, toks3("#~"@ + s0 + m).skip(1), true);
}
pub proof fn lemma_mark_line(w: Seq<char>, s0: Seq<char>, m: Seq<char>)
    requires w == "#|"@ || w == "#:"@ || w == "#,"@ || w == "#."@ || w == "#"@, blank(s0), solid(m),
    ensures
        ({ let l = w + s0 + m; solid(l) && atoks(l) == seq![w] + atoks(m) && atoks(l)[0] == w && atoks(l).len() == 1 + atoks(m).len()
           && w != "#~|"@ && w != "#~"@ && l[0] == '#' }),
{
    lemma_mark_names();
    let l = w + s0 + m;
    assert forall|i: int| 0 <= i < w.len() implies !is_aws(#[trigger] w[i]) by { if i == 0 {} else { assert(i == 1); } }
    assert(l =~= w + (s0 + m));
    assert((s0 + m)[0] == s0[0]);
    lemma_atoks_front(w, s0 + m);
    lemma_atoks_ws(s0, m);
    assert(l[0] == '#');
    assert(l.last() == m.last());
}
pub proof fn theorem_line_previous(a: Seq<char>, s0: Seq<char>, k: Seq<char>, sp: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), blank(s0), is_pkw(k), blank(sp), quoted(q),
    ensures classify(a + ("#|"@ + s0 + (k + sp + q)) + b) == Ln::Tok(pkw(k)->0, q, false, None),
{
    lemma_kw_word(k);
    lemma_word_line(k, sp, q);
    let m = k + sp + q;
    let l = "#|"@ + s0 + m;
    lemma_mark_line("#|"@, s0, m);
    lemma_top(a, l, b);
    lemma_toks3(l);
    lemma_quoted(q);
    assert(atoks(m).len() == 1 + atoks(m).skip(1).len());
    assert(atoks(l)[1] == atoks(m)[0]);
    lemma_body_prev(k, s0, sp, q, toks3(l), false);
}
pub proof fn theorem_line_previous_segment(a: Seq<char>, s0: Seq<char>, q: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), blank(s0), quoted(q),
    ensures classify(a + ("#|"@ + s0 + q) + b) == Ln::Tok(St::MC, q, false, None),
{
    lemma_quoted(q);
    let l = "#|"@ + s0 + q;
    lemma_mark_line("#|"@, s0, q);
    lemma_top(a, l, b);
    lemma_toks3(l);
    lemma_body_prev_cont(s0, q, toks3(l), false);
}
pub proof fn theorem_line_blank(a: Seq<char>)
    requires all_ws(a),
    ensures classify(a) == Ln::Skip,
    decreases a.len(),
{
    lemma_trim_len(a);
    lemma_trim_len(trim_start(a));
    if trim_start(a).len() > 0 {
        let k = a.len() - trim_start(a).len();
        assert(trim_start(a)[0] == a[k]);
    }
}
/// comments, occurrences and flags
pub proof fn theorem_line_mark(a: Seq<char>, w: Seq<char>, s0: Seq<char>, m: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), w == "#:"@ || w == "#,"@ || w == "#."@ || w == "#"@, blank(s0), solid(m),
    ensures
        classify(a + (w + s0 + m) + b) == Ln::Tok(if w == "#:"@ { St::OC } else if w == "#,"@ { St::FL } else if w == "#."@ { St::GC } else { St::TC }, w + s0 + m, false, None),
{
    lemma_mark_names();
    lemma_kw_names();
    let l = w + s0 + m;
    lemma_mark_line(w, s0, m);
    lemma_top(a, l, b);
    lemma_toks3(l);
    assert(is_aws(m[0]) ==> is_ws(m[0]));
    lemma_atoks_some(m, 0);
    lemma_not_plural(l);
    assert(has_prefix(w, "##"@) ==> w.take(2)[1] == '#');
}

// ---------------------------------------------------------------------
// fields

pub open spec fn steps(p: PSt, ls: Seq<Seq<char>>) -> PRes
    decreases ls.len()
{
    if ls.len() == 0 { Ok(p) } else {
        match steps(p, ls.drop_last()) { Err(e) => Err(e), Ok(q) => step(q, ls.last()) }
    }
}
pub proof fn lemma_steps_cat(p: PSt, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures steps(p, a + b) == (match steps(p, a) { Err(e) => Err(e), Ok(q) => steps(q, b) }),
    decreases b.len(),
{
    hide(step);
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_steps_cat(p, a, b.drop_last());
    }
}
pub proof fn lemma_steps_one(p: PSt, l: Seq<char>)
    ensures steps(p, seq![l]) == step(p, l),
{
    hide(step);
    assert(seq![l].drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(steps, 2);
}
pub open spec fn somes(ls: Seq<Seq<char>>) -> Seq<Option<Seq<char>>> { Seq::new(ls.len(), |i: int| Some(ls[i])) }
pub proof fn lemma_run_steps(p: PSt, ls: Seq<Seq<char>>)
    requires ls.len() > 0 ==> (ls[0].len() > 0 ==> ls[0][0] != '\u{feff}'),
    ensures run(p, somes(ls)) == steps(p, ls),
    decreases ls.len(),
{
    hide(step);
    if ls.len() > 0 {
        lemma_run_steps(p, ls.drop_last());
        assert(somes(ls).drop_last() =~= somes(ls.drop_last()));
    }
}
pub open spec fn field_st(a: St) -> bool {
    a == St::MI || a == St::MS || a == St::CT || a == St::MP || a == St::MX || a == St::PP || a == St::PM || a == St::PC
}
/// the message with a string field set
pub open spec fn set_field(a: St, e: POEntryV, midx: nat, v: Seq<char>) -> POEntryV {
    match a {
        St::MI => POEntryV { msgid: v, ..e },
        St::MS => POEntryV { msgstr: Some(v), ..e },
        St::CT => POEntryV { msgctxt: Some(v), ..e },
        St::MP => POEntryV { msgid_plural: Some(v), ..e },
        St::MX => POEntryV { msgstr_plural: fill(e.msgstr_plural, midx + 1).update(midx as int, v), ..e },
        St::PP => POEntryV { previous_msgid_plural: Some(v), ..e },
        St::PM => POEntryV { previous_msgid: Some(v), ..e },
        St::PC => POEntryV { previous_msgctxt: Some(v), ..e },
        _ => e,
    }
}
/// the segment of a continuation line; a blank line has none
pub open spec fn seg(l: Seq<char>) -> Option<Seq<char>> {
    match classify(l) {
        Ln::Skip => Some(Seq::empty()),
        Ln::Tok(St::MC, q, _, None) => Some(inner(q)),
        _ => None,
    }
}
pub open spec fn segs(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { segs(ls.drop_last()) + seg(ls.last())->0 }
}
/// C07: continuation lines go to the field opened last, and to nothing else
pub proof fn theorem_segments(p: PSt, a: St, e: POEntryV, v: Seq<char>, ls: Seq<Seq<char>>)
    requires
        field_st(a), p.state == a, p.entry == set_field(a, e, p.midx, v),
        forall|i: int| 0 <= i < ls.len() ==> seg(#[trigger] ls[i]) is Some,
    ensures
        steps(p, ls) == core::result::Result::<PSt, PErr>::Ok(PSt { line: p.line + ls.len(), entry: set_field(a, e, p.midx, v + segs(ls)), ..p }),
    decreases ls.len(),
{
    hide(classify);
    if ls.len() == 0 {
        assert(v + segs(ls) =~= v);
    } else {
        let d = ls.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies seg(#[trigger] d[i]) is Some by { assert(d[i] == ls[i]); }
        theorem_segments(p, a, e, v, d);
        let l = ls[ls.len() - 1];
        assert(seg(l) is Some);
        let q = steps(p, d)->Ok_0;
        let s = seg(l)->0;
        assert(v + segs(ls) =~= (v + segs(d)) + s);
        if classify(l) == Ln::Skip {
            assert(v + segs(ls) =~= v + segs(d));
        } else {
            lemma_continue(a, e, p.midx, v + segs(d), s);
        }
    }
}
pub proof fn lemma_continue(a: St, e: POEntryV, midx: nat, v: Seq<char>, s: Seq<char>)
    requires field_st(a),
    ensures continue_entry(a, set_field(a, e, midx, v), midx, s) == Some(set_field(a, e, midx, v + s)),
{
    if a == St::MX {
        let f = fill(e.msgstr_plural, midx + 1);
        assert(f.update(midx as int, v).update(midx as int, v + s) =~= f.update(midx as int, v + s));
    }
}
pub enum Fld { Id, Str, Ctxt, Plural, Plurals, PrevId, PrevPlural, PrevCtxt, Comment, TComment, Occs, Flags, Nothing }
pub open spec fn fld(a: St) -> Fld {
    match a {
        St::MI => Fld::Id, St::MS => Fld::Str, St::CT => Fld::Ctxt, St::MP => Fld::Plural, St::MX => Fld::Plurals,
        St::PM => Fld::PrevId, St::PP => Fld::PrevPlural, St::PC => Fld::PrevCtxt,
        St::GC => Fld::Comment, St::TC => Fld::TComment, St::OC => Fld::Occs, St::FL => Fld::Flags,
        _ => Fld::Nothing,
    }
}
/// x is y but for one field (the mark of obsolete comes with the msgid)
pub open spec fn but(f: Fld, x: POEntryV, y: POEntryV) -> bool {
    x == (match f {
        Fld::Id => POEntryV { msgid: x.msgid, obsolete: x.obsolete, ..y },
        Fld::Str => POEntryV { msgstr: x.msgstr, ..y },
        Fld::Ctxt => POEntryV { msgctxt: x.msgctxt, ..y },
        Fld::Plural => POEntryV { msgid_plural: x.msgid_plural, ..y },
        Fld::Plurals => POEntryV { msgstr_plural: x.msgstr_plural, ..y },
        Fld::PrevId => POEntryV { previous_msgid: x.previous_msgid, ..y },
        Fld::PrevPlural => POEntryV { previous_msgid_plural: x.previous_msgid_plural, ..y },
        Fld::PrevCtxt => POEntryV { previous_msgctxt: x.previous_msgctxt, ..y },
        Fld::Comment => POEntryV { comment: x.comment, ..y },
        Fld::TComment => POEntryV { tcomment: x.tcomment, ..y },
        Fld::Occs => POEntryV { occurrences: x.occurrences, ..y },
        Fld::Flags => POEntryV { flags: x.flags, ..y },
        Fld::Nothing => y,
    })
}
/// a symbol that begins a message if the one before is complete
pub open spec fn opens(a: St) -> bool {
    a == St::TC || a == St::GC || a == St::OC || a == St::FL || a == St::PC || a == St::PM || a == St::PP || a == St::CT || a == St::MI
}
/// C07: a line changes one field of the message it belongs to. The message
/// before is complete then, and is added unescaped after the ones before
pub proof fn theorem_own_field(p: PSt, raw: Seq<char>)
    ensures
        match (classify(raw), step(p, raw)) {
            (Ln::Skip, Ok(q)) => q == (PSt { line: p.line + 1, ..p }),
            (Ln::Tok(sym, tok, obs, idx), Ok(q)) => {
                &&& trans(sym, p.state) is Some
                &&& ({
                    let a = trans(sym, p.state)->0;
                    let next = opens(a) && ends_entry(p.state);
                    let base = if next { po_fresh((p.line + 1) as usize) } else { p.entry };
                    &&& next ==> unesc_entry(p.entry) is Some
                    &&& q.file.entries == (if next { p.file.entries.push(unesc_entry(p.entry)->0) } else { p.file.entries })
                    &&& q.file == (POFileV { entries: q.file.entries, header: if a == St::HE { q.file.header } else { p.file.header }, ..p.file })
                    &&& but(if a == St::MC { fld(p.state) } else { fld(a) }, q.entry, base)
                    &&& q.state == (if a == St::MC { p.state } else { a })
                })
            },
            (_, r) => r is Err,
        },
{
    hide(classify); hide(unesc_entry); hide(trim); hide(split); hide(wtoks); hide(occs_of); hide(trims); hide(po_fresh);
}
/// C07: a plural translation changes no other one
pub proof fn theorem_own_plural(e: POEntryV, midx: nat, v: Seq<char>, i: int)
    requires 0 <= i < e.msgstr_plural.len(), i != midx,
    ensures set_field(St::MX, e, midx, v).msgstr_plural[i] == e.msgstr_plural[i],
{
}
/// C07: the messages come out in the order of the text, and no line changes
/// one that is complete
pub proof fn theorem_order_kept(p: PSt, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires steps(p, a + b) is Ok,
    ensures
        steps(p, a) is Ok,
        ({ let x = (steps(p, a)->Ok_0).file.entries; let y = (steps(p, a + b)->Ok_0).file.entries; x.len() <= y.len() && y.take(x.len() as int) == x }),
    decreases b.len(),
{
    hide(step);
    lemma_steps_cat(p, a, b);
    let x = (steps(p, a)->Ok_0).file.entries;
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(x.take(x.len() as int) =~= x);
    } else {
        let d = b.drop_last();
        assert((a + b).drop_last() =~= a + d);
        theorem_order_kept(p, a, d);
        let q = steps(p, a + d)->Ok_0;
        theorem_own_field(q, b.last());
        let y = (steps(p, a + b)->Ok_0).file.entries;
        assert(y.take(x.len() as int) =~= q.file.entries.take(x.len() as int));
    }
}
} // verus!
