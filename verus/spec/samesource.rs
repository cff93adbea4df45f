verus! {
// ---------------------------------------------------------------------
// C19: what is read does not depend on where it comes from

/// the same state for another source
pub open spec fn at(p: PSt, o: FileOptionsV) -> PSt { PSt { file: POFileV { options: o, ..p.file }, ..p } }
pub open spec fn res_at(r: PRes, o: FileOptionsV) -> PRes { match r { Ok(p) => Ok(at(p, o)), Err(e) => Err(e) } }
pub proof fn lemma_flush_at(p: PSt, o: FileOptionsV)
    ensures flush(at(p, o)) == res_at(flush(p), o),
{}
pub proof fn lemma_act_at(a: St, p: PSt, t: Seq<char>, obs: bool, o: FileOptionsV)
    ensures act(a, at(p, o), t, obs) == res_at(act(a, p, t, obs), o),
{
    lemma_flush_at(p, o);
}
pub proof fn lemma_step_at(p: PSt, l: Seq<char>, o: FileOptionsV)
    ensures step(at(p, o), l) == res_at(step(p, l), o),
{
    hide(act);
    hide(classify);
    let q = PSt { line: p.line + 1, ..p };
    match classify(l) {
        Ln::Tok(sym, tok, obs, idx) => {
            let z = PSt { midx: match idx { Some(i) => i, None => q.midx }, ..q };
            assert(PSt { midx: match idx { Some(i) => i, None => q.midx }, line: p.line + 1, ..at(p, o) } == at(z, o));
            match trans(sym, z.state) { Some(a) => { lemma_act_at(a, z, tok, obs, o); } None => {} }
        }
        _ => {}
    }
}
pub proof fn lemma_run_at(p: PSt, ls: Seq<Option<Seq<char>>>, o: FileOptionsV)
    ensures run(at(p, o), ls) == res_at(run(p, ls), o),
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_run_at(p, ls.drop_last(), o);
        match run(p, ls.drop_last()) {
            Ok(q) => match ls.last() {
                Some(l) => { lemma_step_at(q, if ls.len() == 1 { lstrip(l, '\u{feff}') } else { l }, o); }
                None => {}
            },
            Err(_) => {}
        }
    }
}
/// the messages, header, metadata and errors read
pub open spec fn same_read(a: core::result::Result<POFileV, PErr>, b: core::result::Result<POFileV, PErr>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == (POFileV { options: x.options, ..y }),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}
pub proof fn theorem_same_lines(a: FileOptionsV, b: FileOptionsV)
    requires source_lines(a) == source_lines(b),
    ensures same_read(read_any(a), read_any(b)),
{
    let ls = source_lines(a);
    let p = pst_fresh(a);
    assert(pst_fresh(b) == at(p, b));
    lemma_run_at(p, ls, b);
    match run(p, ls) {
        Ok(q) => { lemma_flush_at(q, b); }
        Err(_) => {}
    }
}
/// C19: what can not be decoded is an error, it is never read in part
pub proof fn theorem_undecodable(o: FileOptionsV, i: int)
    requires 0 <= i < source_lines(o).len(), source_lines(o)[i] is None,
    ensures read_any(o) is Err,
{
    lemma_run_none(pst_fresh(o), source_lines(o), i);
}
pub proof fn lemma_run_none(p: PSt, ls: Seq<Option<Seq<char>>>, i: int)
    requires 0 <= i < ls.len(), ls[i] is None,
    ensures run(p, ls) is Err,
    decreases ls.len(),
{
    if i < ls.len() - 1 { lemma_run_none(p, ls.drop_last(), i); }
}
/// path, bytes and text at any wrap width
pub proof fn theorem_same_source(p: Seq<char>, w1: usize, t: Seq<char>, w2: usize, b: Seq<u8>, w3: usize)
    requires
        is_file(p), fs(p) == b, !is_file(Seq::empty()),
    ensures
        same_read(
            read_any(FileOptionsV { path_or_content: p, wrapwidth: w1, byte_content: None }),
            read_any(FileOptionsV { path_or_content: Seq::empty(), wrapwidth: w3, byte_content: Some(b) })),
        !is_file(t) && b == vstd::utf8::encode_utf8(t) ==> same_read(
            read_any(FileOptionsV { path_or_content: p, wrapwidth: w1, byte_content: None }),
            read_any(FileOptionsV { path_or_content: t, wrapwidth: w2, byte_content: None })),
{
    let x = FileOptionsV { path_or_content: p, wrapwidth: w1, byte_content: None };
    let y = FileOptionsV { path_or_content: Seq::empty(), wrapwidth: w3, byte_content: Some(b) };
    let z = FileOptionsV { path_or_content: t, wrapwidth: w2, byte_content: None };
    theorem_same_lines(x, y);
    if !is_file(t) && b == vstd::utf8::encode_utf8(t) { theorem_same_lines(x, z); }
}
/// C19: a text written to a path, read from the path and as a text
pub proof fn theorem_saved_text(p: Seq<char>, w: usize, t: Seq<char>, o: FileOptionsV)
    requires
        is_file(p), fs(p) == vstd::utf8::encode_utf8(t),
        o.byte_content is None && !is_file(t) && o.path_or_content == t || o.byte_content == Some(vstd::utf8::encode_utf8(t)) && !is_file(o.path_or_content),
    ensures same_read(read_any(FileOptionsV { path_or_content: p, wrapwidth: w, byte_content: None }), read_any(o)),
{
    theorem_same_lines(FileOptionsV { path_or_content: p, wrapwidth: w, byte_content: None }, o);
}
} // verus!
