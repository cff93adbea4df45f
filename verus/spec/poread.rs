verus! {
// ---------------------------------------------------------------------
// Lines, seen from their first tokens

pub proof fn lemma_mark_names()
    ensures
        "#~|"@ == seq!['#', '~', '|'], "#~"@ == seq!['#', '~'], "#:"@ == seq!['#', ':'], "#,"@ == seq!['#', ','],
        "#."@ == seq!['#', '.'], "#|"@ == seq!['#', '|'], "#"@ == seq!['#'], "##"@ == seq!['#', '#'],
        "msgstr["@ == seq!['m', 's', 'g', 's', 't', 'r', '['],
{
    reveal_strlit("#~|"); reveal_strlit("#~"); reveal_strlit("#:"); reveal_strlit("#,"); reveal_strlit("#."); reveal_strlit("#|");
    reveal_strlit("#"); reveal_strlit("##"); reveal_strlit("msgstr[");
    assert("#~|"@ =~= seq!['#', '~', '|']);
    assert("#~"@ =~= seq!['#', '~']);
    assert("#:"@ =~= seq!['#', ':']);
    assert("#,"@ =~= seq!['#', ',']);
    assert("#."@ =~= seq!['#', '.']);
    assert("#|"@ =~= seq!['#', '|']);
    assert("#"@ =~= seq!['#']);
    assert("##"@ =~= seq!['#', '#']);
    assert("msgstr["@ =~= seq!['m', 's', 'g', 's', 't', 'r', '[']);
}
pub proof fn lemma_aws_ws(c: char)
    ensures is_aws(c) ==> is_ws(c) && c as u32 <= 127,
{}
/// how a line begins: with its first token, or with whitespace that is not
/// ASCII
pub open spec fn head_ok(l: Seq<char>, t: Seq<Seq<char>>) -> bool {
    &&& t.len() > 0 && l.len() > 0 && t[0].len() > 0
    &&& !is_ws(t[0][0]) ==> {
        &&& t[0].len() <= l.len() && t[0] == l.take(t[0].len() as int)
        &&& t[0].len() < l.len() ==> is_aws(l[t[0].len() as int]) && t[0].len() + 1 < l.len()
        &&& t.len() > 1 ==> t[0].len() < l.len()
        &&& t.len() > 2 ==> atoks(l.skip(t[0].len() as int)).len() > 0 && t[1] == atoks(l.skip(t[0].len() as int))[0]
    }
}
pub proof fn lemma_head(l: Seq<char>)
    requires l.len() > 0, !is_ws(l[0]), !is_ws(l.last()),
    ensures toks3(l).len() > 0, head_ok(l, toks3(l)),
        toks3(l).len() > 1 ==> toks3(l)[1] == atoks(l.skip(toks3(l)[0].len() as int))[0],
{
    lemma_aws_ws(l[0]);
    lemma_atoks_head(l);
    lemma_awpos(l);
    let n = awpos(l);
    if n < l.len() { lemma_aws_ws(l[n]); }
    if atoks(l).len() > 1 { assert(atoks(l).skip(1)[0] == atoks(l)[1]); }
}
/// after the mark of an obsolete line
pub proof fn lemma_obsolete_head(l: Seq<char>)
    requires l.len() > 0, !is_ws(l[0]), !is_ws(l.last()), toks3(l).len() > 1, toks3(l)[0] == "#~"@,
    ensures
        ascii_to(l, 3), head_ok(trim(l.skip(3)), toks3(l).skip(1)),
{
    lemma_mark_names();
    lemma_head(l);
    lemma_atoks_head(l);
    assert(l.take(2)[0] == l[0] && l.take(2)[1] == l[1]);
    lemma_aws_ws(l[2]);
    let m = l.skip(3);
    let t = toks3(l).skip(1);
    let u = l.skip(2);
    assert(u[0] == l[2]);
    assert(u.skip(1) =~= m);
    assert(atoks(u) == atoks(m));
    assert(atoks(l).skip(1) == atoks(m));
    assert(atoks(l)[1] == atoks(m)[0]);
    let j = lemma_atoks_first(m);
    let n = awpos(m.skip(j));
    lemma_trim_len(m);
    assert(m.last() == l.last());
    assert(m.subrange(j, j + n)[0] == m[j]);
    lemma_awpos(m.skip(j));
    // nothing to trim at the end
    lemma_trim_start_last(m);
    let x = trim_start(m);
    assert(trim_end(x) == x);
    assert(trim(m) == x);
    assert(t[0] == m.subrange(j, j + n));
    if !is_ws(m[j]) {
        assert forall|i: int| 0 <= i < j implies is_ws(#[trigger] m[i]) by { lemma_aws_ws(m[i]); }
        lemma_trim_start_at(m, j);
        assert(x == m.skip(j));
        assert(x.take(n) =~= m.subrange(j, j + n));
        if n < x.len() { lemma_aws_ws(x[n]); assert(x[n] == m.skip(j)[n]); }
        assert(x.skip(n) =~= m.skip(j + n));
        if t.len() > 1 {
            assert(atoks(m).skip(1)[0] == atoks(m)[1]);
            assert(atoks(m).len() > 1);
            if n >= x.len() { assert(m.skip(j + n).len() == 0); }
        }
    }
}
pub proof fn lemma_trim_start_last(s: Seq<char>)
    requires s.len() > 0, !is_ws(s.last()),
    ensures trim_start(s).len() > 0, trim_start(s).last() == s.last(),
    decreases s.len(),
{
    if is_ws(s[0]) { lemma_trim_start_last(s.skip(1)); }
}

/// what the parser uses of a line without the mark
pub open spec fn body_facts(l: Seq<char>, t: Seq<Seq<char>>) -> bool {
    &&& t.len() > 0
    &&& kw(t[0]) is Some ==> blen(t[0]) == t[0].len() && t[0].len() <= 12
    &&& t.len() > 1 && kw(t[0]) is Some ==> is_cb(l, t[0].len() as int) && cidx(l, t[0].len() as int) == t[0].len()
    &&& t.len() > 1 && (t[0] == "#:"@ || t[0] == "#,"@ || t[0] == "#."@) ==> tok_ok(St::OC, l)
    &&& t[0] == "#"@ || has_prefix(t[0], "##"@) ==> tok_ok(St::TC, l)
    &&& has_prefix(l, "msgstr["@) ==> {
        &&& splitn2(l, '[').len() == 2 && splitn2(l, '[').last() == l.skip(7)
        &&& split(l.skip(7), ']').len() > 0 && split(l.skip(7), ']')[0] == l.skip(7).take(cpos(l.skip(7), ']'))
        &&& l.contains(']') ==> is_cb(l, 1 + blen(l.take(cpos(l, ']'))) as int) && cidx(l, 1 + blen(l.take(cpos(l, ']'))) as int) == cpos(l, ']') + 1
            && 1 + blen(l.take(cpos(l, ']'))) <= blen(l)
        &&& qerr(plural_value(l)) is None ==> tok_ok(St::MX, l)
    }
    &&& t[0] == "#|"@ ==> blen(t[0]) == 2 && is_cb(l, 2) && cidx(l, 2) == 2
    &&& t[0] == "#|"@ && t.len() > 2 && pkw(t[1]) is Some ==> {
        let p = trim_start(l.skip(2));
        blen(t[1]) == t[1].len() && t[1].len() <= 12 && is_cb(p, t[1].len() as int) && cidx(p, t[1].len() as int) == t[1].len()
    }
}
pub proof fn lemma_kw_ascii(t: Seq<char>)
    requires kw(t) is Some || pkw(t) is Some,
    ensures ascii_to(t, t.len() as int), blen(t) == t.len(), 5 <= t.len() <= 12, t[0] == 'm',
{
    lemma_kw_names();
    lemma_ascii_at(t, t.len() as int);
    assert(t.take(t.len() as int) =~= t);
}
pub proof fn lemma_ascii_prefix(l: Seq<char>, t: Seq<char>)
    requires ascii_to(t, t.len() as int), t.len() <= l.len(), t == l.take(t.len() as int),
    ensures ascii_to(l, t.len() as int), is_cb(l, t.len() as int), cidx(l, t.len() as int) == t.len(),
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] l[i]) as u32 <= 127 by { assert(t[i] == l.take(t.len() as int)[i]); }
    lemma_ascii_at(l, t.len() as int);
}
pub proof fn lemma_plural_line(l: Seq<char>)
    requires has_prefix(l, "msgstr["@),
    ensures
        splitn2(l, '[').len() == 2 && splitn2(l, '[').last() == l.skip(7),
        split(l.skip(7), ']').len() > 0 && split(l.skip(7), ']')[0] == l.skip(7).take(cpos(l.skip(7), ']')),
        l.contains(']') ==> is_cb(l, 1 + blen(l.take(cpos(l, ']'))) as int) && cidx(l, 1 + blen(l.take(cpos(l, ']'))) as int) == cpos(l, ']') + 1
            && 1 + blen(l.take(cpos(l, ']'))) <= blen(l),
        qerr(plural_value(l)) is None ==> tok_ok(St::MX, l),
{
    lemma_mark_names();
    let m = "msgstr["@;
    assert(m.len() == 7);
    assert forall|i: int| 0 <= i < 7 implies l[i] == #[trigger] m[i] by { assert(l.take(7)[i] == l[i]); }
    assert(m[0] == 'm' && m[1] == 's' && m[2] == 'g' && m[3] == 's' && m[4] == 't' && m[5] == 'r' && m[6] == '[');
    lemma_cpos_is(l, '[', 6);
    let r = l.skip(7);
    lemma_cpos(r, ']');
    if cpos(r, ']') >= r.len() { assert(r.take(cpos(r, ']')) =~= r); }
    let k = cpos(l, ']');
    lemma_cpos(l, ']');
    if l.contains(']') {
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        assert(l.take(k + 1).last() == ']');
        lemma_prefix_at(l, k + 1);
        lemma_blen_mono(l, k + 1, l.len() as int);
        assert(l.take(l.len() as int) =~= l);
    }
    if qerr(plural_value(l)) is None {
        let v = plural_value(l);
        let n = if l.contains(']') { k + 1 } else { l.len() as int };
        let x = l.skip(n);
        lemma_trim_len(x);
        let d = n + x.len() - v.len();
        assert(v[0] == l[d]);
        assert(v.last() == l.last());
        lemma_cpos(l, '"');
    }
}
pub proof fn lemma_body(l: Seq<char>, t: Seq<Seq<char>>)
    requires head_ok(l, t),
    ensures body_facts(l, t),
{
    lemma_mark_names();
    lemma_kw_names();
    if has_prefix(l, "msgstr["@) { lemma_plural_line(l); }
    if kw(t[0]) is Some {
        lemma_kw_ascii(t[0]);
        if t.len() > 1 { lemma_ascii_prefix(l, t[0]); }
    }
    let n = t[0].len() as int;
    if t[0] == "#:"@ || t[0] == "#,"@ || t[0] == "#."@ || t[0] == "#|"@ {
        lemma_ascii_prefix(l, t[0]);
        assert(ascii_to(t[0], 2));
        lemma_ascii_at(t[0], 2);
        assert(t[0].take(2) =~= t[0]);
        if t.len() > 1 { lemma_aws_ws(l[2]); assert(ascii_to(l, 3)); }
    }
    if t[0] == "#"@ || has_prefix(t[0], "##"@) {
        assert(t[0][0] == '#') by { if has_prefix(t[0], "##"@) { assert(t[0].take(2)[0] == t[0][0]); } }
        assert(l[0] == l.take(n)[0]);
        if l.len() > 1 {
            if has_prefix(t[0], "##"@) { assert(t[0].take(2)[1] == t[0][1]); assert(l[1] == l.take(n)[1]); } else { lemma_aws_ws(l[1]); }
        }
    }
    if t[0] == "#|"@ && t.len() > 2 && pkw(t[1]) is Some {
        lemma_kw_ascii(t[1]);
        let m = l.skip(2);
        let j = lemma_atoks_first(m);
        let k = awpos(m.skip(j));
        assert(m.subrange(j, j + k)[0] == m[j]);
        assert forall|i: int| 0 <= i < j implies is_ws(#[trigger] m[i]) by { lemma_aws_ws(m[i]); }
        lemma_trim_start_at(m, j);
        assert(m.skip(j).take(k) =~= m.subrange(j, j + k));
        lemma_ascii_prefix(m.skip(j), t[1]);
    }
}
pub proof fn lemma_tok_ok()
    ensures
        forall|l: Seq<char>| #[trigger] tok_ok(St::FL, l) == tok_ok(St::OC, l),
        forall|l: Seq<char>| #[trigger] tok_ok(St::GC, l) == tok_ok(St::OC, l),
        forall|a: St, v: Seq<char>| (a == St::CT || a == St::MI || a == St::MS || a == St::MP || a == St::PC || a == St::PM || a == St::PP || a == St::MC)
            ==> #[trigger] tok_ok(a, v) == (qerr(v) is None),
{}
pub proof fn lemma_kw_syms()
    ensures
        forall|t: Seq<char>| (#[trigger] kw(t)) is Some ==> kw(t)->0 == St::CT || kw(t)->0 == St::MI || kw(t)->0 == St::MS || kw(t)->0 == St::MP,
        forall|t: Seq<char>| (#[trigger] pkw(t)) is Some ==> pkw(t)->0 == St::PC || pkw(t)->0 == St::PM || pkw(t)->0 == St::PP,
{}
pub proof fn lemma_wf_line(p: PSt)
    requires wf_pst(p),
    ensures
        ({ let q = PSt { line: p.line + 1, ..p }; wf_fields(q) && wf_pst(q) && forall|i: nat| i <= 255 ==> #[trigger] wf_fields(PSt { midx: i, ..q }) }),
{}
pub proof fn lemma_blen_sub(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures blen(s.subrange(a, b)) <= blen(s),
{
    assert(s =~= s.take(a) + s.subrange(a, b) + s.skip(b));
    lemma_blen_add(s.take(a), s.subrange(a, b));
    lemma_blen_add(s.take(a) + s.subrange(a, b), s.skip(b));
}
pub proof fn lemma_trim_blen(s: Seq<char>)
    ensures blen(trim(s)) <= blen(s),
{
    let x = trim_start(s);
    lemma_trim_len(s);
    lemma_trim_len(x);
    lemma_blen_sub(s, s.len() - x.len(), s.len() as int);
    assert(s.subrange(s.len() - x.len(), s.len() as int) =~= x);
    lemma_blen_sub(x, 0, trim_end(x).len() as int);
    assert(x.subrange(0, trim_end(x).len() as int) =~= trim_end(x));
}
pub proof fn lemma_line(raw: Seq<char>)
    requires blen(raw) <= isize::MAX,
    ensures
        blen(trim(raw)) <= isize::MAX,
        trim(raw).len() > 0 ==> {
            let l = trim(raw);
            let t = toks3(l);
            &&& t.len() > 0
            &&& t.len() > 1 && t[0] == "#~"@ ==> is_cb(l, 3) && cidx(l, 3) == 3 && blen(trim(l.skip(3))) <= isize::MAX && body_facts(trim(l.skip(3)), t.skip(1))
            &&& !(t.len() > 1 && t[0] == "#~"@) ==> body_facts(l, t)
        },
{
    lemma_trim(raw);
    let l = trim(raw);
    lemma_trim_blen(raw);
    if l.len() >= 3 {
        lemma_trim_blen(l.skip(3));
        lemma_blen_sub(l, 3, l.len() as int);
        assert(l.subrange(3, l.len() as int) =~= l.skip(3));
    }
    if l.len() > 0 {
        lemma_head(l);
        let t = toks3(l);
        if t.len() > 1 && t[0] == "#~"@ {
            lemma_obsolete_head(l);
            lemma_ascii_at(l, 3);
            lemma_body(trim(l.skip(3)), t.skip(1));
        } else {
            lemma_body(l, t);
        }
    }
}

// ---------------------------------------------------------------------
// Whole texts

/// a text as its lines, None where it is not UTF-8
pub open spec fn run(p: PSt, ls: Seq<Option<Seq<char>>>) -> PRes
    decreases ls.len()
{
    if ls.len() == 0 { Ok(p) } else {
        match run(p, ls.drop_last()) {
            Err(e) => Err(e),
            Ok(q) => match ls.last() {
                None => Err(PErr::Basic),
                Some(l) => step(q, if ls.len() == 1 { lstrip(l, '\u{feff}') } else { l }),
            },
        }
    }
}
/// the last message
pub open spec fn close(p: PSt) -> PRes {
    if p.entry.msgid.len() == 0 && p.entry.msgctxt is None {
        if otext(p.entry.msgstr).len() > 0 { flush(p) } else { Ok(p) }
    } else { flush(p) }
}
pub open spec fn is_head(e: POEntryV) -> bool { e.msgid.len() == 0 && e.msgctxt is None && e.msgid_plural is None }
pub open spec fn add_meta(m: Map<Seq<char>, Seq<char>>, l: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    match split_once(l, ": "@) {
        Some((k, v)) => m.insert(k, if m.contains_key(k) { m[k] + trim(v) } else { trim(v) }),
        None => m,
    }
}
pub open spec fn add_metas(m: Map<Seq<char>, Seq<char>>, ls: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>>
    decreases ls.len()
{
    if ls.len() == 0 { m } else { add_meta(add_metas(m, ls.drop_last()), ls.last()) }
}
/// the header message becomes the metadata
pub open spec fn take_head(f: POFileV) -> POFileV {
    match first(f.entries, |e: POEntryV| is_head(e)) {
        Some(h) => POFileV {
            metadata_is_fuzzy: is_fuzzy(h),
            entries: keep(f.entries, not_entry(h)),
            metadata: add_metas(f.metadata, split(otext(h.msgstr), '\n')),
            ..f
        },
        None => f,
    }
}
pub open spec fn read_all(p: PSt, ls: Seq<Option<Seq<char>>>) -> PRes {
    match run(p, ls) {
        Err(e) => Err(e),
        Ok(q) => match close(q) {
            Err(e) => Err(e),
            Ok(z) => Ok(PSt { file: take_head(z.file), ..z }),
        },
    }
}
/// an error stays
pub proof fn lemma_run_err(p: PSt, ls: Seq<Option<Seq<char>>>, n: int)
    requires 0 <= n <= ls.len(),
    ensures run(p, ls.take(n)) is Err ==> run(p, ls) == run(p, ls.take(n)),
    decreases ls.len() - n,
{
    if n < ls.len() {
        assert(ls.drop_last().take(n) =~= ls.take(n));
        lemma_run_err(p, ls.drop_last(), n);
    } else { assert(ls.take(n) =~= ls); }
}
/// the lines of `BufRead::lines`; `None` where the line is not UTF-8
pub uninterp spec fn byte_lines(b: Seq<u8>) -> Seq<Option<Seq<char>>>;
pub open spec fn content_lines(o: FileOptionsV) -> Seq<Option<Seq<char>>> {
    byte_lines(match o.byte_content { Some(b) => b, None => vstd::utf8::encode_utf8(o.path_or_content) })
}
pub open spec fn opts_fresh() -> FileOptionsV {
    FileOptionsV { path_or_content: Seq::empty(), wrapwidth: 78, byte_content: None }
}
pub open spec fn file_fresh(o: FileOptionsV) -> POFileV {
    POFileV { entries: Seq::empty(), header: None, metadata: Map::empty(), metadata_is_fuzzy: false, options: o }
}
pub open spec fn pst_fresh(o: FileOptionsV) -> PSt {
    PSt { file: file_fresh(o), state: St::ST, line: 0, entry: po_fresh(0), midx: 0 }
}
pub open spec fn read_file(o: FileOptionsV) -> core::result::Result<POFileV, PErr> {
    match read_all(pst_fresh(o), content_lines(o)) { Ok(p) => Ok(p.file), Err(e) => Err(e) }
}
/// the file system while a file is read: which paths are files, and their bytes
pub uninterp spec fn is_file(path: Seq<char>) -> bool;
pub uninterp spec fn fs(path: Seq<char>) -> Seq<u8>;
/// the lines the options stand for
pub open spec fn source_lines(o: FileOptionsV) -> Seq<Option<Seq<char>>> {
    if is_file(o.path_or_content) { byte_lines(fs(o.path_or_content)) } else { content_lines(o) }
}
pub open spec fn read_any(o: FileOptionsV) -> core::result::Result<POFileV, PErr> {
    match read_all(pst_fresh(o), source_lines(o)) { Ok(p) => Ok(p.file), Err(e) => Err(e) }
}
} // verus!
