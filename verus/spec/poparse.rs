verus! {
//@@ enum rust/src/poparser.rs St structural
//@@ enum rust/src/errors.rs SyntaxError
//@@ struct rust/src/errors.rs MaybeFilename
//@@ enum rust/src/errors.rs EscapingError
//@@ struct rust/src/poparser.rs POFileParser
//@@ const rust/src/poparser.rs MAX_MSGSTR_PLURAL_INDEX

// ---------------------------------------------------------------------
// What PO texts mean (C03, C04, C07, C18)

pub enum Kind { Quote, Custom, Generic }
/// kind and line of an error; the last two have no line
pub enum PErr { At(Kind, nat), Basic, Unknown }
pub open spec fn perr(e: SyntaxError) -> PErr {
    match e {
        SyntaxError::UnescapedDoubleQuoteFound { line, .. } => PErr::At(Kind::Quote, line as nat),
        SyntaxError::Custom { line, .. } => PErr::At(Kind::Custom, line as nat),
        SyntaxError::Generic { line, .. } => PErr::At(Kind::Generic, line as nat),
        SyntaxError::BasicCustom { .. } => PErr::Basic,
        SyntaxError::UnknownState { .. } => PErr::Unknown,
    }
}
/// the parser between two lines
pub struct PSt {
    pub file: POFileV,
    pub state: St,
    pub line: nat,
    pub entry: POEntryV,
    pub midx: nat,
}
pub type PRes = core::result::Result<PSt, PErr>;
pub open spec fn pst(p: POFileParser) -> PSt {
    PSt { file: p.file@, state: p.current_state, line: p.current_line as nat, entry: p.current_entry@, midx: p.msgstr_index as nat }
}
pub open spec fn with_entry(p: PSt, e: POEntryV) -> PSt { PSt { entry: e, ..p } }

/// a quoted text: None if it is well-formed
pub open spec fn qerr(s: Seq<char>) -> Option<Kind> {
    if s.len() < 2 || s[0] != '"' || s.last() != '"' { Some(Kind::Custom) }
    else if quotes_ok(s.subrange(1, s.len() - 1)) { None }
    else { Some(Kind::Quote) }
}
/// what is between the quotes
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }

pub open spec fn kw(t: Seq<char>) -> Option<St> {
    if t == "msgctxt"@ { Some(St::CT) }
    else if t == "msgid"@ { Some(St::MI) }
    else if t == "msgstr"@ { Some(St::MS) }
    else if t == "msgid_plural"@ { Some(St::MP) }
    else { None }
}
pub open spec fn pkw(t: Seq<char>) -> Option<St> {
    if t == "msgctxt"@ { Some(St::PC) }
    else if t == "msgid"@ { Some(St::PM) }
    else if t == "msgid_plural"@ { Some(St::PP) }
    else { None }
}
/// a line of the text
pub enum Ln {
    /// nothing in it
    Skip,
    Bad(Kind),
    /// symbol, its text, mark of obsolete, index of the plural form
    Tok(St, Seq<char>, bool, Option<nat>),
}
pub open spec fn quoted_ln(sym: St, v: Seq<char>, obs: bool, i: Option<nat>, q: Seq<char>) -> Ln {
    match qerr(q) { Some(k) => Ln::Bad(k), None => Ln::Tok(sym, v, obs, i) }
}
pub open spec fn plural_index(l: Seq<char>) -> Option<nat> {
    let t = l.skip(7);
    parse_usize(t.take(cpos(t, ']')))
}
pub open spec fn plural_value(l: Seq<char>) -> Seq<char> {
    trim_start(l.skip(if l.contains(']') { cpos(l, ']') + 1 } else { l.len() as int }))
}
pub open spec fn plural_ln(l: Seq<char>, obs: bool) -> Ln {
    match plural_index(l) {
        Some(i) => if i <= 255 { quoted_ln(St::MX, l, obs, Some(i), plural_value(l)) } else { Ln::Bad(Kind::Custom) },
        None => Ln::Bad(Kind::Custom),
    }
}
pub open spec fn starts_quote(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '"' }
/// `#|` lines
pub open spec fn prev_ln(l: Seq<char>, t: Seq<Seq<char>>, obs: bool) -> Ln {
    let p = trim_start(l.skip(2));
    if t.len() < 2 { Ln::Bad(Kind::Custom) }
    else if starts_quote(p) { quoted_ln(St::MC, p, obs, None, p) }
    else if t.len() == 2 { Ln::Bad(Kind::Custom) }
    else {
        match pkw(t[1]) {
            Some(sym) => { let v = trim_start(p.skip(t[1].len() as int)); quoted_ln(sym, v, obs, None, v) },
            None => Ln::Bad(Kind::Custom),
        }
    }
}
/// the line `l` with the tokens `t`
pub open spec fn body_ln(l: Seq<char>, t: Seq<Seq<char>>, obs: bool) -> Ln {
    if t.len() > 1 && kw(t[0]) is Some {
        let v = trim_start(l.skip(t[0].len() as int));
        quoted_ln(kw(t[0])->0, v, obs, None, v)
    }
    else if t[0] == "#:"@ { if t.len() <= 1 { Ln::Skip } else { Ln::Tok(St::OC, l, obs, None) } }
    else if starts_quote(l) { quoted_ln(St::MC, l, obs, None, l) }
    else if has_prefix(l, "msgstr["@) { plural_ln(l, obs) }
    else if t[0] == "#,"@ { if t.len() <= 1 { Ln::Skip } else { Ln::Tok(St::FL, l, obs, None) } }
    else if t[0] == "#"@ || has_prefix(t[0], "##"@) { Ln::Tok(St::TC, l, obs, None) }
    else if t[0] == "#."@ { if t.len() <= 1 { Ln::Skip } else { Ln::Tok(St::GC, l, obs, None) } }
    else if t[0] == "#|"@ { prev_ln(l, t, obs) }
    else { Ln::Bad(Kind::Generic) }
}
/// at most three tokens
pub open spec fn toks3(l: Seq<char>) -> Seq<Seq<char>> {
    if atoks(l).len() > 3 { atoks(l).take(3) } else { atoks(l) }
}
pub open spec fn classify(raw: Seq<char>) -> Ln {
    let l = trim(raw);
    let t = toks3(l);
    if l.len() == 0 || t.len() == 0 || t[0] == "#~|"@ { Ln::Skip }
    else if t.len() > 1 && t[0] == "#~"@ { body_ln(trim(l.skip(3)), t.skip(1), true) }
    else { body_ln(l, t, false) }
}

/// the state after a symbol, None if it can not be there
pub open spec fn trans(sym: St, st: St) -> Option<St> {
    match sym {
        St::TC => match st {
            St::ST | St::HE => Some(St::HE),
            St::CT | St::MC => None,
            _ => Some(St::TC),
        },
        St::GC | St::OC | St::FL | St::PC | St::PM | St::PP => if st == St::MC { None } else { Some(sym) },
        St::CT => match st {
            St::CT | St::MI | St::MP | St::MC => None,
            _ => Some(St::CT),
        },
        St::MI => match st {
            St::MI | St::MP | St::MC => None,
            _ => Some(St::MI),
        },
        St::MP => match st {
            St::TC | St::GC | St::PC | St::PM | St::PP | St::MI => Some(St::MP),
            _ => None,
        },
        St::MS => match st {
            St::MI | St::MP | St::TC => Some(St::MS),
            _ => None,
        },
        St::MX => match st {
            St::MI | St::MP | St::TC | St::MX => Some(St::MX),
            _ => None,
        },
        St::MC => match st {
            St::CT | St::MI | St::MP | St::MS | St::MX | St::PM | St::PP | St::PC => Some(St::MC),
            _ => None,
        },
        _ => None,
    }
}
/// the table from symbol and state to action and state
pub open spec fn is_trans(m: VxTransitions) -> bool {
    forall|a: St, b: St| #[trigger] m.at(a, b) == (match trans(a, b) { Some(n) => Some((n, n)), None => None })
}

pub open spec fn unesc_opt(o: Option<Seq<char>>) -> Option<Option<Seq<char>>> {
    match o {
        Some(s) => match unesc(s) { Some(t) => Some(Some(t)), None => None },
        None => Some(None),
    }
}
pub open spec fn unesc_all(s: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match (unesc_all(s.drop_last()), unesc(s.last())) {
            (Some(a), Some(b)) => Some(a.push(b)),
            _ => None,
        }
    }
}
/// every string field unescaped, the rest as it is
pub open spec fn unesc_entry(e: POEntryV) -> Option<POEntryV> {
    if unesc(e.msgid) is Some && unesc_opt(e.msgstr) is Some && unesc_opt(e.msgid_plural) is Some && unesc_all(e.msgstr_plural) is Some
        && unesc_opt(e.msgctxt) is Some && unesc_opt(e.previous_msgid) is Some && unesc_opt(e.previous_msgid_plural) is Some
        && unesc_opt(e.previous_msgctxt) is Some
    {
        Some(POEntryV {
            msgid: unesc(e.msgid)->0,
            msgstr: unesc_opt(e.msgstr)->0,
            msgid_plural: unesc_opt(e.msgid_plural)->0,
            msgstr_plural: unesc_all(e.msgstr_plural)->0,
            msgctxt: unesc_opt(e.msgctxt)->0,
            previous_msgid: unesc_opt(e.previous_msgid)->0,
            previous_msgid_plural: unesc_opt(e.previous_msgid_plural)->0,
            previous_msgctxt: unesc_opt(e.previous_msgctxt)->0,
            ..e
        })
    } else { None }
}
/// the message is complete
pub open spec fn flush(p: PSt) -> PRes {
    match unesc_entry(p.entry) {
        Some(e) => Ok(PSt { file: POFileV { entries: p.file.entries.push(e), ..p.file }, entry: po_fresh(p.line as usize), midx: 0, ..p }),
        None => Err(PErr::Basic),
    }
}
/// it is if its translation was read
pub open spec fn ends_entry(st: St) -> bool { st == St::MC || st == St::MS || st == St::MX }
pub open spec fn mflush(p: PSt) -> PRes { if ends_entry(p.state) { flush(p) } else { Ok(p) } }

/// a line added to a comment
pub open spec fn add_line(o: Option<Seq<char>>, s: Seq<char>) -> Seq<char> {
    match o { Some(t) => t + seq!['\n'] + s, None => s }
}
pub open spec fn tc_text(tok: Seq<char>) -> Seq<char> {
    let t = lstrip(tok, '#');
    if t.len() > 0 && t[0] == ' ' { t.skip(1) } else { t }
}
pub open spec fn header_add(o: Option<Seq<char>>, tok: Seq<char>) -> Seq<char> {
    let h = otext(o);
    let h1 = if h.len() > 0 { h.push('\n') } else { h };
    h1 + (if tok.len() > 2 { tok.skip(2) } else { Seq::empty() })
}
/// an occurrence: file name and line number
pub open spec fn occ_of(s: Seq<char>) -> (Seq<char>, Seq<char>) {
    if s.contains(':') && all_digits(s.skip(cpos(s, ':') + 1)) { (s.take(cpos(s, ':')), s.skip(cpos(s, ':') + 1)) } else { (s, Seq::empty()) }
}
pub open spec fn occs_of(t: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)> {
    Seq::new(t.len(), |i: int| occ_of(t[i]))
}
pub open spec fn trims(t: Seq<Seq<char>>) -> Seq<Seq<char>> {
    Seq::new(t.len(), |i: int| trim(t[i]))
}
/// value of a `msgstr[N]` line
pub open spec fn mx_value(tok: Seq<char>) -> Seq<char> { tok.subrange(cpos(tok, '"') + 1, tok.len() - 1) }
/// the plural translations, at least n
pub open spec fn fill(p: Seq<Seq<char>>, n: nat) -> Seq<Seq<char>> {
    if p.len() >= n { p } else { p + Seq::new((n - p.len()) as nat, |i: int| Seq::<char>::empty()) }
}
/// a continuation line goes to the field opened last
pub open spec fn continue_entry(st: St, e: POEntryV, midx: nat, v: Seq<char>) -> Option<POEntryV> {
    match st {
        St::MI => Some(POEntryV { msgid: e.msgid + v, ..e }),
        St::MS => Some(POEntryV { msgstr: Some(otext(e.msgstr) + v), ..e }),
        St::CT => Some(POEntryV { msgctxt: Some(otext(e.msgctxt) + v), ..e }),
        St::MP => Some(POEntryV { msgid_plural: Some(otext(e.msgid_plural) + v), ..e }),
        St::MX => Some(POEntryV { msgstr_plural: e.msgstr_plural.update(midx as int, e.msgstr_plural[midx as int] + v), ..e }),
        St::PP => Some(POEntryV { previous_msgid_plural: Some(otext(e.previous_msgid_plural) + v), ..e }),
        St::PM => Some(POEntryV { previous_msgid: Some(otext(e.previous_msgid) + v), ..e }),
        St::PC => Some(POEntryV { previous_msgctxt: Some(otext(e.previous_msgctxt) + v), ..e }),
        _ => None,
    }
}
/// a symbol that belongs to the next message if one is complete, on the
/// message it belongs to
pub open spec fn open_entry(a: St, e: POEntryV, tok: Seq<char>, obs: bool) -> POEntryV {
    match a {
        St::TC => POEntryV { tcomment: Some(add_line(e.tcomment, tc_text(tok))), ..e },
        St::GC => POEntryV { comment: Some(add_line(e.comment, tok.skip(3))), ..e },
        St::OC => POEntryV { occurrences: e.occurrences + occs_of(wtoks(tok.skip(3))), ..e },
        St::FL => POEntryV { flags: e.flags + trims(split(tok.skip(3), ',')), ..e },
        St::PP => POEntryV { previous_msgid_plural: Some(inner(tok)), ..e },
        St::PM => POEntryV { previous_msgid: Some(inner(tok)), ..e },
        St::PC => POEntryV { previous_msgctxt: Some(inner(tok)), ..e },
        St::CT => POEntryV { msgctxt: Some(inner(tok)), ..e },
        _ => POEntryV { msgid: inner(tok), obsolete: obs, ..e },
    }
}
pub open spec fn act(a: St, p: PSt, tok: Seq<char>, obs: bool) -> PRes {
    match a {
        St::HE => Ok(PSt { file: POFileV { header: Some(header_add(p.file.header, tok)), ..p.file }, ..p }),
        St::MP => Ok(with_entry(p, POEntryV { msgid_plural: Some(inner(tok)), ..p.entry })),
        St::MS => Ok(with_entry(p, POEntryV { msgstr: Some(inner(tok)), ..p.entry })),
        St::MX => Ok(with_entry(p, POEntryV { msgstr_plural: fill(p.entry.msgstr_plural, p.midx + 1).update(p.midx as int, mx_value(tok)), ..p.entry })),
        St::MC => match continue_entry(p.state, p.entry, p.midx, inner(tok)) {
            Some(e) => Ok(with_entry(p, e)),
            None => Err(PErr::At(Kind::Custom, p.line)),
        },
        St::ST => Err(PErr::Unknown),
        _ => match mflush(p) {
            Ok(q) => Ok(with_entry(q, open_entry(a, q.entry, tok, obs))),
            Err(e) => Err(e),
        },
    }
}
pub open spec fn proc(sym: St, p: PSt, tok: Seq<char>, obs: bool) -> PRes {
    match trans(sym, p.state) {
        None => Err(PErr::At(Kind::Generic, p.line)),
        Some(a) => match act(a, p, tok, obs) {
            Ok(q) => Ok(if a == St::MC { q } else { PSt { state: a, ..q } }),
            Err(e) => Err(e),
        },
    }
}
/// one more line
pub open spec fn step(p: PSt, raw: Seq<char>) -> PRes {
    let q = PSt { line: p.line + 1, ..p };
    match classify(raw) {
        Ln::Skip => Ok(q),
        Ln::Bad(k) => Err(PErr::At(k, q.line)),
        Ln::Tok(sym, tok, obs, idx) => proc(sym, PSt { midx: match idx { Some(i) => i, None => q.midx }, ..q }, tok, obs),
    }
}

// ---------------------------------------------------------------------
// What holds between two lines; the plural translations have at most 256
// items (C03)

pub open spec fn wf_fields(p: PSt) -> bool {
    &&& p.midx <= 255
    &&& p.entry.msgstr_plural.len() <= 256
    &&& p.state == St::MS ==> p.entry.msgstr is Some
    &&& p.state == St::CT ==> p.entry.msgctxt is Some
    &&& p.state == St::MP ==> p.entry.msgid_plural is Some
    &&& p.state == St::PP ==> p.entry.previous_msgid_plural is Some
    &&& p.state == St::PM ==> p.entry.previous_msgid is Some
    &&& p.state == St::PC ==> p.entry.previous_msgctxt is Some
    &&& p.state != St::MC
}
pub open spec fn wf_pst(p: PSt) -> bool {
    wf_fields(p) && (p.state == St::MX ==> p.midx < p.entry.msgstr_plural.len())
}
/// what the handlers need of the text of their symbol
pub open spec fn tok_ok(a: St, tok: Seq<char>) -> bool {
    match a {
        St::HE | St::TC => tok.len() > 0 && tok[0] == '#' && (tok.len() > 1 ==> (tok[1] as u32) <= 127),
        St::OC | St::GC | St::FL => ascii_to(tok, 3) && tok.len() > 3,
        St::MX => cpos(tok, '"') + 2 <= tok.len() && tok.last() == '"',
        St::ST => true,
        _ => qerr(tok) is None,
    }
}
pub open spec fn can_act(a: St, p: PSt, tok: Seq<char>) -> bool {
    tok_ok(a, tok) && wf_fields(p) && (a != St::MX ==> wf_pst(p))
}
/// a result agrees with what the text means
pub open spec fn same_res(r: core::result::Result<(), SyntaxError>, p: POFileParser, want: PRes) -> bool {
    match want {
        Ok(q) => r is Ok && pst(p) == q,
        Err(e) => r is Err && perr(r->Err_0) == e,
    }
}
} // verus!
