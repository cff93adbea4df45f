// Reading a written file gives its messages and its metadata (C04, C16)
verus! {
pub proof fn lemma_whole_cat(a: Seq<char>, b: Seq<char>)
    requires whole(a), whole(b),
    ensures whole(a + b),
{
    if b.len() > 0 { assert((a + b).last() == b.last()); } else { assert(a + b =~= a); }
}
// ---------------------------------------------------------------------
// The header

pub open spec fn same_but_header(p: PSt, q: PSt) -> bool {
    q.entry == p.entry && q.midx == p.midx && q.file == (POFileV { header: q.file.header, ..p.file })
}
pub proof fn lemma_head_line(p: PSt, l: Seq<char>)
    requires p.state == St::ST || p.state == St::HE, no_nl(l),
    ensures step(p, head_line(l)) is Ok, (step(p, head_line(l))->Ok_0).state == St::HE, same_but_header(p, step(p, head_line(l))->Ok_0),
{
    hide(classify);
    lemma_cmt_line(l);
    let s = seq!['#', ' '] + l;
    if l.len() == 0 {
        assert(classify(seq!['#']) == classify(s)) by {
            reveal(classify);
            assert(s =~= seq!['#', ' ']);
            let x = seq!['#'];
            assert(trim_start(x) == x);
            assert(trim_start(s) == s);
            assert(s.drop_last() =~= x);
            assert(trim_end(s) == trim_end(x));
        }
    }
}
pub proof fn lemma_head_lines(p: PSt, ls: Seq<Seq<char>>)
    requires p.state == St::ST || p.state == St::HE, forall|i: int| 0 <= i < ls.len() ==> exists|l: Seq<char>| no_nl(l) && #[trigger] ls[i] == head_line(l),
    ensures steps(p, ls) is Ok, (steps(p, ls)->Ok_0).state == (if ls.len() == 0 { p.state } else { St::HE }), same_but_header(p, steps(p, ls)->Ok_0),
    decreases ls.len(),
{
    hide(step);
    if ls.len() > 0 {
        lemma_head_lines(p, ls.drop_last());
        let l = choose|l: Seq<char>| no_nl(l) && ls[ls.len() - 1] == head_line(l);
        lemma_head_line(steps(p, ls.drop_last())->Ok_0, l);
    }
}
pub proof fn lemma_read_header(p: PSt, h: Option<Seq<char>>) -> (q: PSt)
    requires p.state == St::ST,
    ensures
        whole(lined(head_lines(h))), reads(p, lined(head_lines(h))) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::HE, same_but_header(p, q),
        lined(head_lines(h)).len() > 0, lined(head_lines(h))[0] == '#',
{
    hide(step); hide(lines);
    let ls = head_lines(h);
    lemma_lines_nl(otext(h));
    let n = Seq::<char>::empty();
    assert forall|i: int| 0 <= i < ls.len() implies no_nl(#[trigger] ls[i]) && exists|l: Seq<char>| no_nl(l) && ls[i] == head_line(l) by {
        if otext(h).len() == 0 {
            assert(no_nl(n) && ls[i] == head_line(n));
        } else {
            let l = lines(otext(h))[i];
            assert(no_nl(l) && ls[i] == head_line(l));
            let x = head_line(l);
            assert(no_nl(x)) by { assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != '\n' by { if j >= 2 { assert(x[j] == l[j - 2]); } } }
        }
    }
    assert(ls.len() > 0) by { if otext(h).len() > 0 { lemma_lines_some(otext(h)); } }
    lemma_head_lines(p, ls);
    lemma_lined(p, ls);
    lemma_lined_first(ls);
    assert(ls[0][0] == '#');
    steps(p, ls)->Ok_0
}
pub proof fn lemma_lines_some(s: Seq<char>)
    requires s.len() > 0,
    ensures lines(s).len() > 0,
{
}
pub proof fn lemma_lined_first(ls: Seq<Seq<char>>)
    requires ls.len() > 0, ls[0].len() > 0,
    ensures lined(ls).len() > 0, lined(ls)[0] == ls[0][0],
    decreases ls.len(),
{
    let d = ls.drop_last();
    if ls.len() == 1 { assert(lined(d) =~= Seq::<char>::empty()); } else { assert(d[0] == ls[0]); lemma_lined_first(d); }
}

// ---------------------------------------------------------------------
// The header message

pub proof fn lemma_esc_nl(l: Seq<char>)
    ensures esc(l + seq!['\n']) == esc(l) + seq!['\\', 'n'],
{
    let s = l + seq!['\n'];
    assert(s.drop_last() =~= l);
    assert(esc_char('\n') =~= seq!['\\', 'n']);
}
pub proof fn lemma_esc_cat(a: Seq<char>, b: Seq<char>)
    ensures esc(a + b) == esc(a) + esc(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_esc_cat(a, b.drop_last());
        assert(esc(a + b) =~= esc(a) + esc(b));
    }
}
pub proof fn lemma_meta_quoted(l: Seq<char>)
    ensures quoted(meta_part_text(l)), inner(meta_part_text(l)) == esc(l + seq!['\n']), no_nl(meta_part_text(l)),
{
    let q = meta_part_text(l);
    let x = esc(l + seq!['\n']);
    lemma_esc_nl(l);
    lemma_esc_shape(l + seq!['\n']);
    assert(q =~= quote(x));
    assert(q.subrange(1, q.len() - 1) =~= x);
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] != '\n' by { if 0 < j < q.len() - 1 { assert(q[j] == x[j - 1]); } }
}
pub proof fn lemma_meta_segs(ls: Seq<Seq<char>>)
    ensures
        forall|i: int| 0 <= i < ls.len() ==> seg(#[trigger] meta_parts(ls)[i]) is Some && no_nl(meta_parts(ls)[i]),
        segs(meta_parts(ls)) == esc(lined(ls)),
    decreases ls.len(),
{
    hide(seg);
    let n = Seq::<char>::empty();
    assert forall|i: int| 0 <= i < ls.len() implies seg(#[trigger] meta_parts(ls)[i]) is Some && no_nl(meta_parts(ls)[i]) by {
        lemma_meta_quoted(ls[i]);
        lemma_seg(n, meta_part_text(ls[i]));
        assert(n + meta_part_text(ls[i]) =~= meta_parts(ls)[i]);
    }
    if ls.len() > 0 {
        let d = ls.drop_last();
        lemma_meta_segs(d);
        assert(meta_parts(ls).drop_last() =~= meta_parts(d));
        let l = ls.last();
        lemma_meta_quoted(l);
        lemma_seg(n, meta_part_text(l));
        assert(n + meta_part_text(l) =~= meta_parts(ls).last());
        lemma_esc_cat(lined(d), l + seq!['\n']);
        assert(lined(ls) =~= lined(d) + (l + seq!['\n']));
    }
}
/// msgstr of the header message
pub proof fn lemma_read_meta_msgstr(p: PSt, r: Rd, m: Seq<char>) -> (q: PSt)
    requires mid(p, r), p.state == St::MI,
    ensures whole(meta_msgstr(m)), reads(p, meta_msgstr(m)) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MS,
        mid(q, with_c(r, POEntryV { msgstr: Some(esc(lined(lines(m)))), ..r.c })), meta_msgstr(m).len() > 0,
{
    hide(classify); hide(lines); hide(seg);
    lemma_kw_names();
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    let qq = seq!['"', '"'];
    assert(blank(sp));
    lemma_meta_empty();
    let o = msgstr_open();
    theorem_line_keyword(n, "msgstr"@, sp, qq, n);
    assert(n + ("msgstr"@ + sp + qq) + n =~= o);
    assert(classify(o) == Ln::Tok(St::MS, qq, false, None));
    let p1 = step(p, o)->Ok_0;
    assert(step(p, o) is Ok);
    assert(inner(qq) =~= n);
    assert(p1.entry == set_field(St::MS, p.entry, p1.midx, n));
    let ms = meta_parts(lines(m));
    lemma_meta_segs(lines(m));
    theorem_segments(p1, St::MS, p.entry, n, ms);
    assert(n + segs(ms) =~= segs(ms));
    let all = seq![o] + ms;
    assert forall|i: int| 0 <= i < all.len() implies no_nl(#[trigger] all[i]) by { if i > 0 { assert(all[i] == ms[i - 1]); } }
    lemma_lined(p, all);
    lemma_steps_cat(p, seq![o], ms);
    lemma_steps_one(p, o);
    lemma_lined_first(all);
    steps(p1, ms)->Ok_0
}
pub proof fn lemma_meta_empty()
    ensures quoted(seq!['"', '"']),
{
    let q = seq!['"', '"'];
    assert(q.subrange(1, 1) =~= Seq::<char>::empty());
}
/// the header message, when it was read
pub open spec fn head_back(m: Seq<char>, fuzzy: bool) -> POEntryV {
    POEntryV { msgstr: Some(lined(lines(m))), flags: if fuzzy { seq!["fuzzy"@] } else { Seq::empty() }, ..po_fresh(0) }
}
pub proof fn lemma_fuzzy_flag()
    ensures flags_ok(seq!["fuzzy"@]), fuzzy_line() == seq!['#', ',', ' '] + join(seq!["fuzzy"@], seq![',', ' ']),
{
    reveal_strlit("fuzzy");
    let f = "fuzzy"@;
    assert(f =~= seq!['f', 'u', 'z', 'z', 'y']);
    assert(solid(f));
    assert(!f.contains(','));
    assert(seq![f].skip(1) =~= Seq::<Seq<char>>::empty());
    assert(join(seq![f], seq![',', ' ']) =~= f);
    assert(fuzzy_line() =~= seq!['#', ',', ' '] + f);
}
pub proof fn lemma_read_head(p: PSt, r: Rd, e: POEntryV, fuzzy: bool, t: Seq<char>) -> (q: PSt)
    requires p.state == St::HE, mid(p, r), r.c == po_fresh(0), is_po_head_text(e, fuzzy, t),
        e.msgid.len() == 0, e.msgctxt is None, e.msgid_plural is None,
    ensures whole(t), t.len() > 0, reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MS,
        inv(q, Rd { es: r.es.push(head_back(otext(e.msgstr), fuzzy)), ..r }), mid(q, with_c(r, q_head(otext(e.msgstr), fuzzy))),
{
    hide(classify); hide(lines); hide(steps); hide(unesc_entry); hide(is_field);
    let u = choose|u: Seq<char>| is_head_text(mo_of(e), u) && t == #[trigger] (fuzzy_text(fuzzy) + u);
    let n = Seq::<char>::empty();
    let m = otext(e.msgstr);
    let t0 = choose|t0: Seq<char>| is_items(mo_items3(mo_of(e), n), 78, t0) && u == #[trigger] (t0 + meta_msgstr(m));
    lemma_mid_cur(p, r);
    lemma_kw_names();
    // "#, fuzzy"
    let r1 = with_c(r, POEntryV { flags: if fuzzy { seq!["fuzzy"@] } else { Seq::empty() }, ..r.c });
    assert(po_fresh(0).flags == Seq::<Seq<char>>::empty());
    if fuzzy {
        lemma_fuzzy_flag();
        lemma_read_flags(p, r, seq!["fuzzy"@], fuzzy_text(fuzzy));
        assert(r.c.flags + seq!["fuzzy"@] =~= seq!["fuzzy"@]);
    } else {
        reveal(steps); reveal(lines);
        assert(lines(fuzzy_text(fuzzy)) =~= Seq::<Seq<char>>::empty());
        assert(r1 == r);
    }
    let p1 = reads(p, fuzzy_text(fuzzy))->Ok_0;
    assert(cur(p1, r1));
    assert(trans(St::MI, p1.state) == Some(St::MI));
    lemma_reads_cat(p, fuzzy_text(fuzzy), u);
    // msgid ""
    let it = Item::Field(n, "msgid"@, e.msgid);
    assert(mo_items3(mo_of(e), n) =~= Seq::<Item>::empty().push(it));
    let k = lemma_items_last(Seq::empty(), it, 78, t0);
    assert(t0.skip(k) =~= t0);
    assert(e.msgid =~= n);
    let p2 = lemma_read_open(p1, r1, n, "msgid"@, n, 78, t0, St::MI);
    assert(n != tilde()) by { assert(tilde().len() == 3); }
    assert(esc(n) == n);
    assert(set_field(St::MI, POEntryV { obsolete: false, ..r1.c }, 0, n) == r1.c);
    assert(with_c(r1, r1.c) == r1);
    // msgstr
    lemma_reads_cat(p1, t0, meta_msgstr(m));
    let q = lemma_read_meta_msgstr(p2, r1, m);
    lemma_whole_cat(t0, meta_msgstr(m));
    lemma_whole_cat(fuzzy_text(fuzzy), u);
    let r2 = with_c(r1, POEntryV { msgstr: Some(esc(lined(lines(m)))), ..r1.c });
    assert(r2 == with_c(r, q_head(m, fuzzy)));
    lemma_head_unesc(m, fuzzy);
    lemma_complete(q, r2, head_back(m, fuzzy), e);
    q
}
pub open spec fn q_head(m: Seq<char>, fuzzy: bool) -> POEntryV { POEntryV { msgstr: Some(esc(lined(lines(m)))), ..head_back(m, fuzzy) } }
pub proof fn lemma_head_unesc(m: Seq<char>, fuzzy: bool)
    ensures unesc_entry(q_head(m, fuzzy)) == Some(head_back(m, fuzzy)),
{
    hide(lines);
    let n = Seq::<char>::empty();
    lemma_unesc_esc(lined(lines(m)));
    lemma_unesc_esc(n);
    assert(esc(n) == n);
    let e: Seq<Seq<char>> = Seq::empty();
    lemma_unesc_all(e, e);
}

// ---------------------------------------------------------------------
// Messages, each followed by an empty line

pub open spec fn backs(es: Seq<POEntryV>) -> Seq<POEntryV> { Seq::new(es.len(), |i: int| back(es[i])) }
/// nothing is lost without the last end of line
pub open spec fn whole2(t: Seq<char>) -> bool { t.len() > 0 ==> t.last() == '\n' && whole(t.drop_last()) }
pub proof fn lemma_whole2_cat(a: Seq<char>, b: Seq<char>)
    requires whole2(a), whole2(b),
    ensures whole2(a + b),
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_whole_cat(a, b.drop_last());
    } else { assert(a + b =~= a); }
}
pub proof fn lemma_whole2_nl(a: Seq<char>)
    requires whole(a),
    ensures whole2(a + seq!['\n']),
{
    assert((a + seq!['\n']).drop_last() =~= a);
}
pub proof fn lemma_read_nl(p: PSt)
    ensures reads(p, seq!['\n']) == core::result::Result::<PSt, PErr>::Ok(PSt { line: p.line + 1, ..p }),
{
    hide(lines); hide(classify);
    let n = Seq::<char>::empty();
    lemma_line_one(n);
    assert(n + seq!['\n'] =~= seq!['\n']);
    lemma_steps_one(p, n);
    theorem_line_blank(n);
}
/// the message read last has an identity
pub open spec fn named(e: POEntryV) -> bool { e.msgid.len() > 0 || e.msgctxt is Some }
pub proof fn lemma_esc_len(s: Seq<char>)
    requires s.len() > 0,
    ensures esc(s).len() > 0,
{
    lemma_unesc_esc(s);
    if esc(s).len() == 0 { assert(unesc(esc(s)) == Some(Seq::<char>::empty())); }
}
pub proof fn lemma_read_messages(p: PSt, r: Rd, es: Seq<POEntryV>, w: int, t: Seq<char>) -> (q: PSt)
    requires inv(p, r), r.c == po_fresh(0), ends_entry(p.state), is_messages(es, w, t), forall|i: int| 0 <= i < es.len() ==> fits(#[trigger] es[i]),
    ensures whole2(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), inv(q, Rd { es: r.es + backs(es), ..r }), ends_entry(q.state),
        es.len() > 0 ==> named(q.entry), es.len() == 0 ==> q == p,
    decreases es.len(),
{
    hide(lines); hide(steps); hide(is_items); hide(po_items); hide(fits); hide(unesc_entry);
    if es.len() == 0 {
        reveal(lines); reveal(steps);
        assert(lines(t) == Seq::<Seq<char>>::empty());
        assert(r.es + backs(es) =~= r.es);
        p
    } else {
        let d = es.drop_last();
        let e = es.last();
        let nl = seq!['\n'];
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| is_messages(d, w, a) && is_items(po_items(e), w, b) && t == #[trigger] (a + (b + seq!['\n']));
        assert(e == es[es.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies fits(#[trigger] d[i]) by { assert(d[i] == es[i]); }
        let p1 = lemma_read_messages(p, r, d, w, a);
        let r1 = Rd { es: r.es + backs(d), ..r };
        let p2 = theorem_read_message(p1, r1, e, w, b);
        let q = PSt { line: p2.line + 1, ..p2 };
        lemma_read_nl(p2);
        lemma_reads_cat(p1, b, nl);
        lemma_reads_cat(p, a, b + nl);
        lemma_whole2_nl(b);
        lemma_whole2_cat(a, b + nl);
        let r2 = Rd { es: r1.es.push(back(e)), c: po_fresh(0), ..r1 };
        lemma_cur_line(p2, r2);
        assert(r2.es =~= r.es + backs(es));
        assert(named(q.entry)) by {
            reveal(fits);
            assert(core(q.entry) == full_back(e));
            assert(core(q.entry).msgid == esc(e.msgid));
            assert(core(q.entry).msgctxt == esc_opt(e.msgctxt));
            if e.msgid.len() > 0 { lemma_esc_len(e.msgid); }
        }
        q
    }
}

// ---------------------------------------------------------------------
// Files

/// the messages of a file as they are written: the obsolete ones at the end
pub open spec fn in_order(f: POFileV) -> Seq<POEntryV> { keep(f.entries, gone(false)) + keep(f.entries, gone(true)) }
/// what is read of the metadata of a text
pub open spec fn meta_back(m: Seq<char>) -> Map<Seq<char>, Seq<char>> { add_metas(Map::empty(), split(lined(lines(m)), '\n')) }
pub open spec fn is_back(f: POFileV, g: POFileV) -> bool {
    &&& cores(g.entries) == backs(in_order(f))
    &&& f.metadata == Map::<Seq<char>, Seq<char>>::empty() ==> g.metadata == meta_back(Seq::empty())
    &&& f.metadata != Map::<Seq<char>, Seq<char>>::empty() ==> exists|m: Seq<char>| is_meta_text(f.metadata, m) && #[trigger] meta_back(m) == g.metadata
            && (m.len() > 0 ==> g.metadata_is_fuzzy == f.metadata_is_fuzzy)
}
pub proof fn lemma_meta_none()
    ensures lined(lines(Seq::<char>::empty())) == Seq::<char>::empty(), meta_back(Seq::empty()) == Map::<Seq<char>, Seq<char>>::empty(),
{
    let n = Seq::<char>::empty();
    assert(lines(n) == Seq::<Seq<char>>::empty());
    lemma_cpos(n, '\n');
    assert(split(n, '\n') =~= seq![n]);
    assert(seq![n].drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(add_metas, 2);
}
pub proof fn lemma_lined_empty(m: Seq<char>)
    ensures m.len() > 0 ==> lined(lines(m)).len() > 0, m.len() == 0 ==> lined(lines(m)).len() == 0,
{
    if m.len() > 0 { lemma_lines_some(m); } else { assert(lines(m) == Seq::<Seq<char>>::empty()); }
}
/// the header message is the first one without identity
pub proof fn lemma_take_head(f: POFileV, h: POEntryV, es: Seq<POEntryV>)
    requires
        cores(f.entries) == seq![h] + backs(es), is_head(h), core(h) == h, f.metadata == Map::<Seq<char>, Seq<char>>::empty(),
        forall|i: int| 0 <= i < es.len() ==> fits(#[trigger] es[i]),
    ensures
        cores(take_head(f).entries) == backs(es), take_head(f).metadata_is_fuzzy == is_fuzzy(h),
        take_head(f).metadata == add_metas(Map::empty(), split(otext(h.msgstr), '\n')),
{
    let a = f.entries;
    let x = a[0];
    let n = a.len() as int;
    assert(cores(a).len() == 1 + es.len());
    assert(cores(a)[0] == h);
    assert(core(x) == h);
    assert(first(a, |e: POEntryV| is_head(e)) == Some(x));
    assert forall|i: int| 1 <= i < n implies #[trigger] a[i] != x by {
        assert(cores(a)[i] == backs(es)[i - 1]);
        assert(core(a[i]) == back(es[i - 1]));
        assert(fits(es[i - 1]));
        assert(core(a[i]).msgid == a[i].msgid && core(a[i]).msgctxt == a[i].msgctxt);
        assert(core(x).msgid == x.msgid && core(x).msgctxt == x.msgctxt);
    }
    lemma_keep_rest(a, x, n);
    assert(a.take(n) =~= a);
    assert(take_head(f).entries == a.skip(1));
    assert(cores(a.skip(1)) =~= backs(es)) by {
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] cores(a.skip(1))[i] == backs(es)[i] by { assert(cores(a)[i + 1] == backs(es)[i]); }
    }
    assert(core(x).msgstr == x.msgstr && core(x).flags == x.flags);
}
pub proof fn lemma_keep_rest(a: Seq<POEntryV>, x: POEntryV, n: int)
    requires 1 <= n <= a.len(), a[0] == x, forall|i: int| 1 <= i < a.len() ==> #[trigger] a[i] != x,
    ensures keep(a.take(n), not_entry(x)) == a.take(n).skip(1),
    decreases n,
{
    if n == 1 {
        lemma_keep_step(a, 0, not_entry(x));
        assert(a.take(0) =~= Seq::<POEntryV>::empty());
        assert(a.take(1).skip(1) =~= Seq::<POEntryV>::empty());
    } else {
        lemma_keep_rest(a, x, n - 1);
        lemma_keep_step(a, n - 1, not_entry(x));
        assert(a[n - 1] != x);
        assert(a.take(n - 1).skip(1).push(a[n - 1]) =~= a.take(n).skip(1));
    }
}
pub proof fn lemma_cur_back(p: PSt, r: Rd)
    requires cur(PSt { line: p.line + 1, ..p }, r),
    ensures cur(p, r),
{
    hide(unesc_entry);
}
/// the lines of a written file, read
pub proof fn lemma_read_text(o: FileOptionsV, f: POFileV, e: POEntryV, m: Seq<char>, a: Seq<char>, b: Seq<char>) -> (q: PSt)
    requires
        is_file_head(f, e), is_po_head_text(e, f.metadata_is_fuzzy, m),
        is_messages(keep(f.entries, gone(false)), f.options.wrapwidth as int, a),
        is_messages(keep(f.entries, gone(true)), f.options.wrapwidth as int, b),
        forall|i: int| 0 <= i < f.entries.len() ==> fits(#[trigger] f.entries[i]),
    ensures
        ({
            let t = file_text(f.header, m, a, b);
            let h = head_back(otext(e.msgstr), f.metadata_is_fuzzy);
            &&& t.len() > 0 && t[0] == '#'
            &&& reads(pst_fresh(o), t) == core::result::Result::<PSt, PErr>::Ok(q)
            &&& ends_entry(q.state)
            &&& cur(q, Rd { g: rest(q.file), es: seq![h] + backs(in_order(f)), c: po_fresh(0) })
            &&& q.file.metadata == Map::<Seq<char>, Seq<char>>::empty()
            &&& in_order(f).len() > 0 ==> named(q.entry)
            &&& in_order(f).len() == 0 ==> core(q.entry) == q_head(otext(e.msgstr), f.metadata_is_fuzzy) && q.file.entries.len() == 0
        }),
{
    hide(lines); hide(steps); hide(is_messages); hide(fits); hide(unesc_entry); hide(is_po_head_text); hide(keep);
    let p = pst_fresh(o);
    let nl = seq!['\n'];
    let h = lined(head_lines(f.header));
    let w = f.options.wrapwidth as int;
    let (es, os) = (keep(f.entries, gone(false)), keep(f.entries, gone(true)));
    lemma_keep_meaning(f.entries, gone(false));
    lemma_keep_meaning(f.entries, gone(true));
    assert forall|i: int| 0 <= i < es.len() implies fits(#[trigger] es[i]) by { assert(f.entries.contains(es[i])); let j = choose|j: int| 0 <= j < f.entries.len() && f.entries[j] == es[i]; assert(fits(f.entries[j])); }
    assert forall|i: int| 0 <= i < os.len() implies fits(#[trigger] os[i]) by { assert(f.entries.contains(os[i])); let j = choose|j: int| 0 <= j < f.entries.len() && f.entries[j] == os[i]; assert(fits(f.entries[j])); }
    let p1 = lemma_read_header(p, f.header);
    let r = Rd { g: rest(p1.file), es: Seq::empty(), c: po_fresh(0) };
    assert(cores(p1.file.entries) =~= Seq::<POEntryV>::empty());
    let p2 = lemma_read_head(p1, r, e, f.metadata_is_fuzzy, m);
    let hb = head_back(otext(e.msgstr), f.metadata_is_fuzzy);
    let r2 = Rd { es: r.es.push(hb), ..r };
    assert(r2.es =~= seq![hb]);
    let p3 = PSt { line: p2.line + 1, ..p2 };
    lemma_read_nl(p2);
    lemma_cur_line(p2, r2);
    let p4 = lemma_read_messages(p3, r2, es, w, a);
    let r4 = Rd { es: r2.es + backs(es), ..r2 };
    let p5 = lemma_read_messages(p4, r4, os, w, b);
    let r5 = Rd { es: r4.es + backs(os), ..r4 };
    assert(r5.es =~= seq![hb] + backs(in_order(f)));
    // the whole text
    lemma_reads_cat(p, h, m);
    lemma_whole_cat(h, m);
    lemma_reads_cat(p, h + m, nl);
    let x = h + m + nl;
    lemma_whole2_nl(h + m);
    lemma_reads_cat(p, x, a);
    lemma_whole2_cat(x, a);
    lemma_reads_cat(p, x + a, b);
    lemma_whole2_cat(x + a, b);
    let all = x + a + b;
    let t = file_text(f.header, m, a, b);
    assert(t + nl =~= all);
    lemma_reads_cat(p, t, nl);
    let q = reads(p, t)->Ok_0;
    assert(reads(p, t) is Ok);
    lemma_read_nl(q);
    assert(p5 == PSt { line: q.line + 1, ..q });
    lemma_cur_back(q, r5);
    assert(t.len() > 0);
    assert(t[0] == all[0]);
    assert(all[0] == h[0]);
    assert(rest(q.file) == r.g) by {
        assert(mid(mflush(q)->Ok_0, r5));
        assert(rest((mflush(q)->Ok_0).file) == rest(q.file));
    }
    if in_order(f).len() == 0 {
        assert(p5 == p4 && p4 == p3);
        assert(cores(q.file.entries).len() == 0);
    }
    q
}
/// C04: what is written is read back
pub proof fn theorem_written(o: FileOptionsV, f: POFileV, t: Seq<char>)
    requires is_file_text(f, t), forall|i: int| 0 <= i < f.entries.len() ==> fits(#[trigger] f.entries[i]),
    ensures
        read_all(pst_fresh(o), somes(lines(t))) is Ok,
        is_back(f, (read_all(pst_fresh(o), somes(lines(t)))->Ok_0).file),
{
    hide(lines); hide(steps); hide(is_messages); hide(fits); hide(unesc_entry); hide(is_po_head_text); hide(keep);
    let (e, m, a, b) = choose|e: POEntryV, m: Seq<char>, a: Seq<char>, b: Seq<char>| is_file_head(f, e) && #[trigger] is_po_head_text(e, f.metadata_is_fuzzy, m)
        && is_messages(keep(f.entries, gone(false)), f.options.wrapwidth as int, a)
        && is_messages(keep(f.entries, gone(true)), f.options.wrapwidth as int, b)
        && t == #[trigger] file_text(f.header, m, a, b);
    let q = lemma_read_text(o, f, e, m, a, b);
    let p = pst_fresh(o);
    let s = otext(e.msgstr);
    let h = head_back(s, f.metadata_is_fuzzy);
    let es = in_order(f);
    lemma_first_line(t);
    lemma_run_steps(p, lines(t));
    lemma_lined_empty(s);
    assert forall|i: int| 0 <= i < es.len() implies fits(#[trigger] es[i]) by { lemma_in_order(f, i); }
    let none = Map::<Seq<char>, Seq<char>>::empty();
    assert(otext(h.msgstr) == lined(lines(s)));
    lemma_meta_none();
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
    if es.len() > 0 || s.len() > 0 {
        if es.len() == 0 {
            assert(q.entry.msgstr == core(q.entry).msgstr);
            lemma_esc_len(lined(lines(s)));
        }
        assert(close(q) == flush(q));
        let z = flush(q)->Ok_0;
        assert(mflush(q) == flush(q));
        assert(cores(z.file.entries) == seq![h] + backs(es));
        lemma_take_head(z.file, h, es);
        lemma_fuzzy_head(s, f.metadata_is_fuzzy);
        assert(meta_back(s) == take_head(z.file).metadata);
    } else {
        assert(q.entry.msgid == core(q.entry).msgid && q.entry.msgctxt == core(q.entry).msgctxt && q.entry.msgstr == core(q.entry).msgstr);
        assert(esc(Seq::<char>::empty()) == Seq::<char>::empty());
        assert(close(q) == core::result::Result::<PSt, PErr>::Ok(q));
        assert(first(q.file.entries, |e: POEntryV| is_head(e)) is None);
        assert(take_head(q.file) == q.file);
        assert(cores(q.file.entries) =~= backs(es));
        assert(meta_back(s) == q.file.metadata);
    }
}
pub proof fn lemma_fuzzy_head(m: Seq<char>, f: bool)
    ensures is_fuzzy(head_back(m, f)) == f, is_head(head_back(m, f)), core(head_back(m, f)) == head_back(m, f),
{
    hide(lines);
    if f { assert(seq!["fuzzy"@][0] == "fuzzy"@); assert(seq!["fuzzy"@].contains("fuzzy"@)); }
}
pub proof fn lemma_first_line(t: Seq<char>)
    requires t.len() > 0, t[0] == '#',
    ensures lines(t).len() > 0, lines(t)[0].len() > 0, lines(t)[0][0] == '#',
{
    let k = cpos(t, '\n');
    lemma_cpos(t, '\n');
    if k < t.len() {
        assert(k > 0);
        assert(lines(t)[0] == strip_cr(t.take(k)));
        assert(t.take(k)[0] == '#');
    }
}
pub proof fn lemma_in_order(f: POFileV, i: int)
    requires 0 <= i < in_order(f).len(), forall|i: int| 0 <= i < f.entries.len() ==> fits(#[trigger] f.entries[i]),
    ensures fits(in_order(f)[i]),
{
    hide(fits);
    let (es, os) = (keep(f.entries, gone(false)), keep(f.entries, gone(true)));
    lemma_keep_meaning(f.entries, gone(false));
    lemma_keep_meaning(f.entries, gone(true));
    if i < es.len() { assert(f.entries.contains(es[i])); } else { assert(f.entries.contains(os[i - es.len()])); }
    let x = in_order(f)[i];
    assert(f.entries.contains(x));
    let j = choose|j: int| 0 <= j < f.entries.len() && f.entries[j] == x;
    assert(fits(f.entries[j]));
}

// ---------------------------------------------------------------------
// C16: the metadata is read back

proof fn lemma_spos(k: Seq<char>, p: Seq<char>, v: Seq<char>)
    requires !k.contains(':'), p == seq![':', ' '],
    ensures spos(k + p + v, p) == k.len(),
    decreases k.len(),
{
    let l = k + p + v;
    if k.len() == 0 {
        assert(l.take(2) =~= p);
    } else {
        assert(l[0] == k[0]);
        assert(k.contains(k[0]));
        if has_prefix(l, p) { assert(l.take(2)[0] == ':'); }
        assert(l.skip(1) =~= k.skip(1) + p + v);
        if k.skip(1).contains(':') { let j = choose|j: int| 0 <= j < k.skip(1).len() && k.skip(1)[j] == ':'; assert(k[j + 1] == ':'); }
        lemma_spos(k.skip(1), p, v);
    }
}
proof fn lemma_add_meta(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<char>)
    requires !k.contains(':'), trim(v) == v, !m.contains_key(k),
    ensures add_meta(m, k + seq![':', ' '] + v) == m.insert(k, v),
{
    let p = ": "@;
    reveal_strlit(": ");
    assert(p =~= seq![':', ' ']);
    lemma_spos(k, p, v);
    let l = k + p + v;
    assert(l.take(k.len() as int) =~= k);
    assert(l.skip(k.len() as int + 2) =~= v);
}
proof fn lemma_metas_back(m: Map<Seq<char>, Seq<char>>, ps: Seq<(Seq<char>, Seq<char>)>, n: int)
    requires clean_meta(m), is_meta_order(m, ps), 0 <= n <= ps.len(),
    ensures ({
        let r = add_metas(Map::empty(), meta_lines_of(ps).take(n));
        &&& forall|k: Seq<char>| #[trigger] r.contains_key(k) ==> m.contains_key(k) && m[k] == r[k] && exists|i: int| 0 <= i < n && (#[trigger] ps[i]).0 == k
        &&& forall|i: int| 0 <= i < n ==> r.contains_key((#[trigger] ps[i]).0)
    }),
    decreases n,
{
    if n > 0 {
        lemma_metas_back(m, ps, n - 1);
        let l = meta_lines_of(ps);
        assert(l.take(n).drop_last() =~= l.take(n - 1));
        assert(l.take(n).last() == l[n - 1]);
        let k = ps[n - 1].0;
        assert(m.contains_key(k));
        let r = add_metas(Map::empty(), l.take(n - 1));
        if r.contains_key(k) {
            let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ps[i]).0 == k;
            assert(key_before(ps[i].0, ps[n - 1].0));
            lemma_key_self(k);
        }
        lemma_add_meta(r, k, ps[n - 1].1);
        assert forall|x: Seq<char>| #[trigger] r.insert(k, ps[n - 1].1).contains_key(x) implies exists|i: int| 0 <= i < n && (#[trigger] ps[i]).0 == x by {
            if x == k { assert(ps[n - 1].0 == x); } else { assert(r.contains_key(x)); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] ps[i]).0 == x; assert(ps[i].0 == x); }
        }
    }
}
proof fn lemma_lines_join(ls: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ls.len() ==> no_nl(#[trigger] ls[i]) && ls[i].len() > 0 && ls[i].last() != '\r',
    ensures lines(join(ls, seq!['\n'])) == ls,
    decreases ls.len(),
{
    let s = join(ls, seq!['\n']);
    if ls.len() == 1 {
        lemma_cpos(s, '\n');
        assert(no_nl(ls[0]));
        if cpos(s, '\n') < s.len() { assert(s.contains('\n')); }
        assert(lines(s) =~= ls);
    } else if ls.len() > 1 {
        assert(no_nl(ls[0]));
        assert forall|i: int| 0 <= i < ls.skip(1).len() implies no_nl(#[trigger] ls.skip(1)[i]) && ls.skip(1)[i].len() > 0 && ls.skip(1)[i].last() != '\r' by { assert(ls.skip(1)[i] == ls[i + 1]); }
        lemma_lines_join(ls.skip(1));
        let k = ls[0].len() as int;
        assert forall|i: int| 0 <= i < k implies s[i] != '\n' by { assert(s[i] == ls[0][i]); if ls[0][i] == '\n' { assert(ls[0].contains('\n')); } }
        lemma_cpos_is(s, '\n', k);
        assert(s.take(k) =~= ls[0]);
        assert(s.skip(k + 1) =~= join(ls.skip(1), seq!['\n']));
        assert(strip_cr(ls[0]) == ls[0]);
        assert(lines(s) =~= ls);
    } else {
        assert(lines(s) =~= ls);
    }
}
proof fn lemma_split_lined(ls: Seq<Seq<char>>)
    requires ls.len() > 0, forall|i: int| 0 <= i < ls.len() ==> !(#[trigger] ls[i]).contains('\n'),
    ensures split(lined(ls), '\n') == ls.push(Seq::empty()),
{
    let x = ls.push(Seq::empty());
    assert forall|i: int| 0 <= i < x.len() implies !(#[trigger] x[i]).contains('\n') by { if i < ls.len() { assert(x[i] == ls[i]); } }
    lemma_split_join(x, '\n');
    lemma_join_lined(ls);
    lemma_join_end(ls);
}
proof fn lemma_join_end(ls: Seq<Seq<char>>)
    requires ls.len() > 0,
    ensures join(ls.push(Seq::empty()), seq!['\n']) == join(ls, seq!['\n']) + seq!['\n'],
    decreases ls.len(),
{
    let x = ls.push(Seq::<char>::empty());
    let nl = seq!['\n'];
    if ls.len() == 1 {
        assert(x.skip(1) =~= seq![Seq::<char>::empty()]);
        reveal_with_fuel(join, 3);
        assert(join(x, nl) =~= ls[0] + nl);
    } else {
        lemma_join_end(ls.skip(1));
        assert(x.skip(1) =~= ls.skip(1).push(Seq::empty()));
        assert(join(x, nl) =~= join(ls, nl) + nl);
    }
}
pub proof fn theorem_meta_read(m: Map<Seq<char>, Seq<char>>, t: Seq<char>)
    requires clean_meta(m), is_meta_text(m, t),
    ensures meta_back(t) == m, t.len() == 0 ==> m == Map::<Seq<char>, Seq<char>>::empty(),
{
    hide(lines); hide(split); hide(split_once); hide(trim); hide(join);
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| #[trigger] is_meta_order(m, ps) && t == join(meta_lines_of(ps), seq!['\n']);
    let l = meta_lines_of(ps);
    if ps.len() == 0 {
        lemma_meta_none();
        reveal(join);
        assert(t =~= Seq::<char>::empty());
        assert(m =~= Map::empty());
    } else {
        let n = ps.len() as int;
        assert forall|i: int| 0 <= i < l.len() implies no_nl(#[trigger] l[i]) && !l[i].contains('\n') && l[i].len() > 0 && l[i].last() != '\r' by {
            assert(m.contains_key(ps[i].0));
            lemma_meta_row(ps[i].0, ps[i].1);
        }
        lemma_lines_join(l);
        lemma_split_lined(l);
        lemma_metas_back(m, ps, n);
        assert(l.take(n) =~= l);
        let r = add_metas(Map::empty(), l);
        let x = l.push(Seq::<char>::empty());
        assert(x.drop_last() =~= l);
        lemma_no_colon();
        assert(x.last() == Seq::<char>::empty());
        assert(add_metas(Map::empty(), x) == r);
        assert forall|k: Seq<char>| m.contains_key(k) implies #[trigger] r.contains_key(k) by {
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == k;
            assert(r.contains_key(ps[i].0));
        }
        assert(r =~= m);
        lemma_first_some(l);
    }
}
proof fn lemma_first_some(ls: Seq<Seq<char>>)
    requires ls.len() > 0, ls[0].len() > 0,
    ensures join(ls, seq!['\n']).len() > 0,
{ }
proof fn lemma_no_colon()
    ensures split_once(Seq::<char>::empty(), ": "@) is None,
{
    reveal_strlit(": ");
}
proof fn lemma_trimmed_end(v: Seq<char>)
    requires trim(v) == v, v.len() > 0,
    ensures !is_ws(v.last()), v.last() != '\r',
{
    lemma_trim(v);
}
proof fn lemma_meta_row(k: Seq<char>, v: Seq<char>)
    requires !k.contains('\n'), !v.contains('\n'), trim(v) == v,
    ensures ({ let l = k + seq![':', ' '] + v; no_nl(l) && !l.contains('\n') && l.len() > 0 && l.last() != '\r' }),
{
    let l = k + seq![':', ' '] + v;
    assert forall|j: int| 0 <= j < l.len() implies #[trigger] l[j] != '\n' by {
        if l[j] == '\n' {
            if j < k.len() { assert(k[j] == '\n'); assert(k.contains('\n')); }
            else if j >= k.len() + 2 { assert(v[j - k.len() - 2] == '\n'); assert(v.contains('\n')); }
        }
    }
    if v.len() > 0 { assert(l.last() == v.last()); lemma_trimmed_end(v); } else { assert(l.last() == ' '); }
}

// ---------------------------------------------------------------------
// C04 and C16: reading what was written

/// `BufRead::lines` of a text are its `str::lines` (compared by the oracle)
pub axiom fn axiom_byte_lines(s: Seq<char>)
    ensures byte_lines(vstd::utf8::encode_utf8(s)) == somes(lines(s));
pub open spec fn is_text(o: FileOptionsV, t: Seq<char>) -> bool {
    match o.byte_content { Some(b) => b == vstd::utf8::encode_utf8(t), None => o.path_or_content == t }
}
pub proof fn theorem_po_round(f: POFileV, t: Seq<char>, o: FileOptionsV)
    requires is_file_text(f, t), is_text(o, t), forall|i: int| 0 <= i < f.entries.len() ==> fits(#[trigger] f.entries[i]),
    ensures
        read_file(o) is Ok,
        cores((read_file(o)->Ok_0).entries) == backs(in_order(f)),
        clean_meta(f.metadata) ==> (read_file(o)->Ok_0).metadata == f.metadata,
        clean_meta(f.metadata) && f.metadata != Map::<Seq<char>, Seq<char>>::empty() ==> (read_file(o)->Ok_0).metadata_is_fuzzy == f.metadata_is_fuzzy,
{
    hide(fits); hide(is_file_text); hide(lines); hide(in_order); hide(read_all);
    axiom_byte_lines(t);
    theorem_written(o, f, t);
    lemma_meta_none();
    let g = read_file(o)->Ok_0;
    if clean_meta(f.metadata) && f.metadata != Map::<Seq<char>, Seq<char>>::empty() {
        let m = choose|m: Seq<char>| is_meta_text(f.metadata, m) && #[trigger] meta_back(m) == g.metadata && (m.len() > 0 ==> g.metadata_is_fuzzy == f.metadata_is_fuzzy);
        theorem_meta_read(f.metadata, m);
    }
}
} // verus!
