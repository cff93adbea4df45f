// Reading a written message gives the message (C04)
verus! {
pub open spec fn esc_opt(o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(s) => Some(esc(s)), None => None } }
pub open spec fn esc_all(s: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| esc(s[i])) }

// ---------------------------------------------------------------------
// The items before the fields of the message

/// what an item adds to a message
pub open spec fn app(it: Item, c: POEntryV) -> POEntryV {
    match it {
        Item::Cmt(_, _) => c,
        Item::Occs(o) => add_occs(c, o),
        Item::Flags(f) => add_flags(c, f),
        Item::Field(del, k, v) => if del == tildebar() { c } else { set_field(pkw(k)->0, c, 0, esc(v)) },
    }
}
pub open spec fn apps(its: Seq<Item>, c: POEntryV) -> POEntryV
    decreases its.len()
{
    if its.len() == 0 { c } else { app(its.last(), apps(its.drop_last(), c)) }
}
pub open spec fn front_ok(it: Item) -> bool {
    match it {
        Item::Cmt(mark, line) => (mark == seq!['#', ' '] || mark == seq!['#', '.', ' ']) && no_nl(line),
        Item::Occs(o) => words(o),
        Item::Flags(f) => f.len() > 0 && flags_ok(f),
        Item::Field(del, k, v) => (del == bar() || del == tildebar()) && is_pkw(k),
    }
}
pub proof fn lemma_concat_nl(p: Seq<Seq<char>>)
    requires no_nl(concat(p)),
    ensures forall|i: int| 0 <= i < p.len() ==> no_nl(#[trigger] p[i]),
{
    assert forall|i: int| 0 <= i < p.len() implies no_nl(#[trigger] p[i]) by {
        lemma_pos(p, i);
        let x = p[i];
        let s = concat(p);
        assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != '\n' by {
            assert(x[j] == s.subrange(pos(p, i), pos(p, i + 1))[j]);
            assert(s[pos(p, i) + j] != '\n');
        }
    }
}
pub proof fn lemma_read_front1(p: PSt, r: Rd, it: Item, w: int, t: Seq<char>)
    requires inv(p, r), front_ok(it), item_ok(it, w, t),
    ensures whole(t), reads(p, t) is Ok, inv(reads(p, t)->Ok_0, with_c(r, app(it, r.c))),
{
    hide(cur); hide(steps); hide(lines); hide(is_parts); hide(classify); hide(quotes_ok);
    match it {
        Item::Cmt(mark, line) => {
            let ps = choose|ps: Seq<Seq<char>>| #[trigger] is_cut(line, ps) && t == marked(mark, ps);
            lemma_concat_nl(ps);
            lemma_read_comments(p, r, mark, ps);
            assert(with_c(r, r.c) == r);
        },
        Item::Occs(o) => {
            let g = choose|g: Seq<Seq<Seq<char>>>| #[trigger] is_groups(o, g) && t == join(occ_lines(g), seq!['\n']) + seq!['\n'];
            lemma_groups_words(o, g);
            lemma_read_occs(p, r, g);
            lemma_join_lined(occ_lines(g));
            lemma_lined(p, occ_lines(g));
        },
        Item::Flags(f) => { lemma_read_flags(p, r, f, t); },
        Item::Field(del, k, v) => {
            if del == tildebar() {
                lemma_read_skipped(p, r, k, v, w, t);
                assert(with_c(r, r.c) == r);
            } else {
                let a = pkw(k)->0;
                assert(del != tildebar());
                let q = lemma_read_open(p, r, del, k, v, w, t, a);
                lemma_mid_cur(q, with_c(r, set_field(a, r.c, 0, esc(v))));
            }
        },
    }
}
pub proof fn lemma_read_front(p: PSt, r: Rd, its: Seq<Item>, w: int, t: Seq<char>)
    requires inv(p, r), forall|i: int| 0 <= i < its.len() ==> front_ok(#[trigger] its[i]), is_items(its, w, t),
    ensures whole(t), reads(p, t) is Ok, inv(reads(p, t)->Ok_0, with_c(r, apps(its, r.c))),
    decreases its.len(),
{
    hide(cur); hide(steps); hide(lines); hide(item_ok); hide(front_ok); hide(app);
    if its.len() == 0 {
        reveal(lines); reveal(steps);
        assert(lines(t) == Seq::<Seq<char>>::empty());
        assert(with_c(r, r.c) == r);
    } else {
        let k = choose|k: int| #[trigger] cut_at(t, k) && is_items(its.drop_last(), w, t.take(k)) && item_ok(its.last(), w, t.skip(k));
        let d = its.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies front_ok(#[trigger] d[i]) by { assert(d[i] == its[i]); }
        lemma_read_front(p, r, d, w, t.take(k));
        let q = reads(p, t.take(k))->Ok_0;
        let r1 = with_c(r, apps(d, r.c));
        assert(its.last() == its[its.len() - 1]);
        lemma_read_front1(q, r1, its.last(), w, t.skip(k));
        assert(t =~= t.take(k) + t.skip(k));
        lemma_reads_cat(p, t.take(k), t.skip(k));
        assert(with_c(r1, app(its.last(), r1.c)) == with_c(r, apps(its, r.c)));
        if t.skip(k).len() > 0 { assert(t.last() == t.skip(k).last()); } else { assert(t =~= t.take(k)); }
    }
}
pub proof fn lemma_apps_cmts(its: Seq<Item>, mark: Seq<char>, ls: Seq<Seq<char>>, c: POEntryV)
    ensures apps(its + cmt_items(mark, ls), c) == apps(its, c),
    decreases ls.len(),
{
    let b = cmt_items(mark, ls);
    if ls.len() == 0 {
        assert(its + b =~= its);
    } else {
        lemma_apps_cmts(its, mark, ls.drop_last(), c);
        assert((its + b).drop_last() =~= its + cmt_items(mark, ls.drop_last()));
        assert((its + b).last() == Item::Cmt(mark, ls.last()));
    }
}
pub proof fn lemma_apps_push(its: Seq<Item>, it: Item, c: POEntryV)
    ensures apps(its.push(it), c) == app(it, apps(its, c)),
{
    assert(its.push(it).drop_last() =~= its);
}
pub proof fn lemma_lines_nl(s: Seq<char>)
    ensures forall|i: int| 0 <= i < lines(s).len() ==> no_nl(#[trigger] lines(s)[i]),
    decreases s.len(),
{
    lemma_cpos(s, '\n');
    let k = cpos(s, '\n');
    if s.len() == 0 {
        assert(lines(s).len() == 0);
    } else if k >= s.len() {
        assert(lines(s) == seq![s]);
        assert(no_nl(s)) by { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != '\n' by {} }
    } else {
        lemma_lines_nl(s.skip(k + 1));
        let x = strip_cr(s.take(k));
        assert(no_nl(x)) by { assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != '\n' by { assert(x[j] == s[j]); } }
        let z = lines(s.skip(k + 1));
        assert(lines(s) == seq![x] + z);
        assert forall|i: int| 0 <= i < lines(s).len() implies no_nl(#[trigger] lines(s)[i]) by {
            if i == 0 { assert(lines(s)[0] == x); } else { assert(lines(s)[i] == z[i - 1]); }
        }
    }
}

/// occurrences: file names without whitespace and colons, lines of digits
pub open spec fn occ_fits(o: (Seq<char>, Seq<char>)) -> bool {
    o.0.len() > 0 && no_ws(o.0) && !o.0.contains(':') && all_digits(o.1)
}
/// the messages of C04
pub open spec fn fits(e: POEntryV) -> bool {
    &&& e.msgid.len() > 0 || e.msgctxt is Some
    &&& e.msgstr is Some ==> e.msgstr_plural.len() == 0
    &&& e.msgstr is None ==> 0 < e.msgstr_plural.len()
    &&& e.msgstr_plural.len() <= 256
    &&& flags_ok(e.flags)
    &&& forall|i: int| 0 <= i < e.occurrences.len() ==> occ_fits(#[trigger] e.occurrences[i])
}
/// the message read again
pub open spec fn back(e: POEntryV) -> POEntryV {
    if e.obsolete {
        POEntryV { occurrences: Seq::empty(), previous_msgid: None, previous_msgid_plural: None, previous_msgctxt: None, ..core(e) }
    } else { core(e) }
}
/// before it is complete
pub open spec fn front_back(e: POEntryV) -> POEntryV {
    POEntryV {
        occurrences: if e.obsolete { Seq::empty() } else { e.occurrences },
        flags: e.flags,
        previous_msgid: if e.obsolete { None } else { esc_opt(e.previous_msgid) },
        previous_msgid_plural: if e.obsolete { None } else { esc_opt(e.previous_msgid_plural) },
        previous_msgctxt: if e.obsolete { None } else { esc_opt(e.previous_msgctxt) },
        ..po_fresh(0)
    }
}
pub open spec fn full_back(e: POEntryV) -> POEntryV {
    POEntryV {
        msgid: esc(e.msgid), msgstr: esc_opt(e.msgstr), msgid_plural: esc_opt(e.msgid_plural), msgstr_plural: esc_all(e.msgstr_plural),
        msgctxt: esc_opt(e.msgctxt), obsolete: e.obsolete,
        ..front_back(e)
    }
}
pub proof fn lemma_occ_back(o: (Seq<char>, Seq<char>))
    requires occ_fits(o),
    ensures occ_of(occ_text(o)) == o, occ_text(o).len() > 0, no_ws(occ_text(o)),
{
    let s = occ_text(o);
    lemma_cpos(s, ':');
    if o.1.len() == 0 {
        assert(!s.contains(':'));
        assert(o.1 =~= Seq::<char>::empty());
    } else {
        let n = o.0.len() as int;
        assert forall|i: int| 0 <= i < n implies s[i] != ':' by { assert(s[i] == o.0[i]); }
        assert(s[n] == ':');
        lemma_cpos_is(s, ':', n);
        assert(s.contains(':'));
        assert(s.skip(n + 1) =~= o.1);
        assert(s.take(n) =~= o.0);
        assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by {
            if i < n { assert(s[i] == o.0[i]); } else if i > n { assert(s[i] == o.1[i - n - 1]); assert(is_digit(o.1[i - n - 1])); }
        }
    }
}
pub proof fn lemma_occs_back(o: Seq<(Seq<char>, Seq<char>)>)
    requires forall|i: int| 0 <= i < o.len() ==> occ_fits(#[trigger] o[i]),
    ensures occs_of(occ_texts(o)) == o, words(occ_texts(o)),
{
    hide(occ_of); hide(occ_text); hide(occ_fits);
    let t = occ_texts(o);
    assert forall|i: int| 0 <= i < o.len() implies occ_of(#[trigger] t[i]) == o[i] && t[i].len() > 0 && no_ws(t[i]) by { lemma_occ_back(o[i]); }
    assert(occs_of(t) =~= o);
}
pub proof fn lemma_front(e: POEntryV)
    requires fits(e),
    ensures
        forall|i: int| 0 <= i < po_items7(e).len() ==> front_ok(#[trigger] po_items7(e)[i]),
        apps(po_items7(e), po_fresh(0)) == front_back(e),
{
    hide(lines); hide(no_nl); hide(flags_ok); hide(words); hide(occ_texts);
    let c0 = po_fresh(0);
    let n = Seq::<Item>::empty();
    lemma_kw_names();
    lemma_occs_back(e.occurrences);
    if e.tcomment is Some { lemma_lines_nl(e.tcomment->0); lemma_apps_cmts(n, seq!['#', ' '], lines(e.tcomment->0), c0); }
    let i1 = po_items1(e);
    assert(apps(i1, c0) == c0);
    assert forall|i: int| 0 <= i < i1.len() implies front_ok(#[trigger] i1[i]) by {}
    if e.comment is Some { lemma_lines_nl(e.comment->0); lemma_apps_cmts(i1, seq!['#', '.', ' '], lines(e.comment->0), c0); }
    let i2 = po_items2(e);
    assert(apps(i2, c0) == c0);
    assert forall|i: int| 0 <= i < i2.len() implies front_ok(#[trigger] i2[i]) by { if i < i1.len() { assert(i2[i] == i1[i]); } }
    let i3 = po_items3(e);
    let c3 = POEntryV { occurrences: if e.obsolete { Seq::empty() } else { e.occurrences }, ..c0 };
    lemma_apps_push(i2, Item::Occs(occ_texts(e.occurrences)), c0);
    assert(apps(i3, c0) == c3) by {
        assert(c0.occurrences + e.occurrences =~= e.occurrences);
        if e.occurrences.len() == 0 { assert(e.occurrences =~= Seq::empty()); }
    }
    assert forall|i: int| 0 <= i < i3.len() implies front_ok(#[trigger] i3[i]) by { if i < i2.len() { assert(i3[i] == i2[i]); } }
    let i4 = po_items4(e);
    let c4 = POEntryV { flags: e.flags, ..c3 };
    lemma_apps_push(i3, Item::Flags(e.flags), c0);
    assert(apps(i4, c0) == c4) by {
        assert(c0.flags + e.flags =~= e.flags);
        if e.flags.len() == 0 { assert(e.flags =~= Seq::empty()); }
    }
    assert forall|i: int| 0 <= i < i4.len() implies front_ok(#[trigger] i4[i]) by { if i < i3.len() { assert(i4[i] == i3[i]); } }
    let m = prev_mark(e);
    assert(m == tildebar() || m == bar());
    assert(tildebar() != bar()) by { assert(tildebar().len() != bar().len()); }
    let i5 = po_items5(e);
    let c5 = POEntryV { previous_msgctxt: if e.obsolete { None } else { esc_opt(e.previous_msgctxt) }, ..c4 };
    if e.previous_msgctxt is Some { lemma_apps_push(i4, Item::Field(m, "msgctxt"@, e.previous_msgctxt->0), c0); }
    assert(apps(i5, c0) == c5);
    assert forall|i: int| 0 <= i < i5.len() implies front_ok(#[trigger] i5[i]) by { if i < i4.len() { assert(i5[i] == i4[i]); } }
    let i6 = po_items6(e);
    let c6 = POEntryV { previous_msgid: if e.obsolete { None } else { esc_opt(e.previous_msgid) }, ..c5 };
    if e.previous_msgid is Some { lemma_apps_push(i5, Item::Field(m, "msgid"@, e.previous_msgid->0), c0); }
    assert(apps(i6, c0) == c6);
    assert forall|i: int| 0 <= i < i6.len() implies front_ok(#[trigger] i6[i]) by { if i < i5.len() { assert(i6[i] == i5[i]); } }
    let i7 = po_items7(e);
    if e.previous_msgid_plural is Some { lemma_apps_push(i6, Item::Field(m, "msgid_plural"@, e.previous_msgid_plural->0), c0); }
    assert(apps(i7, c0) == front_back(e));
    assert forall|i: int| 0 <= i < i7.len() implies front_ok(#[trigger] i7[i]) by { if i < i6.len() { assert(i7[i] == i6[i]); } }
}

// ---------------------------------------------------------------------
// The fields of the message

pub proof fn lemma_items_split(a: Seq<Item>, b: Seq<Item>, w: int, t: Seq<char>) -> (k: int)
    requires is_items(a + b, w, t),
    ensures 0 <= k <= t.len(), is_items(a, w, t.take(k)), is_items(b, w, t.skip(k)),
    decreases b.len(),
{
    hide(item_ok);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(t.take(t.len() as int) =~= t);
        t.len() as int
    } else {
        let its = a + b;
        let j = choose|j: int| #[trigger] cut_at(t, j) && is_items(its.drop_last(), w, t.take(j)) && item_ok(its.last(), w, t.skip(j));
        assert(its.drop_last() =~= a + b.drop_last());
        assert(its.last() == b.last());
        let k = lemma_items_split(a, b.drop_last(), w, t.take(j));
        assert(t.take(j).take(k) =~= t.take(k));
        let u = t.skip(k);
        assert(u.take(j - k) =~= t.take(j).skip(k));
        assert(u.skip(j - k) =~= t.skip(j));
        assert(cut_at(u, j - k));
        k
    }
}
pub proof fn lemma_items_last(a: Seq<Item>, it: Item, w: int, t: Seq<char>) -> (k: int)
    requires is_items(a.push(it), w, t),
    ensures 0 <= k <= t.len(), is_items(a, w, t.take(k)), item_ok(it, w, t.skip(k)),
{
    hide(item_ok);
    let its = a.push(it);
    assert(its.drop_last() =~= a);
    choose|k: int| #[trigger] cut_at(t, k) && is_items(its.drop_last(), w, t.take(k)) && item_ok(its.last(), w, t.skip(k))
}
/// context and msgid
pub proof fn lemma_read_main2(p: PSt, r: Rd, e: MOEntryV, del: Seq<char>, w: int, t: Seq<char>) -> (q: PSt)
    requires inv(p, r), is_items(mo_items2(e, del), w, t), del == Seq::<char>::empty() || del == tilde(), r.c.msgctxt is None,
    ensures whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MI,
        mid(q, with_c(r, POEntryV { msgid: esc(e.msgid), msgctxt: esc_opt(e.msgctxt), obsolete: del == tilde(), ..r.c })),
{
    hide(cur); hide(steps); hide(lines); hide(is_field);
    lemma_kw_names();
    let n = Seq::<Item>::empty();
    let i1 = mo_items1(e, del);
    let k = lemma_items_last(i1, Item::Field(del, "msgid"@, e.msgid), w, t);
    let t1 = t.take(k);
    let t2 = t.skip(k);
    assert(t =~= t1 + t2);
    if e.msgctxt is Some {
        let j = lemma_items_last(n, Item::Field(del, "msgctxt"@, e.msgctxt->0), w, t1);
        assert(t1.take(j).len() == 0);
        assert(t1.skip(j) =~= t1);
        let p1 = lemma_read_open(p, r, del, "msgctxt"@, e.msgctxt->0, w, t1, St::CT);
        let r1 = with_c(r, set_field(St::CT, r.c, 0, esc(e.msgctxt->0)));
        lemma_mid_cur(p1, r1);
        lemma_reads_cat(p, t1, t2);
        let q = lemma_read_open(p1, r1, del, "msgid"@, e.msgid, w, t2, St::MI);
        assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
        q
    } else {
        assert(t1.len() == 0);
        assert(t2 =~= t);
        lemma_read_open(p, r, del, "msgid"@, e.msgid, w, t, St::MI)
    }
}
pub proof fn lemma_read_main3(p: PSt, r: Rd, e: MOEntryV, del: Seq<char>, w: int, t: Seq<char>) -> (q: PSt)
    requires inv(p, r), is_items(mo_items3(e, del), w, t), del == Seq::<char>::empty() || del == tilde(), r.c.msgctxt is None, r.c.msgid_plural is None,
    ensures whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MI || q.state == St::MP,
        mid(q, with_c(r, POEntryV { msgid: esc(e.msgid), msgctxt: esc_opt(e.msgctxt), obsolete: del == tilde(), msgid_plural: esc_opt(e.msgid_plural), ..r.c })),
{
    hide(cur); hide(steps); hide(lines); hide(is_field);
    lemma_kw_names();
    let i2 = mo_items2(e, del);
    if e.msgid_plural is Some {
        let k = lemma_items_last(i2, Item::Field(del, "msgid_plural"@, e.msgid_plural->0), w, t);
        let t1 = t.take(k);
        let t2 = t.skip(k);
        assert(t =~= t1 + t2);
        let p1 = lemma_read_main2(p, r, e, del, w, t1);
        lemma_reads_cat(p, t1, t2);
        let r1 = with_c(r, POEntryV { msgid: esc(e.msgid), msgctxt: esc_opt(e.msgctxt), obsolete: del == tilde(), ..r.c });
        let q = lemma_read_more(p1, r1, del, "msgid_plural"@, e.msgid_plural->0, w, t2, St::MP);
        assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
        q
    } else {
        lemma_read_main2(p, r, e, del, w, t)
    }
}
pub proof fn lemma_read_plurals(p: PSt, r: Rd, del: Seq<char>, v: Seq<Seq<char>>, w: int, t: Seq<char>) -> (q: PSt)
    requires
        mid(p, r), is_items(plural_items(Seq::empty(), del, v), w, t), del == Seq::<char>::empty() || del == tilde(),
        p.state == St::MI || p.state == St::MP, v.len() <= 256, r.c.msgstr_plural == Seq::<Seq<char>>::empty(),
    ensures whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), v.len() > 0 ==> q.state == St::MX, v.len() == 0 ==> q.state == p.state,
        mid(q, with_c(r, POEntryV { msgstr_plural: esc_all(v), ..r.c })),
    decreases v.len(),
{
    hide(steps); hide(lines); hide(is_field);
    let its = plural_items(Seq::empty(), del, v);
    if v.len() == 0 {
        reveal(lines); reveal(steps);
        assert(its.len() == 0);
        assert(lines(t) == Seq::<Seq<char>>::empty());
        assert(esc_all(v) =~= r.c.msgstr_plural);
        p
    } else {
        let d = v.drop_last();
        let i = d.len();
        let a = plural_items(Seq::empty(), del, d);
        let it = Item::Field(del, keyword("msgstr"@, dec(i)), v.last());
        assert(its =~= a.push(it));
        let k = lemma_items_last(a, it, w, t);
        let t1 = t.take(k);
        let t2 = t.skip(k);
        assert(t =~= t1 + t2);
        let p1 = lemma_read_plurals(p, r, del, d, w, t1);
        lemma_reads_cat(p, t1, t2);
        let r1 = with_c(r, POEntryV { msgstr_plural: esc_all(d), ..r.c });
        let q = lemma_read_plural(p1, r1, del, i, v.last(), w, t2);
        assert(esc_all(d).push(esc(v.last())) =~= esc_all(v));
        assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
        q
    }
}
pub proof fn lemma_read_main(p: PSt, r: Rd, e: MOEntryV, del: Seq<char>, w: int, t: Seq<char>) -> (q: PSt)
    requires
        inv(p, r), is_items(mo_items(e, del), w, t), del == Seq::<char>::empty() || del == tilde(),
        r.c.msgctxt is None, r.c.msgid_plural is None, r.c.msgstr is None, r.c.msgstr_plural == Seq::<Seq<char>>::empty(),
        e.msgstr is Some ==> e.msgstr_plural.len() == 0, e.msgstr is None ==> 0 < e.msgstr_plural.len(), e.msgstr_plural.len() <= 256,
    ensures whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MS || q.state == St::MX,
        mid(q, with_c(r, POEntryV {
            msgid: esc(e.msgid), msgctxt: esc_opt(e.msgctxt), obsolete: del == tilde(), msgid_plural: esc_opt(e.msgid_plural), msgstr: esc_opt(e.msgstr),
            msgstr_plural: esc_all(e.msgstr_plural), ..r.c })),
{
    hide(cur); hide(steps); hide(lines); hide(is_field);
    lemma_kw_names();
    let i3 = mo_items3(e, del);
    let r1 = with_c(r, POEntryV { msgid: esc(e.msgid), msgctxt: esc_opt(e.msgctxt), obsolete: del == tilde(), msgid_plural: esc_opt(e.msgid_plural), ..r.c });
    if e.msgstr_plural.len() == 0 {
        let k = lemma_items_last(i3, Item::Field(del, "msgstr"@, otext(e.msgstr)), w, t);
        let t1 = t.take(k);
        let t2 = t.skip(k);
        assert(t =~= t1 + t2);
        let p1 = lemma_read_main3(p, r, e, del, w, t1);
        lemma_reads_cat(p, t1, t2);
        let q = lemma_read_more(p1, r1, del, "msgstr"@, otext(e.msgstr), w, t2, St::MS);
        assert(esc_all(e.msgstr_plural) =~= Seq::<Seq<char>>::empty());
        assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
        q
    } else {
        let b = plural_items(Seq::empty(), del, e.msgstr_plural);
        assert(mo_items(e, del) =~= i3 + b);
        let k = lemma_items_split(i3, b, w, t);
        let t1 = t.take(k);
        let t2 = t.skip(k);
        assert(t =~= t1 + t2);
        let p1 = lemma_read_main3(p, r, e, del, w, t1);
        lemma_reads_cat(p, t1, t2);
        let q = lemma_read_plurals(p1, r1, del, e.msgstr_plural, w, t2);
        assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
        q
    }
}

// ---------------------------------------------------------------------
// Messages

pub proof fn lemma_unesc_core(e: POEntryV)
    ensures unesc_entry(core(e)) == (match unesc_entry(e) { Some(x) => Some(core(x)), None => None }),
{
}
pub proof fn lemma_unesc_opt(o: Option<Seq<char>>)
    ensures unesc_opt(esc_opt(o)) == Some(o),
{
    if o is Some { lemma_unesc_esc(o->0); }
}
pub proof fn lemma_full_back(e: POEntryV)
    ensures unesc_entry(full_back(e)) == Some(back(e)),
{
    let f = full_back(e);
    lemma_unesc_esc(e.msgid);
    lemma_unesc_opt(e.msgstr);
    lemma_unesc_opt(e.msgid_plural);
    lemma_unesc_opt(e.msgctxt);
    lemma_unesc_opt(e.previous_msgid);
    lemma_unesc_opt(e.previous_msgid_plural);
    lemma_unesc_opt(e.previous_msgctxt);
    assert forall|i: int| 0 <= i < f.msgstr_plural.len() implies unesc(#[trigger] f.msgstr_plural[i]) == Some(e.msgstr_plural[i]) by { lemma_unesc_esc(e.msgstr_plural[i]); }
    lemma_unesc_all(f.msgstr_plural, e.msgstr_plural);
}
/// C04: the text of a message, read, gives the message
pub proof fn theorem_read_message(p: PSt, r: Rd, e: POEntryV, w: int, t: Seq<char>) -> (q: PSt)
    requires inv(p, r), r.c == po_fresh(0), fits(e), is_items(po_items(e), w, t),
    ensures whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MS || q.state == St::MX, mid(q, with_c(r, full_back(e))),
        inv(q, Rd { es: r.es.push(back(e)), c: po_fresh(0), ..r }),
{
    hide(steps); hide(lines); hide(unesc_entry); hide(po_items7); hide(mo_items); hide(fits);
    let a = po_items7(e);
    let b = mo_items(mo_of(e), po_mark(e));
    let k = lemma_items_split(a, b, w, t);
    let t1 = t.take(k);
    let t2 = t.skip(k);
    assert(t =~= t1 + t2);
    lemma_front(e);
    lemma_read_front(p, r, a, w, t1);
    let p1 = reads(p, t1)->Ok_0;
    let r1 = with_c(r, front_back(e));
    lemma_reads_cat(p, t1, t2);
    reveal(fits);
    assert(r1.c.msgstr_plural == Seq::<Seq<char>>::empty());
    assert(tilde() != Seq::<char>::empty()) by { assert(tilde().len() == 3); }
    let q = lemma_read_main(p1, r1, mo_of(e), po_mark(e), w, t2);
    assert(mid(q, with_c(r, full_back(e))));
    assert(whole(t)) by { if t2.len() > 0 { assert(t.last() == t2.last()); } else { assert(t =~= t1); } }
    lemma_complete(q, with_c(r, full_back(e)), back(e), e);
    q
}
pub proof fn lemma_complete(q: PSt, r: Rd, x: POEntryV, e: POEntryV)
    requires ends_entry(q.state), q.state != St::MC, mid(q, r), unesc_entry(r.c) == Some(x) || (r.c == full_back(e) && x == back(e)),
    ensures inv(q, Rd { es: r.es.push(x), c: po_fresh(0), ..r }),
{
    hide(unesc_entry); 
    lemma_full_back(e);
    lemma_unesc_core(q.entry);
    let y = unesc_entry(q.entry)->0;
    assert(unesc_entry(q.entry) is Some);
    let m = mflush(q)->Ok_0;
    assert(cores(m.file.entries) =~= r.es.push(x)) by {
        assert(m.file.entries == q.file.entries.push(y));
        assert(core(y) == x);
        assert(cores(q.file.entries.push(y)) =~= cores(q.file.entries).push(core(y)));
    }
}
} // verus!
