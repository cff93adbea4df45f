// Reading what was written gives the same messages (C04)
verus! {
// ---------------------------------------------------------------------
// Lines of written texts

pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub open spec fn whole(t: Seq<char>) -> bool { t.len() > 0 ==> t.last() == '\n' }
pub proof fn lemma_lines_cat(a: Seq<char>, b: Seq<char>)
    requires whole(a),
    ensures lines(a + b) == lines(a) + lines(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(lines(a) + lines(b) =~= lines(b));
    } else {
        lemma_cpos(a, '\n');
        let k = cpos(a, '\n');
        assert(a.contains('\n')) by { assert(a[a.len() - 1] == '\n'); }
        let s = a + b;
        assert forall|i: int| 0 <= i < k implies s[i] != '\n' by { assert(s[i] == a[i]); }
        assert(s[k] == a[k]);
        lemma_cpos_is(s, '\n', k);
        assert(s.take(k) =~= a.take(k));
        let r = a.skip(k + 1);
        assert(s.skip(k + 1) =~= r + b);
        if r.len() > 0 { assert(r.last() == a.last()); }
        lemma_lines_cat(r, b);
        assert(lines(s) =~= lines(a) + lines(b));
    }
}
pub proof fn lemma_line_one(x: Seq<char>)
    requires no_nl(x),
    ensures lines(x + seq!['\n']) == seq![strip_cr(x)], whole(x + seq!['\n']),
{
    let s = x + seq!['\n'];
    let k = x.len() as int;
    assert forall|i: int| 0 <= i < k implies s[i] != '\n' by { assert(s[i] == x[i]); }
    lemma_cpos_is(s, '\n', k);
    assert(s.take(k) =~= x);
    assert(s.skip(k + 1) =~= Seq::<char>::empty());
    assert(lines(Seq::<char>::empty()) == Seq::<Seq<char>>::empty());
    assert(lines(s) =~= seq![strip_cr(x)]);
}
pub proof fn lemma_trim_cr(x: Seq<char>)
    ensures trim(strip_cr(x)) == trim(x),
    decreases x.len(),
{
    if x.len() > 0 && x.last() == '\r' {
        let y = x.drop_last();
        if is_ws(x[0]) {
            if y.len() == 0 {
                assert(x.skip(1).len() == 0);
                assert(trim_start(x.skip(1)).len() == 0);
                assert(trim_start(x) =~= trim_start(y));
            } else {
                assert(x.skip(1).drop_last() =~= y.skip(1));
                assert(x.skip(1).last() == '\r');
                lemma_trim_cr(x.skip(1));
                assert(y[0] == x[0]);
            }
        } else {
            assert(y.len() > 0 && y[0] == x[0]);
            assert(trim_start(x) == x && trim_start(y) == y);
        }
    }
}
pub proof fn lemma_step_cr(p: PSt, x: Seq<char>)
    ensures step(p, strip_cr(x)) == step(p, x),
{
    lemma_trim_cr(x);
    assert(classify(strip_cr(x)) == classify(x));
}
/// what a text does
pub open spec fn reads(p: PSt, t: Seq<char>) -> PRes { steps(p, lines(t)) }
pub proof fn lemma_reads_cat(p: PSt, a: Seq<char>, b: Seq<char>)
    requires whole(a),
    ensures reads(p, a + b) == (match reads(p, a) { Err(e) => Err(e), Ok(q) => reads(q, b) }),
{
    lemma_lines_cat(a, b);
    lemma_steps_cat(p, lines(a), lines(b));
}
pub proof fn lemma_lined(p: PSt, ls: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ls.len() ==> no_nl(#[trigger] ls[i]),
    ensures reads(p, lined(ls)) == steps(p, ls), whole(lined(ls)),
    decreases ls.len(),
{
    hide(step); hide(lines);
    if ls.len() == 0 {
        reveal(lines);
    } else {
        let d = ls.drop_last();
        let x = ls.last();
        assert(x == ls[ls.len() - 1]);
        assert forall|i: int| 0 <= i < d.len() implies no_nl(#[trigger] d[i]) by { assert(d[i] == ls[i]); }
        lemma_lined(p, d);
        lemma_line_one(x);
        let y = x + seq!['\n'];
        assert(lined(ls) =~= lined(d) + y);
        lemma_reads_cat(p, lined(d), y);
        match steps(p, d) {
            Ok(q) => { lemma_steps_one(q, strip_cr(x)); lemma_step_cr(q, x); }
            Err(_) => {}
        }
        assert(lined(ls).last() == '\n');
    }
}

// ---------------------------------------------------------------------
// What was read so far; comments do not matter

pub open spec fn core(e: POEntryV) -> POEntryV { POEntryV { comment: None, tcomment: None, linenum: 0, ..e } }
pub open spec fn cores(s: Seq<POEntryV>) -> Seq<POEntryV> { Seq::new(s.len(), |i: int| core(s[i])) }
pub open spec fn rest(f: POFileV) -> POFileV { POFileV { entries: Seq::empty(), ..f } }
pub struct Rd { pub g: POFileV, pub es: Seq<POEntryV>, pub c: POEntryV }
/// inside of a message
pub open spec fn mid(p: PSt, r: Rd) -> bool {
    rest(p.file) == r.g && cores(p.file.entries) == r.es && core(p.entry) == r.c
}
/// the message before is complete if its translation was read
pub open spec fn cur(p: PSt, r: Rd) -> bool { mflush(p) is Ok && mid(mflush(p)->Ok_0, r) }
pub open spec fn open_st(st: St) -> bool {
    st == St::TC || st == St::GC || st == St::OC || st == St::FL || st == St::PC || st == St::PM || st == St::PP || st == St::MS || st == St::MX
}
pub open spec fn inv(p: PSt, r: Rd) -> bool { open_st(p.state) && cur(p, r) }
pub open spec fn with_c(r: Rd, c: POEntryV) -> Rd { Rd { c: c, ..r } }

pub proof fn lemma_open(p: PSt, r: Rd, raw: Seq<char>, a: St, tok: Seq<char>, obs: bool) -> (q: PSt)
    requires classify(raw) == Ln::Tok(a, tok, obs, None), opens(a), trans(a, p.state) == Some(a), cur(p, r),
    ensures
        step(p, raw) == core::result::Result::<PSt, PErr>::Ok(q), q.state == a, mid(q, with_c(r, core(open_entry(a, r.c, tok, obs)))),
        q.entry == open_entry(a, (mflush(PSt { line: p.line + 1, ..p })->Ok_0).entry, tok, obs),
        core((mflush(PSt { line: p.line + 1, ..p })->Ok_0).entry) == r.c,
{
    hide(classify); hide(unesc_entry);
    let p1 = PSt { line: p.line + 1, ..p };
    let m = mflush(p)->Ok_0;
    let m1 = mflush(p1)->Ok_0;
    assert(m1.file == m.file);
    assert(core(m1.entry) == core(m.entry));
    step(p, raw)->Ok_0
}
pub proof fn lemma_mid_cur(p: PSt, r: Rd)
    requires mid(p, r), !ends_entry(p.state),
    ensures cur(p, r),
{
}

// ---------------------------------------------------------------------
// Comments

pub proof fn lemma_cmt_line(x: Seq<char>)
    ensures
        classify(seq!['#', ' '] + x) is Tok, classify(seq!['#', ' '] + x)->Tok_0 == St::TC, classify(seq!['#', ' '] + x)->Tok_2 == false, classify(seq!['#', ' '] + x)->Tok_3 is None,
        classify(seq!['#', '.', ' '] + x) != Ln::Skip ==> classify(seq!['#', '.', ' '] + x) is Tok && classify(seq!['#', '.', ' '] + x)->Tok_0 == St::GC
            && classify(seq!['#', '.', ' '] + x)->Tok_2 == false && classify(seq!['#', '.', ' '] + x)->Tok_3 is None,
{
    lemma_mark_names();
    lemma_kw_names();
    let s = seq!['#', ' '] + x;
    let l = trim(s);
    lemma_trim_keep(s, 1);
    assert(l[0] == '#');
    lemma_tok_head(l, 1);
    lemma_toks3(l);
    assert(l.take(1) =~= "#"@);
    lemma_not_plural(l);
    let s2 = seq!['#', '.', ' '] + x;
    let l2 = trim(s2);
    lemma_trim_keep(s2, 2);
    assert(l2[0] == '#' && l2[1] == '.');
    lemma_tok_head(l2, 2);
    lemma_toks3(l2);
    assert(l2.take(2) =~= "#."@);
    lemma_not_plural(l2);
    assert(has_prefix("#."@, "##"@) ==> "#."@.take(2)[1] == '#');
}
/// the first n characters stay, the character after them is a space or not there
pub proof fn lemma_trim_keep(s: Seq<char>, n: int)
    requires 0 < n <= s.len(), !is_ws(s[0]), !is_ws(s[n - 1]),
    ensures n <= trim(s).len() <= s.len(), forall|i: int| 0 <= i < trim(s).len() ==> #[trigger] trim(s)[i] == s[i],
{
    assert(trim_start(s) == s);
    lemma_trim_len(s);
    lemma_trim_end_min(s, n);
}
pub proof fn lemma_trim_end_min(s: Seq<char>, n: int)
    requires 0 < n <= s.len(), !is_ws(s[n - 1]),
    ensures trim_end(s).len() >= n,
    decreases s.len(),
{
    if s.len() > n { lemma_trim_end_min(s.drop_last(), n); }
}
pub proof fn lemma_tok_head(l: Seq<char>, n: int)
    requires 0 < n <= l.len(), forall|i: int| 0 <= i < n ==> !is_aws(#[trigger] l[i]), n < l.len() ==> is_aws(l[n]),
    ensures atoks(l).len() > 0, atoks(l)[0] == l.take(n),
{
    lemma_awpos_is(l, n);
    assert(!is_aws(l[0]));
    lemma_atoks_head(l);
}
pub proof fn lemma_read_comments(p: PSt, r: Rd, mark: Seq<char>, ps: Seq<Seq<char>>)
    requires inv(p, r), mark == seq!['#', ' '] || mark == seq!['#', '.', ' '], forall|i: int| 0 <= i < ps.len() ==> no_nl(#[trigger] ps[i]),
    ensures reads(p, marked(mark, ps)) is Ok, inv(reads(p, marked(mark, ps))->Ok_0, r), whole(marked(mark, ps)),
    decreases ps.len(),
{
    hide(classify); hide(lines); hide(step); hide(steps); hide(cur);
    if ps.len() == 0 {
        reveal(lines); reveal(steps);
        assert(lines(marked(mark, ps)) == Seq::<Seq<char>>::empty());
    } else {
        let d = ps.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies no_nl(#[trigger] d[i]) by { assert(d[i] == ps[i]); }
        lemma_read_comments(p, r, mark, d);
        let q = reads(p, marked(mark, d))->Ok_0;
        let x = mark + ps.last();
        assert(ps.last() == ps[ps.len() - 1]);
        assert(no_nl(x)) by { assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != '\n' by { if i >= mark.len() { assert(x[i] == ps.last()[i - mark.len()]); } else { assert(x[i] == mark[i]); } } }
        lemma_line_one(x);
        let y = x + seq!['\n'];
        assert(marked(mark, ps) =~= marked(mark, d) + y);
        lemma_reads_cat(p, marked(mark, d), y);
        lemma_steps_one(q, strip_cr(x));
        lemma_step_cr(q, x);
        lemma_cmt_line(ps.last());
        if classify(x) == Ln::Skip {
            reveal(step); reveal(cur);
            let q1 = PSt { line: q.line + 1, ..q };
            assert(step(q, x) == core::result::Result::<PSt, PErr>::Ok(q1));
            lemma_cur_line(q, r);
        } else {
            let a = classify(x)->Tok_0;
            let tok = classify(x)->Tok_1;
            let q1 = lemma_open(q, r, x, a, tok, false);
            assert(core(open_entry(a, r.c, tok, false)) == r.c) by { lemma_core_c(q, r); }
            lemma_mid_cur(q1, r);
        }
        assert(marked(mark, ps).last() == '\n');
    }
}
pub proof fn lemma_core_c(p: PSt, r: Rd)
    requires cur(p, r),
    ensures core(r.c) == r.c,
{
}
pub proof fn lemma_cur_line(p: PSt, r: Rd)
    requires cur(p, r),
    ensures cur(PSt { line: p.line + 1, ..p }, r),
{
    hide(unesc_entry);
}

// ---------------------------------------------------------------------
// String fields

pub open spec fn quote(s: Seq<char>) -> Seq<char> { seq!['"'] + s + seq!['"'] }
pub proof fn lemma_part_quoted(v: Seq<char>, w: int, p: Seq<Seq<char>>, i: int)
    requires is_parts(esc(v), w, p), 0 <= i < p.len(),
    ensures quoted(quote(p[i])), inner(quote(p[i])) == p[i], no_nl(p[i]), no_nl(quote(p[i])),
{
    let s = esc(v);
    lemma_esc_shape(v);
    lemma_pos(p, i);
    let a = pos(p, i);
    let x = p[i];
    assert(!open_esc(s.take(a))) by {
        if i == 0 { assert(s.take(0) =~= Seq::<char>::empty()); } else { assert(cut_ok(s, i, pos(p, i))); }
    }
    assert forall|j: int| 0 <= j < x.len() && #[trigger] x[j] == '"' implies open_esc(x.take(j)) by {
        assert(s[a + j] == s.subrange(a, pos(p, i + 1))[j]);
        assert(s.take(a + j) =~= s.take(a) + x.take(j)) by {
            assert forall|z: int| 0 <= z < j implies #[trigger] x.take(j)[z] == s[a + z] by { assert(x[z] == s.subrange(a, pos(p, i + 1))[z]); }
        }
        lemma_open_cat(s.take(a), x.take(j));
    }
    assert(quotes_ok(x));
    let q = quote(x);
    assert(q.subrange(1, q.len() - 1) =~= x);
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != '\n' by { assert(x[j] == s.subrange(a, pos(p, i + 1))[j]); assert(s[a + j] != '\n'); }
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] != '\n' by { if 0 < j < q.len() - 1 { assert(q[j] == x[j - 1]); } }
}
pub open spec fn field_lines(del: Seq<char>, name: Seq<char>, p: Seq<Seq<char>>) -> Seq<Seq<char>> {
    Seq::new(p.len(), |i: int| if i == 0 { del + (name + seq![' '] + quote(p[0])) } else { del + quote(p[i]) })
}
pub proof fn lemma_field_lines(del: Seq<char>, name: Seq<char>, p: Seq<Seq<char>>)
    ensures field_text(del, name, p) == lined(field_lines(del, name, p)),
    decreases p.len(),
{
    let ls = field_lines(del, name, p);
    if p.len() == 0 {
    } else if p.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<char>>::empty());
        reveal_with_fuel(lined, 2);
        assert(field_text(del, name, p) =~= lined(ls));
    } else {
        assert(ls.drop_last() =~= field_lines(del, name, p.drop_last()));
        lemma_field_lines(del, name, p.drop_last());
        assert(field_text(del, name, p) =~= lined(ls));
    }
}
pub open spec fn tilde() -> Seq<char> { seq!['#', '~', ' '] }
pub open spec fn bar() -> Seq<char> { seq!['#', '|', ' '] }
pub open spec fn tildebar() -> Seq<char> { seq!['#', '~', '|', ' '] }
pub open spec fn is_mark(del: Seq<char>) -> bool { del == Seq::<char>::empty() || del == tilde() || del == bar() }
/// continuation lines
pub proof fn lemma_seg(del: Seq<char>, q: Seq<char>)
    requires is_mark(del), quoted(q),
    ensures seg(del + q) == Some(inner(q)),
{
    hide(classify); hide(qerr);
    lemma_mark_names();
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    assert(blank(sp));
    if del == n {
        theorem_line_segment(n, q, n);
        assert(n + q + n =~= del + q);
    } else if del == tilde() {
        theorem_line_segment_obsolete(n, sp, q, n);
        assert(n + ("#~"@ + sp + q) + n =~= del + q);
    } else {
        theorem_line_previous_segment(n, sp, q, n);
        assert(n + ("#|"@ + sp + q) + n =~= del + q);
    }
}
/// the segments after the first i lines
pub proof fn lemma_segs(del: Seq<char>, name: Seq<char>, p: Seq<Seq<char>>, n: int)
    requires is_mark(del), 1 <= n <= p.len(), forall|i: int| 0 <= i < p.len() ==> quoted(quote(#[trigger] p[i])) && inner(quote(p[i])) == p[i],
    ensures
        ({ let ls = field_lines(del, name, p).subrange(1, n);
           (forall|i: int| 0 <= i < ls.len() ==> seg(#[trigger] ls[i]) is Some) && p[0] + segs(ls) == concat(p.take(n)) }),
    decreases n,
{
    hide(seg);
    let f = field_lines(del, name, p);
    let ls = f.subrange(1, n);
    assert forall|i: int| 0 <= i < ls.len() implies seg(#[trigger] ls[i]) is Some by {
        assert(ls[i] == del + quote(p[i + 1]));
        lemma_seg(del, quote(p[i + 1]));
    }
    if n == 1 {
        assert(p.take(1) =~= Seq::<Seq<char>>::empty().push(p[0]));
        lemma_concat_push(Seq::empty(), p[0]);
        assert(p[0] + segs(ls) =~= p[0]);
        assert(concat(Seq::<Seq<char>>::empty()) + p[0] =~= p[0]);
    } else {
        lemma_segs(del, name, p, n - 1);
        assert(ls.drop_last() =~= f.subrange(1, n - 1));
        assert(ls.last() == del + quote(p[n - 1]));
        lemma_seg(del, quote(p[n - 1]));
        assert(p.take(n) =~= p.take(n - 1).push(p[n - 1]));
        lemma_concat_push(p.take(n - 1), p[n - 1]);
        assert(p[0] + segs(ls) =~= (p[0] + segs(ls.drop_last())) + p[n - 1]);
    }
}
pub open spec fn is_name(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != '\n' }
pub proof fn lemma_field_nl(del: Seq<char>, k: Seq<char>, v: Seq<char>, w: int, ps: Seq<Seq<char>>)
    requires is_parts(esc(v), w, ps), no_nl(del), no_nl(k),
    ensures forall|i: int| 0 <= i < ps.len() ==> no_nl(#[trigger] field_lines(del, k, ps)[i]),
{
    let f = field_lines(del, k, ps);
    assert forall|i: int| 0 <= i < ps.len() implies no_nl(#[trigger] f[i]) by {
        lemma_part_quoted(v, w, ps, i);
        let q = quote(ps[i]);
        let x = f[i];
        let n = x.len() - q.len();
        assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != '\n' by {
            if j >= n { assert(x[j] == q[j - n]); } else if j < del.len() { assert(x[j] == del[j]); } else if j < del.len() + k.len() { assert(x[j] == k[j - del.len()]); } else { assert(x[j] == ' '); }
        }
    }
}
/// a field whose first line was read
pub proof fn lemma_field(p: PSt, p1: PSt, del: Seq<char>, k: Seq<char>, v: Seq<char>, w: int, ps: Seq<Seq<char>>, a: St, e: POEntryV)
    requires
        is_parts(esc(v), w, ps), is_mark(del), no_nl(k), field_st(a),
        step(p, del + (k + seq![' '] + quote(ps[0]))) == core::result::Result::<PSt, PErr>::Ok(p1), p1.state == a, p1.entry == set_field(a, e, p1.midx, ps[0]),
    ensures
        reads(p, field_text(del, k, ps)) == core::result::Result::<PSt, PErr>::Ok(PSt { line: p1.line + (ps.len() - 1) as nat, entry: set_field(a, e, p1.midx, esc(v)), ..p1 }),
        whole(field_text(del, k, ps)),
{
    hide(step); hide(seg); hide(set_field);
    let f = field_lines(del, k, ps);
    assert(no_nl(del));
    lemma_field_nl(del, k, v, w, ps);
    assert forall|i: int| 0 <= i < ps.len() implies quoted(quote(#[trigger] ps[i])) && inner(quote(ps[i])) == ps[i] by { lemma_part_quoted(v, w, ps, i); }
    lemma_field_lines(del, k, ps);
    lemma_lined(p, f);
    let n = ps.len() as int;
    lemma_segs(del, k, ps, n);
    let ls = f.subrange(1, n);
    assert(f =~= seq![f[0]] + ls);
    lemma_steps_cat(p, seq![f[0]], ls);
    lemma_steps_one(p, f[0]);
    theorem_segments(p1, a, e, ps[0], ls);
    assert(ps.take(n) =~= ps);
}
/// a keyword that opens a field of the next message
pub proof fn lemma_read_open(p: PSt, r: Rd, del: Seq<char>, k: Seq<char>, v: Seq<char>, w: int, t: Seq<char>, a: St) -> (q: PSt)
    requires
        is_field(del, k, v, w, t), cur(p, r), opens(a), trans(a, p.state) == Some(a),
        (del == bar() && pkw(k) == Some(a)) || ((del == Seq::<char>::empty() || del == tilde()) && kw(k) == Some(a)),
    ensures
        whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == a,
        mid(q, with_c(r, set_field(a, if a == St::MI { POEntryV { obsolete: del == tilde(), ..r.c } } else { r.c }, 0, esc(v)))),
{
    hide(step); hide(classify); hide(unesc_entry); hide(is_parts);
    lemma_mark_names();
    lemma_kw_names();
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] is_parts(esc(v), w, ps) && t == field_text(del, k, ps);
    assert(ps.len() > 0) by { reveal(is_parts); }
    lemma_part_quoted(v, w, ps, 0);
    let q0 = quote(ps[0]);
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    assert(blank(sp));
    let raw = del + (k + sp + q0);
    let obs = del == tilde();
    lemma_kw_word(k);
    if del == bar() {
        theorem_line_previous(n, sp, k, sp, q0, n);
        assert(n + ("#|"@ + sp + (k + sp + q0)) + n =~= raw);
    } else if del == tilde() {
        theorem_line_keyword_obsolete(n, sp, k, sp, q0, n);
        assert(n + ("#~"@ + sp + (k + sp + q0)) + n =~= raw);
    } else {
        theorem_line_keyword(n, k, sp, q0, n);
        assert(n + (k + sp + q0) + n =~= raw);
    }
    assert(classify(raw) == Ln::Tok(a, q0, obs, None));
    let p1 = lemma_open(p, r, raw, a, q0, obs);
    let b = (mflush(PSt { line: p.line + 1, ..p })->Ok_0).entry;
    let e = if a == St::MI { POEntryV { obsolete: obs, ..b } } else { b };
    assert(p1.entry == set_field(a, e, p1.midx, ps[0]));
    assert(no_nl(k)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { assert(!is_ws(k[i])); } }
    lemma_field(p, p1, del, k, v, w, ps, a, e);
    PSt { line: p1.line + (ps.len() - 1) as nat, entry: set_field(a, e, p1.midx, esc(v)), ..p1 }
}
/// msgid_plural and msgstr
pub proof fn lemma_read_more(p: PSt, r: Rd, del: Seq<char>, k: Seq<char>, v: Seq<char>, w: int, t: Seq<char>, a: St) -> (q: PSt)
    requires
        is_field(del, k, v, w, t), mid(p, r), a == St::MP || a == St::MS, trans(a, p.state) == Some(a),
        del == Seq::<char>::empty() || del == tilde(), kw(k) == Some(a),
    ensures
        whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == a, mid(q, with_c(r, set_field(a, r.c, 0, esc(v)))),
{
    hide(classify); hide(unesc_entry); hide(is_parts);
    lemma_mark_names();
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] is_parts(esc(v), w, ps) && t == field_text(del, k, ps);
    assert(ps.len() > 0) by { reveal(is_parts); }
    lemma_part_quoted(v, w, ps, 0);
    let q0 = quote(ps[0]);
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    assert(blank(sp));
    let raw = del + (k + sp + q0);
    lemma_kw_word(k);
    if del == tilde() {
        theorem_line_keyword_obsolete(n, sp, k, sp, q0, n);
        assert(n + ("#~"@ + sp + (k + sp + q0)) + n =~= raw);
    } else {
        theorem_line_keyword(n, k, sp, q0, n);
        assert(n + (k + sp + q0) + n =~= raw);
    }
    let p1 = step(p, raw)->Ok_0;
    assert(step(p, raw) is Ok);
    assert(p1.entry == set_field(a, p.entry, p1.midx, ps[0]));
    assert(no_nl(k)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { assert(!is_ws(k[i])); } }
    lemma_field(p, p1, del, k, v, w, ps, a, p.entry);
    PSt { line: p1.line + (ps.len() - 1) as nat, entry: set_field(a, p.entry, p1.midx, esc(v)), ..p1 }
}
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, all_digits(dec(n)), dec_val(dec(n)) == n,
    decreases n,
{
    if n < 10 {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(dec_val, 2);
    } else {
        lemma_dec(n / 10);
        let d = dec(n / 10);
        assert(dec(n).drop_last() =~= d);
        assert forall|i: int| 0 <= i < dec(n).len() implies is_digit(#[trigger] dec(n)[i]) by { if i < d.len() { assert(dec(n)[i] == d[i]); } }
    }
}
/// msgstr[i]
pub proof fn lemma_read_plural(p: PSt, r: Rd, del: Seq<char>, i: nat, v: Seq<char>, w: int, t: Seq<char>) -> (q: PSt)
    requires
        is_field(del, keyword("msgstr"@, dec(i)), v, w, t), mid(p, r), i <= 255, trans(St::MX, p.state) == Some(St::MX),
        del == Seq::<char>::empty() || del == tilde(), r.c.msgstr_plural.len() == i,
    ensures
        whole(t), reads(p, t) == core::result::Result::<PSt, PErr>::Ok(q), q.state == St::MX,
        mid(q, with_c(r, POEntryV { msgstr_plural: r.c.msgstr_plural.push(esc(v)), ..r.c })),
{
    hide(classify); hide(unesc_entry); hide(is_parts);
    lemma_mark_names();
    lemma_kw_names();
    lemma_dec(i);
    let d = dec(i);
    let k = keyword("msgstr"@, d);
    assert(k =~= plural_word(d));
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] is_parts(esc(v), w, ps) && t == field_text(del, k, ps);
    assert(ps.len() > 0) by { reveal(is_parts); }
    lemma_part_quoted(v, w, ps, 0);
    let q0 = quote(ps[0]);
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    assert(blank(sp));
    let m = k + sp + q0;
    let raw = del + m;
    lemma_plural_word(d);
    if del == tilde() {
        theorem_line_plural_obsolete(n, sp, d, sp, q0, n);
        assert(n + ("#~"@ + sp + m) + n =~= raw);
    } else {
        theorem_line_plural(n, d, sp, q0, n);
        assert(n + m + n =~= raw);
    }
    assert(classify(raw) == Ln::Tok(St::MX, m, del == tilde(), Some(i)));
    assert(step(p, raw) is Ok);
    let p1 = step(p, raw)->Ok_0;
    assert(p1.midx == i);
    assert(p1.entry == set_field(St::MX, p.entry, p1.midx, ps[0]));
    assert(no_nl(k)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { assert(!is_ws(k[i])); } }
    lemma_field(p, p1, del, k, v, w, ps, St::MX, p.entry);
    let f = r.c.msgstr_plural;
    assert(p.entry.msgstr_plural == f);
    assert(fill(f, i + 1).update(i as int, esc(v)) =~= f.push(esc(v)));
    PSt { line: p1.line + (ps.len() - 1) as nat, entry: set_field(St::MX, p.entry, p1.midx, esc(v)), ..p1 }
}
/// previous fields of an obsolete message are not read
pub proof fn lemma_read_skipped(p: PSt, r: Rd, k: Seq<char>, v: Seq<char>, w: int, t: Seq<char>)
    requires is_field(tildebar(), k, v, w, t), inv(p, r), is_pkw(k),
    ensures whole(t), reads(p, t) is Ok, inv(reads(p, t)->Ok_0, r),
{
    hide(classify); hide(unesc_entry); hide(is_parts);
    let del = tildebar();
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] is_parts(esc(v), w, ps) && t == field_text(del, k, ps);
    lemma_kw_word(k);
    assert(no_nl(k)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { assert(!is_ws(k[i])); } }
    lemma_field_nl(del, k, v, w, ps);
    lemma_field_lines(del, k, ps);
    let f = field_lines(del, k, ps);
    lemma_lined(p, f);
    assert forall|i: int| 0 <= i < f.len() implies classify(#[trigger] f[i]) == Ln::Skip by {
        lemma_skip_line(if i == 0 { k + seq![' '] + quote(ps[0]) } else { quote(ps[i]) });
    }
    lemma_skips(p, f);
    lemma_cur_at(p, r, (p.line + f.len()) as nat);
}
pub proof fn lemma_cur_at(p: PSt, r: Rd, n: nat)
    requires cur(p, r),
    ensures cur(PSt { line: n, ..p }, r),
{
    hide(unesc_entry);
}
pub proof fn lemma_skip_line(x: Seq<char>)
    ensures classify(tildebar() + x) == Ln::Skip,
{
    lemma_mark_names();
    let s = tildebar() + x;
    let l = trim(s);
    lemma_trim_keep(s, 3);
    assert(l[0] == '#' && l[1] == '~' && l[2] == '|');
    lemma_tok_head(l, 3);
    lemma_toks3(l);
    assert(l.take(3) =~= "#~|"@);
}
pub proof fn lemma_skips(p: PSt, ls: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ls.len() ==> classify(#[trigger] ls[i]) == Ln::Skip,
    ensures steps(p, ls) == core::result::Result::<PSt, PErr>::Ok(PSt { line: p.line + ls.len(), ..p }),
    decreases ls.len(),
{
    hide(classify);
    if ls.len() > 0 {
        let d = ls.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies classify(#[trigger] d[i]) == Ln::Skip by { assert(d[i] == ls[i]); }
        lemma_skips(p, d);
        assert(ls.last() == ls[ls.len() - 1]);
    }
}

// ---------------------------------------------------------------------
// Occurrences and flags

pub open spec fn no_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]) }
pub open spec fn words(g: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0 && no_ws(g[i]) }
pub proof fn lemma_wtoks_front(k: Seq<char>, r: Seq<char>)
    requires k.len() > 0, no_ws(k), r.len() > 0 ==> is_ws(r[0]),
    ensures wtoks(k + r) == seq![k] + wtoks(r),
{
    let s = k + r;
    let n = k.len() as int;
    lemma_wpos(s);
    assert(s[0] == k[0]);
    if wpos(s) < n { assert(s[wpos(s)] == k[wpos(s)]); }
    if wpos(s) > n { assert(s[n] == r[0]); }
    assert(s.take(n) =~= k);
    assert(s.skip(n) =~= r);
}
pub proof fn lemma_wtoks_join(g: Seq<Seq<char>>)
    requires g.len() > 0, words(g),
    ensures
        wtoks(join(g, seq![' '])) == g, solid(join(g, seq![' '])),
        no_nl(join(g, seq![' '])),
    decreases g.len(),
{
    let s = join(g, seq![' ']);
    let k = g[0];
    assert(k.len() > 0 && no_ws(k));
    if g.len() == 1 {
        lemma_wtoks_front(k, Seq::empty());
        assert(k + Seq::<char>::empty() =~= k);
        assert(wtoks(Seq::<char>::empty()) == Seq::<Seq<char>>::empty());
        assert(wtoks(s) =~= g);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(!is_ws(k[i])); }
    } else {
        let h = g.skip(1);
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).len() > 0 && no_ws(h[i]) by { assert(h[i] == g[i + 1]); }
        lemma_wtoks_join(h);
        let j = join(h, seq![' ']);
        let r = seq![' '] + j;
        assert(s =~= k + r);
        lemma_wtoks_front(k, r);
        assert(r.skip(1) =~= j);
        assert(wtoks(r) == wtoks(j));
        assert(wtoks(s) =~= g);
        assert(s.last() == j.last());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by {
            if i < k.len() { assert(s[i] == k[i]); assert(!is_ws(k[i])); } else if i > k.len() { assert(s[i] == j[i - k.len() - 1]); }
        }
    }
}
pub open spec fn add_occs(c: POEntryV, o: Seq<Seq<char>>) -> POEntryV { POEntryV { occurrences: c.occurrences + occs_of(o), ..c } }
pub proof fn lemma_read_occs(p: PSt, r: Rd, g: Seq<Seq<Seq<char>>>)
    requires inv(p, r), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0 && words(g[i]),
    ensures steps(p, occ_lines(g)) is Ok, inv(steps(p, occ_lines(g))->Ok_0, with_c(r, add_occs(r.c, flat(g)))),
        forall|i: int| 0 <= i < g.len() ==> no_nl(#[trigger] occ_lines(g)[i]),
    decreases g.len(),
{
    hide(classify); hide(step); hide(cur);
    if g.len() == 0 {
        assert(add_occs(r.c, flat(g)).occurrences =~= r.c.occurrences);
    } else {
        let d = g.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() > 0 && words(d[i]) by { assert(d[i] == g[i]); }
        lemma_read_occs(p, r, d);
        assert(occ_lines(g).drop_last() =~= occ_lines(d));
        let q = steps(p, occ_lines(d))->Ok_0;
        let r1 = with_c(r, add_occs(r.c, flat(d)));
        let x = g.last();
        assert(x == g[g.len() - 1]);
        lemma_wtoks_join(x);
        let m = join(x, seq![' ']);
        let raw = seq!['#', ':', ' '] + m;
        let n = Seq::<char>::empty();
        let sp = seq![' '];
        assert(blank(sp));
        lemma_mark_names();
        theorem_line_mark(n, "#:"@, sp, m, n);
        assert(n + ("#:"@ + sp + m) + n =~= raw);
        assert("#:"@ + sp + m =~= raw);
        let q1 = lemma_open(q, r1, raw, St::OC, raw, false);
        assert(raw.skip(3) =~= m);
        lemma_core_c(q, r1);
        let c2 = open_entry(St::OC, r1.c, raw, false);
        assert(core(c2) == c2);
        assert(c2.occurrences =~= add_occs(r.c, flat(g)).occurrences) by {
            assert(occs_of(flat(d) + x) =~= occs_of(flat(d)) + occs_of(x));
        }
        assert(c2 == add_occs(r.c, flat(g)));
        lemma_mid_cur(q1, with_c(r, c2));
        assert(occ_lines(g).last() == raw);
        assert forall|i: int| 0 <= i < g.len() implies no_nl(#[trigger] occ_lines(g)[i]) by {
            if i < d.len() { assert(occ_lines(g)[i] == occ_lines(d)[i]); } else {
                assert forall|j: int| 0 <= j < raw.len() implies #[trigger] raw[j] != '\n' by { if j >= 3 { assert(raw[j] == m[j - 3]); } }
            }
        }
    }
}
pub proof fn lemma_join_lined(ls: Seq<Seq<char>>)
    requires ls.len() > 0,
    ensures join(ls, seq!['\n']) + seq!['\n'] == lined(ls),
    decreases ls.len(),
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<char>>::empty());
        reveal_with_fuel(lined, 2);
        assert(join(ls, seq!['\n']) + seq!['\n'] =~= lined(ls));
    } else {
        lemma_join_lined(ls.skip(1));
        lemma_lined_front(ls);
        assert(join(ls, seq!['\n']) + seq!['\n'] =~= ls[0] + seq!['\n'] + lined(ls.skip(1)));
    }
}
pub proof fn lemma_lined_front(ls: Seq<Seq<char>>)
    requires ls.len() > 0,
    ensures lined(ls) == ls[0] + seq!['\n'] + lined(ls.skip(1)),
    decreases ls.len(),
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<char>>::empty());
        assert(ls.skip(1) =~= Seq::<Seq<char>>::empty());
        reveal_with_fuel(lined, 2);
        assert(lined(ls) =~= ls[0] + seq!['\n'] + lined(ls.skip(1)));
    } else {
        let d = ls.drop_last();
        lemma_lined_front(d);
        assert(ls.skip(1).drop_last() =~= d.skip(1));
        assert(lined(ls) =~= ls[0] + seq!['\n'] + lined(ls.skip(1)));
    }
}
pub proof fn lemma_groups_words(o: Seq<Seq<char>>, g: Seq<Seq<Seq<char>>>)
    requires words(o), flat(g) == o, forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0,
    ensures forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0 && words(g[i]),
    decreases g.len(),
{
    if g.len() > 0 {
        let d = g.drop_last();
        let x = g.last();
        assert(o == flat(d) + x);
        assert forall|i: int| 0 <= i < flat(d).len() implies (#[trigger] flat(d)[i]).len() > 0 && no_ws(flat(d)[i]) by { assert(flat(d)[i] == o[i]); }
        assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() > 0 && no_ws(x[i]) by { assert(x[i] == o[flat(d).len() + i]); }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() > 0 by { assert(d[i] == g[i]); }
        lemma_groups_words(flat(d), d);
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).len() > 0 && words(g[i]) by {
            if i < d.len() { assert(g[i] == d[i]); assert(words(d[i])); } else { assert(g[i] == x); }
        }
    }
}
/// flags: not empty, trimmed, without commas and newlines
pub open spec fn flag_ok(f: Seq<char>) -> bool { solid(f) && !f.contains(',') && no_nl(f) }
pub open spec fn flags_ok(f: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < f.len() ==> flag_ok(#[trigger] f[i]) }
pub proof fn lemma_split_flags(f: Seq<Seq<char>>)
    requires f.len() > 0, flags_ok(f),
    ensures
        ({ let s = join(f, seq![',', ' ']); trims(split(s, ',')) == f && solid(s) && no_nl(s) }),
    decreases f.len(),
{
    let sep = seq![',', ' '];
    let s = join(f, sep);
    let a = f[0];
    let n = Seq::<char>::empty();
    assert(flag_ok(a));
    lemma_trim_around(n, a, n);
    if f.len() == 1 {
        lemma_cpos(s, ',');
        assert(split(s, ',') =~= seq![a]);
        assert(trims(split(s, ',')) =~= f);
    } else {
        let h = f.skip(1);
        assert forall|i: int| 0 <= i < h.len() implies flag_ok(#[trigger] h[i]) by { assert(h[i] == f[i + 1]); }
        lemma_split_flags(h);
        let j = join(h, sep);
        assert forall|i: int| 0 <= i < a.len() implies s[i] != ',' by { assert(s[i] == a[i]); }
        let k = a.len() as int;
        assert(s[k] == ',');
        lemma_cpos_is(s, ',', k);
        assert(s.take(k) =~= a);
        let b = seq![' '] + j;
        assert(s.skip(k + 1) =~= b);
        lemma_split_space(j);
        assert(s.last() == j.last());
        assert(s[0] == a[0]);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by {
            if i < k { assert(s[i] == a[i]); } else if i > k + 1 { assert(s[i] == j[i - k - 2]); }
        }
        assert(split(s, ',') =~= seq![a] + split(b, ','));
        assert(trims(split(s, ',')) =~= seq![a] + trims(split(b, ',')));
        assert(f =~= seq![a] + h);
    }
}
/// a space in front is trimmed
pub proof fn lemma_split_space(j: Seq<char>)
    ensures trims(split(seq![' '] + j, ',')) == trims(split(j, ',')),
{
    let b = seq![' '] + j;
    lemma_cpos(j, ',');
    let k = cpos(j, ',');
    assert forall|i: int| 0 <= i < k + 1 implies b[i] != ',' by { if i > 0 { assert(b[i] == j[i - 1]); } }
    if k < j.len() { assert(b[k + 1] == j[k]); }
    lemma_cpos_is(b, ',', k + 1);
    if k < j.len() {
        assert(b.take(k + 1) =~= seq![' '] + j.take(k));
        assert(b.skip(k + 2) =~= j.skip(k + 1));
        lemma_trim_space(j.take(k));
        assert(trims(split(b, ',')) =~= trims(split(j, ',')));
    } else {
        lemma_trim_space(j);
        assert(trims(split(b, ',')) =~= trims(split(j, ',')));
    }
}
pub proof fn lemma_trim_space(x: Seq<char>)
    ensures trim(seq![' '] + x) == trim(x),
{
    let b = seq![' '] + x;
    assert(b[0] == ' ');
    assert(b.skip(1) =~= x);
}
pub open spec fn add_flags(c: POEntryV, f: Seq<Seq<char>>) -> POEntryV { POEntryV { flags: c.flags + f, ..c } }
pub proof fn lemma_read_flags(p: PSt, r: Rd, f: Seq<Seq<char>>, t: Seq<char>)
    requires cur(p, r), trans(St::FL, p.state) == Some(St::FL), f.len() > 0, flags_ok(f), t == seq!['#', ',', ' '] + join(f, seq![',', ' ']) + seq!['\n'],
    ensures reads(p, t) is Ok, inv(reads(p, t)->Ok_0, with_c(r, add_flags(r.c, f))), whole(t),
{
    hide(classify); hide(step); hide(cur); hide(lines); hide(steps);
    let m = join(f, seq![',', ' ']);
    lemma_split_flags(f);
    let raw = seq!['#', ',', ' '] + m;
    let n = Seq::<char>::empty();
    let sp = seq![' '];
    assert(blank(sp));
    lemma_mark_names();
    theorem_line_mark(n, "#,"@, sp, m, n);
    assert(n + ("#,"@ + sp + m) + n =~= raw);
    assert("#,"@ + sp + m =~= raw);
    assert(no_nl(raw)) by { assert forall|j: int| 0 <= j < raw.len() implies #[trigger] raw[j] != '\n' by { if j >= 3 { assert(raw[j] == m[j - 3]); } } }
    lemma_line_one(raw);
    lemma_steps_one(p, strip_cr(raw));
    lemma_step_cr(p, raw);
    let q1 = lemma_open(p, r, raw, St::FL, raw, false);
    assert(raw.skip(3) =~= m);
    lemma_core_c(p, r);
    assert(core(open_entry(St::FL, r.c, raw, false)) == add_flags(r.c, f));
    lemma_mid_cur(q1, with_c(r, add_flags(r.c, f)));
}
} // verus!
