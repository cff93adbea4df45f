// What the lines of a PO text are, whatever their spacing is (C04, C07)
verus! {
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
pub open spec fn all_aws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_aws(#[trigger] s[i]) }
/// begins and ends without whitespace
pub open spec fn solid(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) }

pub proof fn lemma_trim_end_at(s: Seq<char>, j: int)
    requires 0 < j <= s.len(), forall|i: int| j <= i < s.len() ==> is_ws(#[trigger] s[i]), !is_ws(s[j - 1]),
    ensures trim_end(s) == s.take(j),
    decreases s.len(),
{
    if j < s.len() {
        assert(is_ws(s[s.len() - 1]));
        let t = s.drop_last();
        lemma_trim_end_at(t, j);
        assert(t.take(j) =~= s.take(j));
    } else {
        assert(s.take(j) =~= s);
    }
}
/// whitespace around a text goes away
pub proof fn lemma_trim_around(a: Seq<char>, m: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), solid(m),
    ensures trim(a + m + b) == m, trim_start(a + m) == m, trim(m) == m,
{
    let s = a + m + b;
    let j = a.len() as int;
    assert forall|i: int| 0 <= i < j implies is_ws(#[trigger] s[i]) by { assert(s[i] == a[i]); }
    assert(s[j] == m[0]);
    lemma_trim_start_at(s, j);
    let t = s.skip(j);
    assert(t =~= m + b);
    let n = m.len() as int;
    assert forall|i: int| n <= i < t.len() implies is_ws(#[trigger] t[i]) by { assert(t[i] == b[i - n]); }
    assert(t[n - 1] == m.last());
    lemma_trim_end_at(t, n);
    assert(t.take(n) =~= m);
    let u = a + m;
    assert forall|i: int| 0 <= i < j implies is_ws(#[trigger] u[i]) by { assert(u[i] == a[i]); }
    assert(u[j] == m[0]);
    lemma_trim_start_at(u, j);
    assert(u.skip(j) =~= m);
    lemma_trim_start_at(m, 0);
    assert(m.skip(0) =~= m);
    lemma_trim_end_at(m, n);
    assert(m.take(n) =~= m);
}
pub proof fn lemma_awpos_is(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !is_aws(#[trigger] s[i]), n < s.len() ==> is_aws(s[n]),
    ensures awpos(s) == n,
    decreases s.len(),
{
    if n > 0 {
        assert(!is_aws(s[0]));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies !is_aws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        if n < s.len() { assert(t[n - 1] == s[n]); }
        lemma_awpos_is(t, n - 1);
    }
}
/// a token in front
pub proof fn lemma_atoks_front(k: Seq<char>, r: Seq<char>)
    requires k.len() > 0, forall|i: int| 0 <= i < k.len() ==> !is_aws(#[trigger] k[i]), r.len() > 0 ==> is_aws(r[0]),
    ensures atoks(k + r) == seq![k] + atoks(r), atoks(k + r).len() > 0, atoks(k + r)[0] == k,
{
    let s = k + r;
    let n = k.len() as int;
    assert forall|i: int| 0 <= i < n implies !is_aws(#[trigger] s[i]) by { assert(s[i] == k[i]); }
    if n < s.len() { assert(s[n] == r[0]); }
    lemma_awpos_is(s, n);
    assert(!is_aws(s[0]));
    assert(s.take(n) =~= k);
    assert(s.skip(n) =~= r);
}
/// whitespace in front
pub proof fn lemma_atoks_ws(a: Seq<char>, r: Seq<char>)
    requires all_aws(a),
    ensures atoks(a + r) == atoks(r),
    decreases a.len(),
{
    if a.len() > 0 {
        assert((a + r)[0] == a[0]);
        assert((a + r).skip(1) =~= a.skip(1) + r);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies is_aws(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_atoks_ws(a.skip(1), r);
    } else {
        assert(a + r =~= r);
    }
}
/// a text with something in it has tokens
pub proof fn lemma_atoks_some(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), !is_aws(s[k]),
    ensures atoks(s).len() > 0,
    decreases s.len(),
{
    if is_aws(s[0]) {
        assert(s.skip(1)[k - 1] == s[k]);
        lemma_atoks_some(s.skip(1), k - 1);
    } else {
        lemma_atoks_head(s);
    }
}
pub proof fn lemma_toks3(l: Seq<char>)
    ensures
        toks3(l).len() == (if atoks(l).len() > 3 { 3 } else { atoks(l).len() }),
        forall|i: int| 0 <= i < toks3(l).len() ==> #[trigger] toks3(l)[i] == atoks(l)[i],
{
}
pub open spec fn is_kw(k: Seq<char>) -> bool { kw(k) is Some }
pub open spec fn is_pkw(k: Seq<char>) -> bool { pkw(k) is Some }
pub proof fn lemma_kw_word(k: Seq<char>)
    requires is_kw(k) || is_pkw(k),
    ensures k.len() > 0, k[0] == 'm', forall|i: int| 0 <= i < k.len() ==> !is_ws(#[trigger] k[i]) && !is_aws(k[i]),
{
    lemma_kw_names();
}
pub open spec fn quoted(q: Seq<char>) -> bool { qerr(q) is None }
pub open spec fn blank(sp: Seq<char>) -> bool { sp.len() > 0 && all_aws(sp) }
pub proof fn lemma_blank(sp: Seq<char>)
    requires all_aws(sp),
    ensures all_ws(sp),
{
}
pub proof fn lemma_quoted(q: Seq<char>)
    requires quoted(q),
    ensures q.len() >= 2, q[0] == '"', q.last() == '"', solid(q), atoks(q).len() > 0, atoks(q)[0].len() > 0, atoks(q)[0][0] == '"',
{
    lemma_atoks_head(q);
}
/// a word, spaces and a quoted text
pub proof fn lemma_word_line(k: Seq<char>, sp: Seq<char>, q: Seq<char>)
    requires k.len() > 0, forall|i: int| 0 <= i < k.len() ==> !is_ws(#[trigger] k[i]) && !is_aws(k[i]), blank(sp), quoted(q),
    ensures
        ({ let m = k + sp + q; solid(m) && atoks(m).len() > 1 && atoks(m)[0] == k && atoks(m).skip(1) == atoks(q) && trim_start(m.skip(k.len() as int)) == q && m[0] == k[0] }),
{
    let m = k + sp + q;
    lemma_quoted(q);
    assert(m =~= k + (sp + q));
    assert((sp + q)[0] == sp[0]);
    assert(is_aws(sp[0]));
    lemma_atoks_front(k, sp + q);
    lemma_atoks_ws(sp, q);
    assert(atoks(m).skip(1) =~= atoks(q));
    assert(m.skip(k.len() as int) =~= sp + q);
    lemma_blank(sp);
    lemma_trim_around(sp, q, Seq::empty());
    assert(m[0] == k[0]);
    assert(!is_ws(k[0]));
    assert(m.last() == q.last());
}
/// `keyword "value"`
pub proof fn lemma_body_kw(k: Seq<char>, sp: Seq<char>, q: Seq<char>, t: Seq<Seq<char>>, obs: bool)
    requires is_kw(k), blank(sp), quoted(q), t.len() > 1, t[0] == k,
    ensures body_ln(k + sp + q, t, obs) == Ln::Tok(kw(k)->0, q, obs, None),
{
    lemma_kw_word(k);
    lemma_word_line(k, sp, q);
}
/// `"value"`
pub proof fn lemma_body_cont(q: Seq<char>, t: Seq<Seq<char>>, obs: bool)
    requires quoted(q), t.len() > 0, t[0].len() > 0, t[0][0] == '"',
    ensures body_ln(q, t, obs) == Ln::Tok(St::MC, q, obs, None),
{
    lemma_quoted(q);
    lemma_mark_names();
    lemma_kw_names();
}
/// `msgstr[N]`
pub open spec fn plural_word(d: Seq<char>) -> Seq<char> { "msgstr["@ + d + seq![']'] }
pub open spec fn is_index(d: Seq<char>) -> bool { d.len() > 0 && all_digits(d) && dec_val(d) <= 255 }
pub proof fn lemma_plural_word(d: Seq<char>)
    requires is_index(d),
    ensures
        ({ let k = plural_word(d);
           k.len() == d.len() + 8 && k[0] == 'm' && (forall|i: int| 0 <= i < k.len() ==> !is_ws(#[trigger] k[i]) && !is_aws(k[i]) && k[i] != '"')
           && k.last() == ']' && (forall|i: int| 0 <= i < k.len() - 1 ==> #[trigger] k[i] != ']') && k[6] == '[' && kw(k) is None }),
{
    lemma_mark_names();
    lemma_kw_names();
    let k = plural_word(d);
    let m = "msgstr["@;
    assert(m.len() == 7);
    assert(m[0] == 'm' && m[1] == 's' && m[2] == 'g' && m[3] == 's' && m[4] == 't' && m[5] == 'r' && m[6] == '[');
    assert(k[6] == '[');
    assert forall|i: int| 0 <= i < k.len() implies !is_ws(#[trigger] k[i]) && !is_aws(k[i]) && k[i] != '"' && (i < k.len() - 1 ==> k[i] != ']') by {
        if i < 7 { assert(k[i] == m[i]); } else if i < 7 + d.len() { assert(k[i] == d[i - 7]); assert(is_digit(d[i - 7])); } else { assert(k[i] == ']'); }
    }
    if kw(k) is Some { assert(false); }
}
pub proof fn lemma_body_plural(d: Seq<char>, sp: Seq<char>, q: Seq<char>, t: Seq<Seq<char>>, obs: bool)
    requires is_index(d), blank(sp), quoted(q), t.len() > 0, t[0] == plural_word(d),
    ensures
        body_ln(plural_word(d) + sp + q, t, obs) == Ln::Tok(St::MX, plural_word(d) + sp + q, obs, Some(dec_val(d))),
        mx_value(plural_word(d) + sp + q) == inner(q),
{
    hide(qerr);
    lemma_mark_names();
    let k = plural_word(d);
    let m = k + sp + q;
    lemma_plural_word(d);
    lemma_word_line(k, sp, q);
    lemma_quoted(q);
    assert(k.take(7) =~= "msgstr["@);
    assert(m.take(7) =~= k.take(7));
    assert(has_prefix(m, "msgstr["@));
    let r = m.skip(7);
    let n = d.len() as int;
    assert forall|i: int| 0 <= i < n implies r[i] != ']' by { assert(r[i] == k[i + 7]); }
    assert(r[n] == k[n + 7]);
    lemma_cpos_is(r, ']', n);
    assert(r.take(n) =~= d);
    assert(is_digit(d[0]));
    assert(unplus(d) == d);
    assert(plural_index(m) == Some(dec_val(d)));
    let c = k.len() as int;
    assert forall|i: int| 0 <= i < c - 1 implies m[i] != ']' by { assert(m[i] == k[i]); }
    assert(m[c - 1] == k[c - 1]);
    lemma_cpos_is(m, ']', c - 1);
    assert(m.contains(']')) by { assert(m[c - 1] == ']'); }
    assert(plural_value(m) == q);
    assert(t[0] != "#:"@) by { assert(t[0][0] == 'm'); }
    assert(!starts_quote(m));
    // the value
    let z = c + sp.len();
    assert forall|i: int| 0 <= i < z implies m[i] != '"' by {
        if i < c { assert(m[i] == k[i]); } else { assert(m[i] == sp[i - c]); assert(is_aws(sp[i - c])); }
    }
    assert(m[z] == q[0]);
    lemma_cpos_is(m, '"', z);
    assert(mx_value(m) =~= inner(q));
}
/// `#| keyword "value"`
pub proof fn lemma_body_prev(k: Seq<char>, sp0: Seq<char>, sp: Seq<char>, q: Seq<char>, t: Seq<Seq<char>>, obs: bool)
    requires is_pkw(k), blank(sp0), blank(sp), quoted(q), t.len() > 2, t[0] == "#|"@, t[1] == k,
    ensures body_ln("#|"@ + sp0 + (k + sp + q), t, obs) == Ln::Tok(pkw(k)->0, q, obs, None),
{
    hide(qerr);
    lemma_mark_names();
    lemma_kw_names();
    lemma_kw_word(k);
    lemma_word_line(k, sp, q);
    let m = k + sp + q;
    let l = "#|"@ + sp0 + m;
    assert(l.skip(2) =~= sp0 + m);
    lemma_blank(sp0);
    lemma_trim_around(sp0, m, Seq::empty());
    assert(l[0] == '#');
    lemma_not_plural(l);
    assert(has_prefix(t[0], "##"@) ==> t[0].take(2)[1] == '#');
    assert(!starts_quote(m)) by { assert(m[0] == 'm'); }
}
/// `#| "value"`
pub proof fn lemma_body_prev_cont(sp0: Seq<char>, q: Seq<char>, t: Seq<Seq<char>>, obs: bool)
    requires blank(sp0), quoted(q), t.len() > 1, t[0] == "#|"@,
    ensures body_ln("#|"@ + sp0 + q, t, obs) == Ln::Tok(St::MC, q, obs, None),
{
    lemma_mark_names();
    lemma_kw_names();
    lemma_quoted(q);
    let l = "#|"@ + sp0 + q;
    assert(l.skip(2) =~= sp0 + q);
    lemma_blank(sp0);
    lemma_trim_around(sp0, q, Seq::empty());
    assert(l[0] == '#');
    lemma_not_plural(l);
    assert(has_prefix(t[0], "##"@) ==> t[0].take(2)[1] == '#');
}
pub proof fn lemma_not_plural(l: Seq<char>)
    requires l.len() > 0, l[0] == '#',
    ensures !has_prefix(l, "msgstr["@),
{
    lemma_mark_names();
    if has_prefix(l, "msgstr["@) { assert(l.take(7)[0] == l[0]); }
}
/// a line that is not marked as obsolete
pub proof fn lemma_top(a: Seq<char>, m: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), solid(m), atoks(m).len() > 0, atoks(m)[0] != "#~|"@, atoks(m)[0] != "#~"@,
    ensures classify(a + m + b) == body_ln(m, toks3(m), false),
{
    lemma_trim_around(a, m, b);
    lemma_toks3(m);
}
/// an obsolete one
pub proof fn lemma_top_obs(a: Seq<char>, sp: Seq<char>, m: Seq<char>, b: Seq<char>)
    requires all_ws(a), all_ws(b), solid(m), blank(sp), atoks(m).len() > 0,
    ensures
        classify(a + ("#~"@ + sp + m) + b) == body_ln(m, toks3("#~"@ + sp + m).skip(1), true),
        toks3("#~"@ + sp + m).skip(1).len() == (if atoks(m).len() > 2 { 2 } else { atoks(m).len() }),
        forall|i: int| 0 <= i < toks3("#~"@ + sp + m).skip(1).len() ==> #[trigger] toks3("#~"@ + sp + m).skip(1)[i] == atoks(m)[i],
{
    lemma_mark_names();
    let w = "#~"@;
    let l = w + sp + m;
    assert(w.len() == 2 && w[0] == '#' && w[1] == '~');
    assert forall|i: int| 0 <= i < w.len() implies !is_aws(#[trigger] w[i]) by { if i == 0 {} else { assert(i == 1); } }
    assert(l =~= w + (sp + m));
    assert((sp + m)[0] == sp[0]);
    lemma_atoks_front(w, sp + m);
    lemma_atoks_ws(sp, m);
    assert(l[0] == '#');
    assert(l.last() == m.last());
    lemma_trim_around(a, l, b);
    lemma_toks3(l);
    lemma_blank(sp);
    let x = sp.skip(1);
    assert(l.skip(3) =~= x + m);
    assert(all_ws(x)) by { assert forall|i: int| 0 <= i < x.len() implies is_ws(#[trigger] x[i]) by { assert(x[i] == sp[i + 1]); } }
    assert(x + m =~= x + m + Seq::empty());
    lemma_trim_around(x, m, Seq::empty());
    assert(atoks(l).skip(1) =~= atoks(m));
    assert forall|i: int| 0 <= i < toks3(l).skip(1).len() implies #[trigger] toks3(l).skip(1)[i] == atoks(m)[i] by {
        assert(toks3(l).skip(1)[i] == toks3(l)[i + 1]);
        assert(atoks(l).skip(1)[i] == atoks(l)[i + 1]);
    }
    assert(w != "#~|"@);
}
} // verus!
