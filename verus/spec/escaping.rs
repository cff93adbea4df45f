verus! {

// ---------------------------------------------------------------------
// Escaping, as a relation between characters and their escaped form.

/// The character after the backslash for the characters that are escaped
pub open spec fn esc_letter(c: char) -> Option<char> {
    if c == '"' { Some('"') }
    else if c == '\\' { Some('\\') }
    else if c == '\n' { Some('n') }
    else if c == '\r' { Some('r') }
    else if c == '\t' { Some('t') }
    else if c == '\u{8}' { Some('b') }
    else if c == '\u{11}' { Some('v') }
    else if c == '\u{12}' { Some('f') }
    else { None }
}

/// The character meant by a backslash followed by `l`
pub open spec fn esc_meaning(l: char) -> Option<char> {
    if l == '"' { Some('"') }
    else if l == '\\' { Some('\\') }
    else if l == 'n' { Some('\n') }
    else if l == 'r' { Some('\r') }
    else if l == 't' { Some('\t') }
    else if l == 'b' { Some('\u{8}') }
    else if l == 'v' { Some('\u{11}') }
    else if l == 'f' { Some('\u{12}') }
    else { None }
}

pub open spec fn esc_char(c: char) -> Seq<char> {
    match esc_letter(c) {
        Some(l) => seq!['\\', l],
        None => seq![c],
    }
}

/// The escaped form of a text
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc_char(s.last()) }
}

/// Reading an escaped text from the left: the text meant by it, or None if
/// it is malformed
pub open spec fn unesc(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 {
        Some(Seq::empty())
    } else if s[0] != '\\' {
        match unesc(s.skip(1)) {
            Some(r) => Some(seq![s[0]] + r),
            None => None,
        }
    } else if s.len() < 2 {
        None
    } else {
        match (esc_meaning(s[1]), unesc(s.skip(2))) {
            (Some(c), Some(r)) => Some(seq![c] + r),
            _ => None,
        }
    }
}

/// Whether an escaped text, read from the left, ends after an unpaired backslash
pub open spec fn open_esc(s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else { s.last() == '\\' && !open_esc(s.drop_last()) }
}

/// No quote that is not escaped, read from the left
pub open spec fn quotes_ok(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == '"' ==> open_esc(s.take(i))
}

pub open spec fn no_raw(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' && s[i] != '\t'
}

pub proof fn lemma_unesc_cat(a: Seq<char>, b: Seq<char>)
    requires unesc(a) is Some,
    ensures unesc(a + b) == (match unesc(b) {
        Some(t) => Some(unesc(a)->0 + t),
        None => None,
    }),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        match unesc(b) { Some(t) => { assert(Seq::<char>::empty() + t =~= t); } None => {} }
    } else if a[0] != '\\' {
        lemma_unesc_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        match unesc(b) {
            Some(t) => { assert(seq![a[0]] + (unesc(a.skip(1))->0 + t) =~= (seq![a[0]] + unesc(a.skip(1))->0) + t); }
            None => {}
        }
    } else {
        lemma_unesc_cat(a.skip(2), b);
        assert((a + b).skip(2) =~= a.skip(2) + b);
        assert((a + b)[0] == a[0] && (a + b)[1] == a[1]);
        match unesc(b) {
            Some(t) => {
                let c = esc_meaning(a[1])->0;
                assert(seq![c] + (unesc(a.skip(2))->0 + t) =~= (seq![c] + unesc(a.skip(2))->0) + t);
            }
            None => {}
        }
    }
}

pub proof fn lemma_unesc_one(c: char)
    ensures unesc(esc_char(c)) == Some(seq![c]),
{
    reveal_with_fuel(unesc, 3);
    let e = esc_char(c);
    assert(e.skip(1).len() == e.len() - 1);
    if esc_letter(c) is Some {
        assert(e.skip(2) =~= Seq::<char>::empty());
        assert(unesc(e.skip(2)) == Some(Seq::<char>::empty()));
        assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
    } else {
        assert(e.skip(1) =~= Seq::<char>::empty());
        assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
    }
}

/// Unescaping is a left inverse of escaping
pub proof fn lemma_unesc_esc(s: Seq<char>)
    ensures unesc(esc(s)) == Some(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_unesc_esc(s.drop_last());
        lemma_unesc_one(s.last());
        lemma_unesc_cat(esc(s.drop_last()), esc_char(s.last()));
        assert(s.drop_last() + seq![s.last()] =~= s);
    }
}

/// The escaped form has no raw newline, carriage return or tab, is closed
/// and hides every quote
pub proof fn lemma_esc_shape(s: Seq<char>)
    ensures !open_esc(esc(s)), quotes_ok(esc(s)), no_raw(esc(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = esc(s.drop_last());
        let e = esc_char(s.last());
        lemma_esc_shape(s.drop_last());
        if e.len() == 1 {
            assert((p + e).drop_last() =~= p);
        } else {
            assert((p + e).drop_last() =~= p.push('\\'));
            assert(p.push('\\').drop_last() =~= p);
            assert(open_esc(p.push('\\')));
        }
        assert forall|i: int| 0 <= i < (p + e).len() && #[trigger] (p + e)[i] == '"' implies open_esc((p + e).take(i)) by {
            if i < p.len() {
                assert((p + e).take(i) =~= p.take(i));
                assert(p[i] == '"');
            } else {
                assert(i == p.len() + 1);
                assert((p + e).take(i) =~= p.push('\\'));
                assert(p.push('\\').drop_last() =~= p);
            }
        }
        assert(no_raw(p + e));
    } else {
        assert(esc(s) =~= Seq::<char>::empty());
    }
}

/// A text without backslashes means itself
pub proof fn lemma_unesc_plain(s: Seq<char>)
    requires !s.contains('\\'),
    ensures unesc(s) == Some(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] != '\\');
        assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '\\' by { assert(s[i + 1] != '\\'); }
        lemma_unesc_plain(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}

} // verus!
