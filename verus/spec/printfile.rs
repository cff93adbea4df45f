// The text written for files (C04, C06)
verus! {
/// a line of the header comment
pub open spec fn head_line(l: Seq<char>) -> Seq<char> { if l.len() == 0 { seq!['#'] } else { seq!['#', ' '] + l } }
pub open spec fn head_lines(h: Option<Seq<char>>) -> Seq<Seq<char>> {
    if otext(h).len() == 0 { seq![seq!['#']] } else { Seq::new(lines(otext(h)).len(), |i: int| head_line(lines(otext(h))[i])) }
}
/// each text on its line
pub open spec fn lined(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { lined(ls.drop_last()) + ls.last() + seq!['\n'] }
}
/// a line of the metadata, with its end
pub open spec fn meta_part_text(l: Seq<char>) -> Seq<char> { seq!['"'] + (esc(l) + seq!['\\', 'n']) + seq!['"'] }
pub open spec fn meta_parts(ls: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| meta_part_text(ls[i])) }
pub open spec fn msgstr_open() -> Seq<char> { seq!['m', 's', 'g', 's', 't', 'r', ' ', '"', '"'] }
/// the translation of the header message: a line for each line of it
pub open spec fn meta_msgstr(m: Seq<char>) -> Seq<char> { lined(seq![msgstr_open()] + meta_parts(lines(m))) }
/// the header message
pub open spec fn is_head_text(e: MOEntryV, t: Seq<char>) -> bool {
    exists|t0: Seq<char>| is_items(mo_items3(e, Seq::empty()), 78, t0) && t == #[trigger] (t0 + meta_msgstr(otext(e.msgstr)))
}
pub open spec fn fuzzy_line() -> Seq<char> { seq!['#', ',', ' ', 'f', 'u', 'z', 'z', 'y'] }
pub open spec fn fuzzy_text(f: bool) -> Seq<char> { if f { fuzzy_line() + seq!['\n'] } else { Seq::empty() } }
pub open spec fn is_po_head_text(e: POEntryV, fuzzy: bool, t: Seq<char>) -> bool {
    exists|u: Seq<char>| is_head_text(mo_of(e), u) && t == #[trigger] (fuzzy_text(fuzzy) + u)
}
/// messages, an empty line after each
pub open spec fn is_messages(es: Seq<POEntryV>, w: int, t: Seq<char>) -> bool
    decreases es.len()
{
    if es.len() == 0 { t.len() == 0 }
    else {
        exists|a: Seq<char>, b: Seq<char>| is_messages(es.drop_last(), w, a) && is_items(po_items(es.last()), w, b) && t == #[trigger] (a + (b + seq!['\n']))
    }
}
pub open spec fn gone(x: bool) -> spec_fn(POEntryV) -> bool { |e: POEntryV| e.obsolete == x }
/// the header, the metadata, the messages, the obsolete ones
pub open spec fn file_text(h: Option<Seq<char>>, m: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> {
    (lined(head_lines(h)) + m + seq!['\n'] + a + b).drop_last()
}
pub open spec fn is_file_text(f: POFileV, t: Seq<char>) -> bool {
    exists|e: POEntryV, m: Seq<char>, a: Seq<char>, b: Seq<char>| is_file_head(f, e) && #[trigger] is_po_head_text(e, f.metadata_is_fuzzy, m)
        && is_messages(keep(f.entries, gone(false)), f.options.wrapwidth as int, a)
        && is_messages(keep(f.entries, gone(true)), f.options.wrapwidth as int, b)
        && t == #[trigger] file_text(f.header, m, a, b)
}
pub proof fn lemma_messages_push(es: Seq<POEntryV>, e: POEntryV, w: int, a: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires is_messages(es, w, a), is_items(po_items(e), w, b), t == a + (b + seq!['\n']),
    ensures is_messages(es.push(e), w, t),
{
    assert(es.push(e).drop_last() =~= es);
}
pub proof fn lemma_lined_push(ls: Seq<Seq<char>>, l: Seq<char>)
    ensures lined(ls.push(l)) == lined(ls) + l + seq!['\n'],
{
    assert(ls.push(l).drop_last() =~= ls);
}
/// the text of the header message after the header
pub open spec fn is_head_in(f: POFileV, m: Seq<char>) -> bool {
    exists|e: POEntryV| is_file_head(f, e) && #[trigger] is_po_head_text(e, f.metadata_is_fuzzy, m)
}
pub open spec fn past(h: Seq<char>, r: Seq<char>) -> Seq<char> { r.subrange(h.len() as int, r.len() - 1) }
pub proof fn lemma_past(h: Seq<char>, m: Seq<char>)
    ensures past(h, (h + m).push('\n')) == m, (h + m).push('\n') == h + m + seq!['\n'],
{
    assert(past(h, (h + m).push('\n')) =~= m);
    assert((h + m).push('\n') =~= h + m + seq!['\n']);
}
pub proof fn lemma_file_text(f: POFileV, m: Seq<char>, a: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires is_head_in(f, m),
        is_messages(keep(f.entries, gone(false)), f.options.wrapwidth as int, a), is_messages(keep(f.entries, gone(true)), f.options.wrapwidth as int, b),
        t == file_text(f.header, m, a, b),
    ensures is_file_text(f, t),
{}
} // verus!
