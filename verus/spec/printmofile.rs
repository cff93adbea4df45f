// The text written for MO files
verus! {
/// trusted: String::remove of the last byte, it panics if that is not a character
pub trait VxRemoveLast: View<V = Seq<char>> + Sized {
    fn vx_remove_last(&mut self) -> (r: char)
        requires old(self)@.len() > 0, old(self)@.last() as u32 <= 0x7f,
        ensures final(self)@ == old(self)@.drop_last(), r == old(self)@.last();
}
impl VxRemoveLast for String {
    #[verifier::external_body]
    fn vx_remove_last(&mut self) -> (r: char) { let n = self.len() - 1; self.remove(n) }
}
pub open spec fn is_mo_messages(es: Seq<MOEntryV>, w: int, t: Seq<char>) -> bool
    decreases es.len()
{
    if es.len() == 0 { t.len() == 0 }
    else {
        exists|a: Seq<char>, b: Seq<char>| is_mo_messages(es.drop_last(), w, a) && is_items(mo_items(es.last(), Seq::empty()), w, b) && t == #[trigger] (a + (b + seq!['\n']))
    }
}
pub open spec fn is_mo_head_in(f: MOFileV, m: Seq<char>) -> bool {
    exists|e: MOEntryV| is_meta_entry(f.metadata, e) && #[trigger] is_head_text(e, m)
}
pub open spec fn mo_text(m: Seq<char>, a: Seq<char>) -> Seq<char> { (seq!['#', '\n'] + m + seq!['\n'] + a).drop_last() }
/// the metadata and the messages of a MO file
pub open spec fn is_mo_text(f: MOFileV, t: Seq<char>) -> bool {
    exists|m: Seq<char>, a: Seq<char>| is_mo_head_in(f, m) && is_mo_messages(f.entries, f.options.wrapwidth as int, a) && t == #[trigger] mo_text(m, a)
}
/// the messages after a text
pub open spec fn is_mo_printed(r: Seq<char>, es: Seq<MOEntryV>, w: int, t: Seq<char>) -> bool {
    exists|a: Seq<char>| is_mo_messages(es, w, a) && t == #[trigger] (r + a)
}
pub proof fn lemma_mo_printed(r: Seq<char>, es: Seq<MOEntryV>, w: int, t: Seq<char>, u: Seq<char>)
    requires es.len() > 0, is_mo_printed(r, es.drop_last(), w, t), is_items(mo_items(es.last(), Seq::empty()), w, u),
    ensures is_mo_printed(r, es, w, (t + u).push('\n')),
{
    let a = choose|a: Seq<char>| is_mo_messages(es.drop_last(), w, a) && t == #[trigger] (r + a);
    let b = a + (u + seq!['\n']);
    assert(is_mo_messages(es, w, b));
    assert((t + u).push('\n') =~= r + b);
}
pub proof fn lemma_mo_text(f: MOFileV, m: Seq<char>, r: Seq<char>, t: Seq<char>)
    requires is_mo_head_in(f, m), r == seq!['#', '\n'] + m + seq!['\n'], is_mo_printed(r, f.entries, f.options.wrapwidth as int, t),
    ensures is_mo_text(f, t.drop_last()), t.len() > 0, t.last() == '\n',
{
    let w = f.options.wrapwidth as int;
    let a = choose|a: Seq<char>| is_mo_messages(f.entries, w, a) && t == #[trigger] (r + a);
    assert(t.drop_last() == mo_text(m, a));
    if f.entries.len() == 0 { assert(t =~= r); }
}
} // verus!
