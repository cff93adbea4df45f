verus! {
// C12: the text of a field, a missing one is empty; None for unknown names
pub open spec fn by_text(e: MOEntryV, by: Seq<char>) -> Option<Seq<char>> {
    if by == "msgid"@ { Some(e.msgid) }
    else if by == "msgstr"@ { Some(otext(e.msgstr)) }
    else if by == "msgctxt"@ { Some(otext(e.msgctxt)) }
    else if by == "msgid_plural"@ { Some(otext(e.msgid_plural)) }
    else { None }
}
pub open spec fn hit(e: MOEntryV, value: Seq<char>, by: Seq<char>, ctx: Option<Seq<char>>) -> bool {
    by_text(e, by) == Some(value) && (ctx is Some ==> otext(e.msgctxt) == ctx->0)
}
pub open spec fn vx_optref(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn names_distinct() -> bool {
    "msgid"@ != "msgstr"@
    && "msgid"@ != "msgctxt"@
    && "msgid"@ != "msgid_plural"@
    && "msgstr"@ != "msgctxt"@
    && "msgstr"@ != "msgid_plural"@
    && "msgctxt"@ != "msgid_plural"@
}
pub proof fn lemma_names()
    ensures names_distinct(), ""@ == Seq::<char>::empty(),
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    reveal_strlit("msgid");
    reveal_strlit("msgstr");
    reveal_strlit("msgctxt");
    reveal_strlit("msgid_plural");
    assert("msgid"@.len() == 5 && "msgstr"@.len() == 6);
    assert("msgid"@.len() == 5 && "msgctxt"@.len() == 7);
    assert("msgid"@.len() == 5 && "msgid_plural"@.len() == 12);
    assert("msgstr"@.len() == 6 && "msgctxt"@.len() == 7);
    assert("msgstr"@.len() == 6 && "msgid_plural"@.len() == 12);
    assert("msgctxt"@.len() == 7 && "msgid_plural"@.len() == 12);
}
} // verus!
