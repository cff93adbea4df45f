verus! {
// C12: the text of a field, a missing one is empty; None for unknown names
pub open spec fn by_text(e: POEntryV, by: Seq<char>) -> Option<Seq<char>> {
    if by == "msgid"@ { Some(e.msgid) }
    else if by == "msgstr"@ { Some(otext(e.msgstr)) }
    else if by == "msgctxt"@ { Some(otext(e.msgctxt)) }
    else if by == "msgid_plural"@ { Some(otext(e.msgid_plural)) }
    else if by == "previous_msgid"@ { Some(otext(e.previous_msgid)) }
    else if by == "previous_msgid_plural"@ { Some(otext(e.previous_msgid_plural)) }
    else if by == "previous_msgctxt"@ { Some(otext(e.previous_msgctxt)) }
    else { None }
}
pub open spec fn hit(e: POEntryV, value: Seq<char>, by: Seq<char>, ctx: Option<Seq<char>>, obsolete: bool) -> bool {
    by_text(e, by) == Some(value) && (ctx is Some ==> otext(e.msgctxt) == ctx->0) && (obsolete || !e.obsolete)
}
pub open spec fn vx_optref(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn names_distinct() -> bool {
    "msgid"@ != "msgstr"@
    && "msgid"@ != "msgctxt"@
    && "msgid"@ != "msgid_plural"@
    && "msgid"@ != "previous_msgid"@
    && "msgid"@ != "previous_msgid_plural"@
    && "msgid"@ != "previous_msgctxt"@
    && "msgstr"@ != "msgctxt"@
    && "msgstr"@ != "msgid_plural"@
    && "msgstr"@ != "previous_msgid"@
    && "msgstr"@ != "previous_msgid_plural"@
    && "msgstr"@ != "previous_msgctxt"@
    && "msgctxt"@ != "msgid_plural"@
    && "msgctxt"@ != "previous_msgid"@
    && "msgctxt"@ != "previous_msgid_plural"@
    && "msgctxt"@ != "previous_msgctxt"@
    && "msgid_plural"@ != "previous_msgid"@
    && "msgid_plural"@ != "previous_msgid_plural"@
    && "msgid_plural"@ != "previous_msgctxt"@
    && "previous_msgid"@ != "previous_msgid_plural"@
    && "previous_msgid"@ != "previous_msgctxt"@
    && "previous_msgid_plural"@ != "previous_msgctxt"@
}
pub proof fn lemma_names()
    ensures names_distinct(), ""@ == Seq::<char>::empty(),
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    reveal_strlit("msgid");
    reveal_strlit("msgstr");
    reveal_strlit("msgctxt");
    reveal_strlit("msgid_plural");
    reveal_strlit("previous_msgid");
    reveal_strlit("previous_msgid_plural");
    reveal_strlit("previous_msgctxt");
    assert("msgid"@.len() == 5 && "msgstr"@.len() == 6);
    assert("msgid"@.len() == 5 && "msgctxt"@.len() == 7);
    assert("msgid"@.len() == 5 && "msgid_plural"@.len() == 12);
    assert("msgid"@.len() == 5 && "previous_msgid"@.len() == 14);
    assert("msgid"@.len() == 5 && "previous_msgid_plural"@.len() == 21);
    assert("msgid"@.len() == 5 && "previous_msgctxt"@.len() == 16);
    assert("msgstr"@.len() == 6 && "msgctxt"@.len() == 7);
    assert("msgstr"@.len() == 6 && "msgid_plural"@.len() == 12);
    assert("msgstr"@.len() == 6 && "previous_msgid"@.len() == 14);
    assert("msgstr"@.len() == 6 && "previous_msgid_plural"@.len() == 21);
    assert("msgstr"@.len() == 6 && "previous_msgctxt"@.len() == 16);
    assert("msgctxt"@.len() == 7 && "msgid_plural"@.len() == 12);
    assert("msgctxt"@.len() == 7 && "previous_msgid"@.len() == 14);
    assert("msgctxt"@.len() == 7 && "previous_msgid_plural"@.len() == 21);
    assert("msgctxt"@.len() == 7 && "previous_msgctxt"@.len() == 16);
    assert("msgid_plural"@.len() == 12 && "previous_msgid"@.len() == 14);
    assert("msgid_plural"@.len() == 12 && "previous_msgid_plural"@.len() == 21);
    assert("msgid_plural"@.len() == 12 && "previous_msgctxt"@.len() == 16);
    assert("previous_msgid"@.len() == 14 && "previous_msgid_plural"@.len() == 21);
    assert("previous_msgid"@.len() == 14 && "previous_msgctxt"@.len() == 16);
    assert("previous_msgid_plural"@.len() == 21 && "previous_msgctxt"@.len() == 16);
}
} // verus!
