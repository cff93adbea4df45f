verus! {
pub open spec fn mo_items1(e: MOEntryV, del: Seq<char>) -> Seq<Item> { opt_field(Seq::empty(), del, "msgctxt"@, e.msgctxt) }
pub open spec fn mo_items2(e: MOEntryV, del: Seq<char>) -> Seq<Item> { mo_items1(e, del).push(Item::Field(del, "msgid"@, e.msgid)) }
pub open spec fn mo_items3(e: MOEntryV, del: Seq<char>) -> Seq<Item> { opt_field(mo_items2(e, del), del, "msgid_plural"@, e.msgid_plural) }
/// the fields of a message: context, msgid, plural, translations
pub open spec fn mo_items(e: MOEntryV, del: Seq<char>) -> Seq<Item> {
    if e.msgstr_plural.len() == 0 { mo_items3(e, del).push(Item::Field(del, "msgstr"@, otext(e.msgstr))) }
    else { plural_items(mo_items3(e, del), del, e.msgstr_plural) }
}
} // verus!
