verus! {
pub open spec fn prev_mark(e: POEntryV) -> Seq<char> {
    if e.obsolete { seq!['#', '~', '|', ' '] } else { seq!['#', '|', ' '] }
}
pub open spec fn po_mark(e: POEntryV) -> Seq<char> {
    if e.obsolete { seq!['#', '~', ' '] } else { Seq::empty() }
}
pub open spec fn po_items1(e: POEntryV) -> Seq<Item> { opt_cmt(Seq::empty(), seq!['#', ' '], e.tcomment) }
pub open spec fn po_items2(e: POEntryV) -> Seq<Item> { opt_cmt(po_items1(e), seq!['#', '.', ' '], e.comment) }
pub open spec fn po_items3(e: POEntryV) -> Seq<Item> {
    if !e.obsolete && e.occurrences.len() > 0 { po_items2(e).push(Item::Occs(occ_texts(e.occurrences))) } else { po_items2(e) }
}
pub open spec fn po_items4(e: POEntryV) -> Seq<Item> {
    if e.flags.len() > 0 { po_items3(e).push(Item::Flags(e.flags)) } else { po_items3(e) }
}
pub open spec fn po_items5(e: POEntryV) -> Seq<Item> { opt_field(po_items4(e), prev_mark(e), "msgctxt"@, e.previous_msgctxt) }
pub open spec fn po_items6(e: POEntryV) -> Seq<Item> { opt_field(po_items5(e), prev_mark(e), "msgid"@, e.previous_msgid) }
pub open spec fn po_items7(e: POEntryV) -> Seq<Item> { opt_field(po_items6(e), prev_mark(e), "msgid_plural"@, e.previous_msgid_plural) }
/// C06: comments, occurrences, flags, previous fields, fields
pub open spec fn po_items(e: POEntryV) -> Seq<Item> { po_items7(e) + mo_items(mo_of(e), po_mark(e)) }
} // verus!
