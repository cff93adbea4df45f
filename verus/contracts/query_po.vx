//@@ block po_empty_msgctxt_predicate
//@@ fn rust/src/file/pofile.rs empty_msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == true,
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_msgctxt_predicate
//@@ fn rust/src/file/pofile.rs msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgctxt) == msgctxt@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_msgid_predicate
//@@ fn rust/src/file/pofile.rs by_msgid_predicate
//@@ ret r
//@@ contract
    ensures r == (entry@.msgid == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_msgstr_predicate
//@@ fn rust/src/file/pofile.rs by_msgstr_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgstr) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_msgctxt_predicate
//@@ fn rust/src/file/pofile.rs by_msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgctxt) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_msgid_plural_predicate
//@@ fn rust/src/file/pofile.rs by_msgid_plural_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgid_plural) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_previous_msgid_predicate
//@@ fn rust/src/file/pofile.rs by_previous_msgid_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.previous_msgid) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_previous_msgid_plural_predicate
//@@ fn rust/src/file/pofile.rs by_previous_msgid_plural_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.previous_msgid_plural) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_by_previous_msgctxt_predicate
//@@ fn rust/src/file/pofile.rs by_previous_msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.previous_msgctxt) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block po_find
//@@ fn rust/src/file/pofile.rs POFile::find
//@@ ret r
//@@ contract
    // C12: exactly the matching messages, in file order
    ensures vx_porefs(r@) == keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_porefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)),
//@@ ghost start
    proof { lemma_names(); }
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)); assert(vx_porefs(entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(self@.entries, vx_it0.index@, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries));
        assert(vx_porefs(entries@.push(entry)) =~= vx_porefs(entries@).push(entry@));
        assert(self@.entries[vx_it0.index@] == entry@);
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)); }
//@@ end

//@@ block po_find_by_msgid
//@@ fn rust/src/file/pofile.rs POFile::find_by_msgid
//@@ ret r
//@@ contract
    ensures
        // C12: the first matching message
        first(self@.entries, |e: POEntryV| e.msgid == msgid@) == (match r { Some(e) => Some(e@), None => None }),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_found is Some ==> first(self@.entries, |e: POEntryV| e.msgid == msgid@) == vx_porefopt(vx_found),
            vx_found is None ==> forall|i: int| 0 <= i < vx_it0.index@ ==> !(|e: POEntryV| e.msgid == msgid@)(#[trigger] self@.entries[i]),
//@@ ghost start
    proof { lemma_names(); lemma_first_at(self@.entries, 0, |e: POEntryV| e.msgid == msgid@); }
//@@ ghost loop 0 start
    proof {
        assert(self@.entries[vx_it0.index@] == vx_x@);
        if vx_found is None { lemma_first_at(self@.entries, vx_it0.index@, |e: POEntryV| e.msgid == msgid@); }
    }
//@@ ghost after 0
    proof { if vx_found is None { lemma_first_at(self@.entries, self@.entries.len() as int, |e: POEntryV| e.msgid == msgid@); } }
//@@ end

//@@ block po_find_by_msgid_msgctxt
//@@ fn rust/src/file/pofile.rs POFile::find_by_msgid_msgctxt
//@@ ret r
//@@ contract
    ensures
        // C12: the first matching message
        first(self@.entries, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == (match r { Some(e) => Some(e@), None => None }),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_found is Some ==> first(self@.entries, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == vx_porefopt(vx_found),
            vx_found is None ==> forall|i: int| 0 <= i < vx_it0.index@ ==> !(|e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)(#[trigger] self@.entries[i]),
//@@ ghost start
    proof { lemma_names(); lemma_first_at(self@.entries, 0, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); }
//@@ ghost loop 0 start
    proof {
        assert(self@.entries[vx_it0.index@] == vx_x@);
        if vx_found is None { lemma_first_at(self@.entries, vx_it0.index@, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); }
    }
//@@ ghost after 0
    proof { if vx_found is None { lemma_first_at(self@.entries, self@.entries.len() as int, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); } }
//@@ end

//@@ block po_remove
//@@ fn rust/src/file/pofile.rs POFile::remove
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (POFileV { entries: keep(old(self)@.entries, not_entry(entry@)), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_poentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), not_entry(entry@)),
            self@ == (POFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, not_entry(entry@)); }
//@@ ghost before 0
    proof { assert(vx_poentries(self.entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, not_entry(entry@));
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_poentries(self.entries@.push(vx_x)) =~= vx_poentries(self.entries@).push(vx_x@));
    }
//@@ end

//@@ block po_remove_by_msgid
//@@ fn rust/src/file/pofile.rs POFile::remove_by_msgid
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (POFileV { entries: keep(old(self)@.entries, |e: POEntryV| e.msgid != msgid@), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_poentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), |e: POEntryV| e.msgid != msgid@),
            self@ == (POFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, |e: POEntryV| e.msgid != msgid@); }
//@@ ghost before 0
    proof { assert(vx_poentries(self.entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, |e: POEntryV| e.msgid != msgid@);
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_poentries(self.entries@.push(vx_x)) =~= vx_poentries(self.entries@).push(vx_x@));
    }
//@@ end

//@@ block po_remove_by_msgid_msgctxt
//@@ fn rust/src/file/pofile.rs POFile::remove_by_msgid_msgctxt
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (POFileV { entries: keep(old(self)@.entries, |e: POEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_poentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), |e: POEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)),
            self@ == (POFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, |e: POEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)); }
//@@ ghost before 0
    proof { assert(vx_poentries(self.entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, |e: POEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@));
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_poentries(self.entries@.push(vx_x)) =~= vx_poentries(self.entries@).push(vx_x@));
    }
//@@ end

