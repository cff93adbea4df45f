//@@ block mo_empty_msgctxt_predicate
//@@ fn rust/src/file/mofile.rs empty_msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == true,
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_msgctxt_predicate
//@@ fn rust/src/file/mofile.rs msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgctxt) == msgctxt@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_by_msgid_predicate
//@@ fn rust/src/file/mofile.rs by_msgid_predicate
//@@ ret r
//@@ contract
    ensures r == (entry@.msgid == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_by_msgstr_predicate
//@@ fn rust/src/file/mofile.rs by_msgstr_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgstr) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_by_msgctxt_predicate
//@@ fn rust/src/file/mofile.rs by_msgctxt_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgctxt) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_by_msgid_plural_predicate
//@@ fn rust/src/file/mofile.rs by_msgid_plural_predicate
//@@ ret r
//@@ contract
    ensures r == (otext(entry@.msgid_plural) == value@),
//@@ ghost start
    proof { lemma_names(); }
//@@ end

//@@ block mo_find
//@@ fn rust/src/file/mofile.rs MOFile::find
//@@ ret r
//@@ contract
    // C12: exactly the matching messages, in file order
    ensures vx_morefs(r@) == keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_morefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))),
//@@ ghost start
    proof { lemma_names(); }
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))); assert(vx_morefs(entries@) =~= Seq::<MOEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(self@.entries, vx_it0.index@, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)));
        assert(vx_morefs(entries@.push(entry)) =~= vx_morefs(entries@).push(entry@));
        assert(self@.entries[vx_it0.index@] == entry@);
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))); }
//@@ end

//@@ block mo_find_by_msgid
//@@ fn rust/src/file/mofile.rs MOFile::find_by_msgid
//@@ ret r
//@@ contract
    ensures
        // C12: the first matching message
        first(self@.entries, |e: MOEntryV| e.msgid == msgid@) == (match r { Some(e) => Some(e@), None => None }),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_found is Some ==> first(self@.entries, |e: MOEntryV| e.msgid == msgid@) == vx_morefopt(vx_found),
            vx_found is None ==> forall|i: int| 0 <= i < vx_it0.index@ ==> !(|e: MOEntryV| e.msgid == msgid@)(#[trigger] self@.entries[i]),
//@@ ghost start
    proof { lemma_names(); lemma_first_at(self@.entries, 0, |e: MOEntryV| e.msgid == msgid@); }
//@@ ghost loop 0 start
    proof {
        assert(self@.entries[vx_it0.index@] == vx_x@);
        if vx_found is None { lemma_first_at(self@.entries, vx_it0.index@, |e: MOEntryV| e.msgid == msgid@); }
    }
//@@ ghost after 0
    proof { if vx_found is None { lemma_first_at(self@.entries, self@.entries.len() as int, |e: MOEntryV| e.msgid == msgid@); } }
//@@ end

//@@ block mo_find_by_msgid_msgctxt
//@@ fn rust/src/file/mofile.rs MOFile::find_by_msgid_msgctxt
//@@ ret r
//@@ contract
    requires msgctxt@.len() > 0,
    ensures
        // C12: the first matching message
        first(self@.entries, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == (match r { Some(e) => Some(e@), None => None }),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_found is Some ==> first(self@.entries, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == vx_morefopt(vx_found),
            vx_found is None ==> forall|i: int| 0 <= i < vx_it0.index@ ==> !(|e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)(#[trigger] self@.entries[i]),
//@@ ghost start
    proof { lemma_names(); lemma_first_at(self@.entries, 0, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); }
//@@ ghost loop 0 start
    proof {
        assert(self@.entries[vx_it0.index@] == vx_x@);
        if vx_found is None { lemma_first_at(self@.entries, vx_it0.index@, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); }
    }
//@@ ghost after 0
    proof { if vx_found is None { lemma_first_at(self@.entries, self@.entries.len() as int, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@); } }
//@@ end

//@@ block mo_remove
//@@ fn rust/src/file/mofile.rs MOFile::remove
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| e != entry@), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_moentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), |e: MOEntryV| e != entry@),
            self@ == (MOFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, |e: MOEntryV| e != entry@); }
//@@ ghost before 0
    proof { assert(vx_moentries(self.entries@) =~= Seq::<MOEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, |e: MOEntryV| e != entry@);
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_moentries(self.entries@.push(vx_x)) =~= vx_moentries(self.entries@).push(vx_x@));
    }
//@@ end

//@@ block mo_remove_by_msgid
//@@ fn rust/src/file/mofile.rs MOFile::remove_by_msgid
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| e.msgid != msgid@), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_moentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), |e: MOEntryV| e.msgid != msgid@),
            self@ == (MOFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, |e: MOEntryV| e.msgid != msgid@); }
//@@ ghost before 0
    proof { assert(vx_moentries(self.entries@) =~= Seq::<MOEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, |e: MOEntryV| e.msgid != msgid@);
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_moentries(self.entries@.push(vx_x)) =~= vx_moentries(self.entries@).push(vx_x@));
    }
//@@ end

//@@ block mo_remove_by_msgid_msgctxt
//@@ fn rust/src/file/mofile.rs MOFile::remove_by_msgid_msgctxt
//@@ opt notail
//@@ contract
    // C13: everything else stays
    ensures final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == old(self).entries@,
            vx_moentries(self.entries@) == keep(old(self)@.entries.take(vx_it0.index@), |e: MOEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)),
            self@ == (MOFileV { entries: self@.entries, ..old(self)@ }),
//@@ ghost start
    proof { lemma_names(); lemma_keep_all(old(self)@.entries, |e: MOEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)); }
//@@ ghost before 0
    proof { assert(vx_moentries(self.entries@) =~= Seq::<MOEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        lemma_keep_step(old(self)@.entries, vx_it0.index@, |e: MOEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@));
        assert(old(self)@.entries[vx_it0.index@] == vx_x@);
        assert(vx_moentries(self.entries@.push(vx_x)) =~= vx_moentries(self.entries@).push(vx_x@));
    }
//@@ end

