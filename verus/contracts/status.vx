//@@ block po_fuzzy
//@@ fn rust/src/entry/poentry.rs POEntry::fuzzy
//@@ ret r
//@@ contract
    ensures r == is_fuzzy(self@),
//@@ end

//@@ block po_translated
//@@ fn rust/src/entry/poentry.rs Translated for POEntry::translated
//@@ opt flat
//@@ opt notail
//@@ ret r
//@@ contract
    ensures r == is_translated(self@),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.msgstr_plural@.len(),
            forall|i: int| 0 <= i < self.msgstr_plural@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.msgstr_plural@[i],
            forall|i: int| 0 <= i < vx_it0.index@ ==> (#[trigger] self@.msgstr_plural[i]).len() > 0,
//@@ ghost loop 0 start
    proof { assert(self@.msgstr_plural[vx_it0.index@] == msgstr@); }
//@@ end

//@@ block po_translated_entries
//@@ fn rust/src/file/pofile.rs POFile::translated_entries
//@@ ret r
//@@ contract
    ensures vx_porefs(r@) == keep(self@.entries, |e: POEntryV| is_translated(e)),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_porefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: POEntryV| is_translated(e)),
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| is_translated(e)); assert(vx_porefs(entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
    proof { lemma_keep_step(self@.entries, vx_it0.index@, |e: POEntryV| is_translated(e)); }
//@@ ghost loop 0 end
    proof {
        assert(entries@ == vx_e0 || entries@ == vx_e0.push(entry));
        assert(entries@ == vx_e0.push(entry) ==> vx_porefs(entries@) =~= vx_porefs(vx_e0).push(entry@));
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| is_translated(e)); }
//@@ end

//@@ block po_untranslated_entries
//@@ fn rust/src/file/pofile.rs POFile::untranslated_entries
//@@ ret r
//@@ contract
    ensures vx_porefs(r@) == keep(self@.entries, |e: POEntryV| !is_translated(e)),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_porefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: POEntryV| !is_translated(e)),
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| !is_translated(e)); assert(vx_porefs(entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
    proof { lemma_keep_step(self@.entries, vx_it0.index@, |e: POEntryV| !is_translated(e)); }
//@@ ghost loop 0 end
    proof {
        assert(entries@ == vx_e0 || entries@ == vx_e0.push(entry));
        assert(entries@ == vx_e0.push(entry) ==> vx_porefs(entries@) =~= vx_porefs(vx_e0).push(entry@));
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| !is_translated(e)); }
//@@ end

//@@ block po_obsolete_entries
//@@ fn rust/src/file/pofile.rs POFile::obsolete_entries
//@@ ret r
//@@ contract
    ensures vx_porefs(r@) == keep(self@.entries, |e: POEntryV| e.obsolete),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_porefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: POEntryV| e.obsolete),
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| e.obsolete); assert(vx_porefs(entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
    proof { lemma_keep_step(self@.entries, vx_it0.index@, |e: POEntryV| e.obsolete); }
//@@ ghost loop 0 end
    proof {
        assert(entries@ == vx_e0 || entries@ == vx_e0.push(entry));
        assert(entries@ == vx_e0.push(entry) ==> vx_porefs(entries@) =~= vx_porefs(vx_e0).push(entry@));
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| e.obsolete); }
//@@ end

//@@ block po_fuzzy_entries
//@@ fn rust/src/file/pofile.rs POFile::fuzzy_entries
//@@ ret r
//@@ contract
    ensures vx_porefs(r@) == keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete),
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.entries@.len(),
            forall|i: int| 0 <= i < self.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.entries@[i],
            vx_porefs(entries@) == keep(self@.entries.take(vx_it0.index@), |e: POEntryV| is_fuzzy(e) && !e.obsolete),
//@@ ghost before 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete); assert(vx_porefs(entries@) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
    proof { lemma_keep_step(self@.entries, vx_it0.index@, |e: POEntryV| is_fuzzy(e) && !e.obsolete); }
//@@ ghost loop 0 end
    proof {
        assert(entries@ == vx_e0 || entries@ == vx_e0.push(entry));
        assert(entries@ == vx_e0.push(entry) ==> vx_porefs(entries@) =~= vx_porefs(vx_e0).push(entry@));
    }
//@@ ghost after 0
    proof { lemma_keep_all(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete); }
//@@ end

//@@ block po_percent_translated
//@@ fn rust/src/file/pofile.rs POFile::percent_translated
//@@ opt float
//@@ ret r
//@@ contract
    ensures
        self@.entries.len() == 0 ==> r == 0.0f32,
        self@.entries.len() > 0 ==> r == f32_mul(f32_div(f32_of(keep(self@.entries, |e: POEntryV| is_translated(e)).len() as int),
            f32_of(self@.entries.len() as int)), 100.0f32),
//@@ end
