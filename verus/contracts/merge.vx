//@@ block po_new
//@@ fn rust/src/entry/poentry.rs POEntry::new
//@@ ret r
//@@ contract
    ensures r@ == po_fresh(linenum),
//@@ end

//@@ block po_entry_merge
//@@ fn rust/src/entry/poentry.rs Merge for POEntry::merge
//@@ opt flat
//@@ opt notail
//@@ contract
    // C15: the whole content of the incoming message
    ensures final(self)@ == other@,
//@@ end

//@@ block po_file_merge
//@@ fn rust/src/file/pofile.rs Merge for POFile::merge
//@@ opt flat
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { entries: merge_spec(old(self)@.entries, other@.entries), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq().len() == other.entries@.len(),
            forall|i: int| 0 <= i < other.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == other.entries@[i],
            self@ == (POFileV { entries: merge_in(old(self)@.entries, other@.entries.take(vx_it0.index@)), ..old(self)@ }),
//@@ loop 1
        invariant
            0 <= vx_i <= self.entries@.len(),
            forall|i: int| 0 <= i < vx_i ==> !same_id(#[trigger] self@.entries[i], other_entry@),
            vx_found ==> vx_i < self.entries@.len() && same_id(self@.entries[vx_i as int], other_entry@),
        decreases self.entries@.len() - vx_i + (if vx_found { 0int } else { 1 }),
//@@ loop 2
        invariant
            vx_it2.seq().len() == vx_m.len(),
            forall|i: int| 0 <= i < vx_m.len() ==> *(#[trigger] vx_it2.seq()[i]) == vx_m[i],
            forall|i: int| 0 <= i < vx_it2.index@ ==> (*final(#[trigger] vx_it2.seq()[i]))@ == retired(other@.entries, vx_m[i]@),
//@@ loop 3
        invariant
            vx_it3.seq().len() == other.entries@.len(),
            forall|i: int| 0 <= i < other.entries@.len() ==> *(#[trigger] vx_it3.seq()[i]) == other.entries@[i],
            vx_found2 ==> known_id(other@.entries, entry@),
            !vx_found2 ==> forall|j: int| 0 <= j < vx_it3.index@ ==> !same_id(#[trigger] other@.entries[j], entry@),
//@@ ghost before 0
    proof { assert(other@.entries.take(0) =~= Seq::<POEntryV>::empty()); }
//@@ ghost loop 0 start
    let ghost vx_s0 = self@.entries;
    proof {
        lemma_merge_in_step(old(self)@.entries, other@.entries, vx_it0.index@);
        assert(other@.entries[vx_it0.index@] == other_entry@);
    }
//@@ ghost after 1
    proof { lemma_id_pos(self@.entries, other_entry@, vx_i as int); }
//@@ ghost loop 0 end
    proof { assert(self@.entries =~= merge_one(vx_s0, other_entry@)); }
//@@ ghost after 0
    let ghost vx_m = self.entries@;
    proof { assert(other@.entries.take(other@.entries.len() as int) =~= other@.entries); }
//@@ ghost loop 3 start
    proof { assert(other@.entries[vx_it3.index@] == vx_x@); }
//@@ ghost end
    proof { assert(self@.entries =~= merge_spec(old(self)@.entries, other@.entries)); }
//@@ end
