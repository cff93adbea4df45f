//@@ block po_msgid_eot
//@@ fn rust/src/entry/poentry.rs MsgidEotMsgctxt for POEntry::msgid_eot_msgctxt
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == eot_key(self@.msgctxt, self@.msgid),
//@@ end

//@@ block mo_msgid_eot2
//@@ fn rust/src/entry/moentry.rs MsgidEotMsgctxt for MOEntry::msgid_eot_msgctxt
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == eot_key(self@.msgctxt, self@.msgid),
//@@ end

//@@ block mo_entry_translated
//@@ fn rust/src/entry/moentry.rs Translated for MOEntry::translated
//@@ opt flat
//@@ opt notail
//@@ ret r
//@@ contract
    ensures r == mo_translated(self@),
//@@ loop 0
        invariant
            self.msgstr is None,
            vx_it0.seq().len() == self.msgstr_plural@.len(),
            forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]) == self.msgstr_plural@[i],
            forall|i: int| 0 <= i < vx_it0.index@ ==> (#[trigger] self@.msgstr_plural[i]).len() == 0,
//@@ ghost loop 0 start
    proof { assert(self@.msgstr_plural[vx_it0.index@] == vx_it0.seq()[vx_it0.index@]@); }
//@@ end

//@@ block mo_entry_merge
//@@ fn rust/src/entry/moentry.rs Merge for MOEntry::merge
//@@ opt flat
//@@ opt notail
//@@ contract
    ensures final(self)@ == other@,
//@@ end
