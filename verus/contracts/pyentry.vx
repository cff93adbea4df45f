//@@ block py_po_from
//@@ fn python/src/pypoentry.rs From<&POEntry> for PyPOEntry::from
//@@ ret r
//@@ contract
    ensures r@ == entry@,
//@@ end

//@@ block py_po_inner
//@@ fn python/src/pypoentry.rs PyPOEntry::_inner
//@@ ret r
//@@ contract
    ensures r@ == self@,
//@@ end

//@@ block py_po_new
//@@ fn python/src/pypoentry.rs PyPOEntry::new
//@@ ret r
//@@ contract
    ensures r@ == (POEntryV { msgid: msgid@, msgstr: vx_opt(msgstr), msgid_plural: vx_opt(msgid_plural), msgstr_plural: vx_strs(msgstr_plural@),
        msgctxt: vx_opt(msgctxt), tcomment: vx_opt(tcomment), comment: vx_opt(comment), flags: vx_strs(flags@), ..po_fresh(0) }),
//@@ end

//@@ block py_po_get_msgid
//@@ fn python/src/pypoentry.rs PyPOEntry::msgid
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == self@.msgid,
//@@ end

//@@ block py_po_set_msgid
//@@ fn python/src/pypoentry.rs PyPOEntry::set_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { msgid: msgid@, ..old(self)@ }),
//@@ end

//@@ block py_po_get_msgstr
//@@ fn python/src/pypoentry.rs PyPOEntry::msgstr
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgstr,
//@@ end

//@@ block py_po_set_msgstr
//@@ fn python/src/pypoentry.rs PyPOEntry::set_msgstr
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { msgstr: vx_opt(msgstr), ..old(self)@ }),
//@@ end

//@@ block py_po_get_msgid_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgid_plural,
//@@ end

//@@ block py_po_set_msgid_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::set_msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { msgid_plural: vx_opt(msgid_plural), ..old(self)@ }),
//@@ end

//@@ block py_po_get_msgstr_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::get_msgstr_plural
//@@ ret r
//@@ contract
    ensures r is Ok, vx_strs((r->Ok_0)@) == self@.msgstr_plural,
//@@ end

//@@ block py_po_set_msgstr_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::set_msgstr_plural
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { msgstr_plural: vx_strs(msgstr_plural@), ..old(self)@ }),
//@@ end

//@@ block py_po_get_msgctxt
//@@ fn python/src/pypoentry.rs PyPOEntry::msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgctxt,
//@@ end

//@@ block py_po_set_msgctxt
//@@ fn python/src/pypoentry.rs PyPOEntry::set_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { msgctxt: vx_opt(msgctxt), ..old(self)@ }),
//@@ end

//@@ block py_po_get_obsolete
//@@ fn python/src/pypoentry.rs PyPOEntry::obsolete
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0) == self@.obsolete,
//@@ end

//@@ block py_po_set_obsolete
//@@ fn python/src/pypoentry.rs PyPOEntry::set_obsolete
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { obsolete: obsolete, ..old(self)@ }),
//@@ end

//@@ block py_po_get_comment
//@@ fn python/src/pypoentry.rs PyPOEntry::comment
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.comment,
//@@ end

//@@ block py_po_set_comment
//@@ fn python/src/pypoentry.rs PyPOEntry::set_comment
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { comment: vx_opt(comment), ..old(self)@ }),
//@@ end

//@@ block py_po_get_tcomment
//@@ fn python/src/pypoentry.rs PyPOEntry::tcomment
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.tcomment,
//@@ end

//@@ block py_po_set_tcomment
//@@ fn python/src/pypoentry.rs PyPOEntry::set_tcomment
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { tcomment: vx_opt(tcomment), ..old(self)@ }),
//@@ end

//@@ block py_po_get_occurrences
//@@ fn python/src/pypoentry.rs PyPOEntry::get_occurrences
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pairs((r->Ok_0)@) == self@.occurrences,
//@@ ghost start
    broadcast use axiom_pair_clone;
//@@ end

//@@ block py_po_set_occurrences
//@@ fn python/src/pypoentry.rs PyPOEntry::set_occurrences
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { occurrences: vx_pairs(occurrences@), ..old(self)@ }),
//@@ end

//@@ block py_po_get_flags
//@@ fn python/src/pypoentry.rs PyPOEntry::get_flags
//@@ ret r
//@@ contract
    ensures r is Ok, vx_strs((r->Ok_0)@) == self@.flags,
//@@ end

//@@ block py_po_set_flags
//@@ fn python/src/pypoentry.rs PyPOEntry::set_flags
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { flags: vx_strs(flags@), ..old(self)@ }),
//@@ end

//@@ block py_po_get_previous_msgid
//@@ fn python/src/pypoentry.rs PyPOEntry::previous_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.previous_msgid,
//@@ end

//@@ block py_po_set_previous_msgid
//@@ fn python/src/pypoentry.rs PyPOEntry::set_previous_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { previous_msgid: vx_opt(previous_msgid), ..old(self)@ }),
//@@ end

//@@ block py_po_get_previous_msgid_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::previous_msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.previous_msgid_plural,
//@@ end

//@@ block py_po_set_previous_msgid_plural
//@@ fn python/src/pypoentry.rs PyPOEntry::set_previous_msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { previous_msgid_plural: vx_opt(previous_msgid_plural), ..old(self)@ }),
//@@ end

//@@ block py_po_get_previous_msgctxt
//@@ fn python/src/pypoentry.rs PyPOEntry::previous_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.previous_msgctxt,
//@@ end

//@@ block py_po_set_previous_msgctxt
//@@ fn python/src/pypoentry.rs PyPOEntry::set_previous_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { previous_msgctxt: vx_opt(previous_msgctxt), ..old(self)@ }),
//@@ end

//@@ block py_po_get_linenum
//@@ fn python/src/pypoentry.rs PyPOEntry::linenum
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0) == self@.linenum,
//@@ end

//@@ block py_po_set_linenum
//@@ fn python/src/pypoentry.rs PyPOEntry::set_linenum
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POEntryV { linenum: linenum, ..old(self)@ }),
//@@ end

//@@ block py_po_fuzzy
//@@ fn python/src/pypoentry.rs PyPOEntry::fuzzy
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == is_fuzzy(self@),
//@@ end

//@@ block py_po_to_string_with
//@@ fn python/src/pypoentry.rs PyPOEntry::to_string_with_wrapwidth
//@@ ret r
//@@ contract
    ensures r is Ok, is_items(po_items(self@), wrapwidth as int, (r->Ok_0)@),
//@@ end

//@@ block py_po_eot
//@@ fn python/src/pypoentry.rs PyPOEntry::msgid_eot_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == eot_key(self@.msgctxt, self@.msgid),
//@@ end

//@@ block py_po_translated
//@@ fn python/src/pypoentry.rs PyPOEntry::translated
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == is_translated(self@),
//@@ end

//@@ block py_po_merge
//@@ fn python/src/pypoentry.rs PyPOEntry::merge
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == other@,
//@@ end

//@@ block py_po_str
//@@ fn python/src/pypoentry.rs PyPOEntry::__str__
//@@ ret r
//@@ contract
    ensures r is Ok, is_items(po_items(self@), 78, (r->Ok_0)@),
//@@ ghost start
    hide(is_items);
//@@ end

//@@ block py_po_eq
//@@ fn python/src/pypoentry.rs PyPOEntry::__eq__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) == Ordering::Equal),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_ne
//@@ fn python/src/pypoentry.rs PyPOEntry::__ne__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) != Ordering::Equal),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_gt
//@@ fn python/src/pypoentry.rs PyPOEntry::__gt__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) == Ordering::Greater),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_ge
//@@ fn python/src/pypoentry.rs PyPOEntry::__ge__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) != Ordering::Less),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_lt
//@@ fn python/src/pypoentry.rs PyPOEntry::__lt__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) == Ordering::Less),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_le
//@@ fn python/src/pypoentry.rs PyPOEntry::__le__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (po_cmp(self@, other@, all_fields(true)) != Ordering::Greater),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_cmp
//@@ fn python/src/pypoentry.rs PyPOEntry::__cmp__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == cmp_code(po_cmp(self@, other@, all_fields(true))),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_po_cmp_by
//@@ fn python/src/pypoentry.rs PyPOEntry::cmp_by
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == cmp_code(po_cmp(self@, other@, EntryCmpByOptions { by_msgid: msgid, by_msgstr: msgstr, by_msgctxt: msgctxt, by_obsolete: obsolete, by_msgid_plural: msgid_plural, by_msgstr_plural: msgstr_plural, by_occurrences: occurrences, by_flags: flags })),
//@@ ghost start
    hide(po_cmp);
    proof { lemma_field_names(); reveal_with_fuel(fields_of, 10); }
//@@ end

//@@ block py_mo_from
//@@ fn python/src/pymoentry.rs From<&MOEntry> for PyMOEntry::from
//@@ ret r
//@@ contract
    ensures r@ == entry@,
//@@ end

//@@ block py_mo_inner
//@@ fn python/src/pymoentry.rs PyMOEntry::_inner
//@@ ret r
//@@ contract
    ensures r@ == self@,
//@@ end

//@@ block py_mo_new
//@@ fn python/src/pymoentry.rs PyMOEntry::new
//@@ ret r
//@@ contract
    ensures r@ == (MOEntryV { msgid: msgid@, msgstr: vx_opt(msgstr), msgid_plural: vx_opt(msgid_plural), msgstr_plural: vx_strs(msgstr_plural@), msgctxt: vx_opt(msgctxt) }),
//@@ end

//@@ block py_mo_get_msgid
//@@ fn python/src/pymoentry.rs PyMOEntry::msgid
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == self@.msgid,
//@@ end

//@@ block py_mo_set_msgid
//@@ fn python/src/pymoentry.rs PyMOEntry::set_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOEntryV { msgid: msgid@, ..old(self)@ }),
//@@ end

//@@ block py_mo_get_msgstr
//@@ fn python/src/pymoentry.rs PyMOEntry::msgstr
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgstr,
//@@ end

//@@ block py_mo_set_msgstr
//@@ fn python/src/pymoentry.rs PyMOEntry::set_msgstr
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOEntryV { msgstr: vx_opt(msgstr), ..old(self)@ }),
//@@ end

//@@ block py_mo_get_msgid_plural
//@@ fn python/src/pymoentry.rs PyMOEntry::msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgid_plural,
//@@ end

//@@ block py_mo_set_msgid_plural
//@@ fn python/src/pymoentry.rs PyMOEntry::set_msgid_plural
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOEntryV { msgid_plural: vx_opt(msgid_plural), ..old(self)@ }),
//@@ end

//@@ block py_mo_get_msgstr_plural
//@@ fn python/src/pymoentry.rs PyMOEntry::get_msgstr_plural
//@@ ret r
//@@ contract
    ensures r is Ok, vx_strs((r->Ok_0)@) == self@.msgstr_plural,
//@@ end

//@@ block py_mo_set_msgstr_plural
//@@ fn python/src/pymoentry.rs PyMOEntry::set_msgstr_plural
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOEntryV { msgstr_plural: vx_strs(msgstr_plural@), ..old(self)@ }),
//@@ end

//@@ block py_mo_get_msgctxt
//@@ fn python/src/pymoentry.rs PyMOEntry::msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, vx_opt((r->Ok_0)) == self@.msgctxt,
//@@ end

//@@ block py_mo_set_msgctxt
//@@ fn python/src/pymoentry.rs PyMOEntry::set_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOEntryV { msgctxt: vx_opt(msgctxt), ..old(self)@ }),
//@@ end

//@@ block py_mo_to_string_with
//@@ fn python/src/pymoentry.rs PyMOEntry::to_string_with_wrapwidth
//@@ ret r
//@@ contract
    ensures r is Ok, is_items(mo_items(self@, Seq::empty()), wrapwidth as int, (r->Ok_0)@),
//@@ end

//@@ block py_mo_eot
//@@ fn python/src/pymoentry.rs PyMOEntry::msgid_eot_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == eot_key(self@.msgctxt, self@.msgid),
//@@ end

//@@ block py_mo_translated
//@@ fn python/src/pymoentry.rs PyMOEntry::translated
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == mo_translated(self@),
//@@ end

//@@ block py_mo_merge
//@@ fn python/src/pymoentry.rs PyMOEntry::merge
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == other@,
//@@ end

//@@ block py_mo_str
//@@ fn python/src/pymoentry.rs PyMOEntry::__str__
//@@ ret r
//@@ contract
    ensures r is Ok, is_items(mo_items(self@, Seq::empty()), 78, (r->Ok_0)@),
//@@ ghost start
    hide(is_items);
//@@ end

//@@ block py_mo_eq
//@@ fn python/src/pymoentry.rs PyMOEntry::__eq__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) == Ordering::Equal),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_ne
//@@ fn python/src/pymoentry.rs PyMOEntry::__ne__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) != Ordering::Equal),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_gt
//@@ fn python/src/pymoentry.rs PyMOEntry::__gt__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) == Ordering::Greater),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_ge
//@@ fn python/src/pymoentry.rs PyMOEntry::__ge__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) != Ordering::Less),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_lt
//@@ fn python/src/pymoentry.rs PyMOEntry::__lt__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) == Ordering::Less),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_le
//@@ fn python/src/pymoentry.rs PyMOEntry::__le__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (mo_cmp(self@, other@, all_fields(true)) != Ordering::Greater),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_cmp
//@@ fn python/src/pymoentry.rs PyMOEntry::__cmp__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == cmp_code(mo_cmp(self@, other@, all_fields(true))),
//@@ ghost start
    hide(po_cmp);
    hide(mo_cmp);
//@@ end

//@@ block py_mo_cmp_by
//@@ fn python/src/pymoentry.rs PyMOEntry::cmp_by
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == cmp_code(mo_cmp(self@, other@, EntryCmpByOptions { by_msgid: msgid, by_msgstr: msgstr, by_msgctxt: msgctxt, by_msgid_plural: msgid_plural, by_msgstr_plural: msgstr_plural, ..all_fields(false) })),
//@@ ghost start
    proof { lemma_field_names(); reveal_with_fuel(fields_of, 10); }
//@@ end
