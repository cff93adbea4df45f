//@@ block po_cmp_by
//@@ fn rust/src/entry/poentry.rs POEntry::cmp_by
//@@ opt ord
//@@ ret r
//@@ contract
    ensures r == po_cmp(self@, other@, *options),
//@@ ghost start
    hide(text_cmp);
    hide(seq_cmp);
    hide(pair_cmp);
    broadcast use group_cmp;
    proof { reveal_strlit("\0"); assert("\0"@ =~= seq!['\u{0}']); }
//@@ end

//@@ block mo_cmp_by
//@@ fn rust/src/entry/moentry.rs MOEntry::cmp_by
//@@ opt ord
//@@ ret r
//@@ contract
    ensures r == mo_cmp(self@, other@, *options),
//@@ ghost start
    hide(text_cmp);
    hide(seq_cmp);
    hide(pair_cmp);
    broadcast use group_cmp;
    proof { reveal_strlit("\0"); assert("\0"@ =~= seq!['\u{0}']); }
//@@ end

//@@ block cmp_new
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::new
//@@ ret r
//@@ contract
    ensures r == all_fields(true),
//@@ end

//@@ block cmp_by_all
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_all
//@@ ret r
//@@ contract
    ensures r == all_fields(by_all),
//@@ end

//@@ block cmp_default
//@@ fn rust/src/entry/mod.rs Default for EntryCmpByOptions::default
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r == all_fields(true),
//@@ end

//@@ block cmp_from
//@@ fn rust/src/entry/mod.rs From<&Vec<(String, bool)>> for EntryCmpByOptions::from
//@@ ret r
//@@ contract
    ensures r == fields_of(options@),
//@@ loop 0
        invariant
            vx_it0.seq().len() == options@.len(),
            forall|i: int| 0 <= i < options@.len() ==> *(#[trigger] vx_it0.seq()[i]) == options@[i],
            ret == fields_of(options@.take(vx_it0.index@)),
//@@ ghost start
    proof { lemma_field_names(); assert(options@.take(0) =~= Seq::<(String, bool)>::empty()); }
//@@ ghost loop 0 start
    proof {
        let k = vx_it0.index@;
        assert(options@.take(k + 1).drop_last() =~= options@.take(k));
        assert(options@.take(k + 1).last() == options@[k]);
        assert(*vx_it0.seq()[k] == options@[k]);
    }
//@@ ghost after 0
    proof { assert(options@.take(options@.len() as int) =~= options@); }
//@@ end

//@@ block cmp_by_msgid
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_msgid
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_msgid: by_msgid, ..self }),
//@@ end

//@@ block cmp_by_msgstr
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_msgstr
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_msgstr: by_msgstr, ..self }),
//@@ end

//@@ block cmp_by_msgctxt
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_msgctxt
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_msgctxt: by_msgctxt, ..self }),
//@@ end

//@@ block cmp_by_obsolete
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_obsolete
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_obsolete: by_obsolete, ..self }),
//@@ end

//@@ block cmp_by_occurrences
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_occurrences
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_occurrences: by_occurrences, ..self }),
//@@ end

//@@ block cmp_by_msgid_plural
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_msgid_plural
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_msgid_plural: by_msgid_plural, ..self }),
//@@ end

//@@ block cmp_by_msgstr_plural
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_msgstr_plural
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_msgstr_plural: by_msgstr_plural, ..self }),
//@@ end

//@@ block cmp_by_flags
//@@ fn rust/src/entry/mod.rs EntryCmpByOptions::by_flags
//@@ ret r
//@@ contract
    ensures r == (EntryCmpByOptions { by_flags: by_flags, ..self }),
//@@ end
