//@@ block eot_split
//@@ fn rust/src/entry/mod.rs maybe_msgid_msgctxt_eot_split
//@@ opt notail
//@@ ret r
//@@ contract
    ensures r@ == (match vx_opt(*msgctxt) { Some(c) => c.push('\u{4}') + msgid@, None => msgid@ }),
//@@ end

//@@ block mo_msgid_eot
//@@ fn rust/src/entry/moentry.rs MsgidEotMsgctxt for MOEntry::msgid_eot_msgctxt
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == mo_key(self@),
//@@ end

//@@ block mo_metadata_as_entry
//@@ fn rust/src/file/mofile.rs MOFile::metadata_as_entry
//@@ ret r
//@@ contract
    ensures is_meta_entry(self@.metadata, r@),
//@@ ghost start
    proof { reveal_strlit(""); }
//@@ end

//@@ block mo_as_bytes_with
//@@ fn rust/src/file/mofile.rs MOFile::as_bytes_with
//@@ opt isolate
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures is_mo_bytes(self@, magic_number == MAGIC_SWAPPED, revision_number, r@),
//@@ closure 0
|vx_a: &&MOEntry, vx_b: &&MOEntry| -> (vx_o: Ordering)
    ensures vx_o == by_key((*vx_a)@, (*vx_b)@),
---
Ghost(|vx_a: &MOEntry, vx_b: &MOEntry| by_key(vx_a@, vx_b@))
//@@ loop 0
        invariant
            vx_morefs(vx_it0.seq()) == vx_s,
            ids@ == cat(origs(vx_s).take(vx_it0.index@)),
            strs@ == cat(transs(vx_s).take(vx_it0.index@)),
            offsets@.len() == vx_it0.index@,
            forall|i: int| 0 <= i < offsets@.len() ==> (#[trigger] offsets@[i]).0 == blen(cat(origs(vx_s).take(i)))
                && offsets@[i].1 == blen(origs(vx_s)[i])
                && offsets@[i].2 == blen(cat(transs(vx_s).take(i)))
                && offsets@[i].3 == blen(transs(vx_s)[i]),
//@@ loop 1
        invariant
            vx_n == vx_it1.index@,
            msgstr_plural_length == e.msgstr_plural@.len(),
            vx_it1.seq().len() == e.msgstr_plural@.len(),
            forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i])@ == e.msgstr_plural@[i]@,
            msgstr@ == join(e@.msgstr_plural.take(vx_n as int), seq!['\u{0}'])
                + (if 0 < vx_n < e.msgstr_plural@.len() { seq!['\u{0}'] } else { Seq::empty() }),
//@@ loop 2
        invariant
            vx_it2.seq().len() == vx_s.len(),
            forall|i: int| 0 <= i < vx_s.len() ==> (#[trigger] vx_it2.seq()[i]).0 == blen(cat(origs(vx_s).take(i)))
                && vx_it2.seq()[i].1 == blen(origs(vx_s)[i])
                && vx_it2.seq()[i].2 == blen(cat(transs(vx_s).take(i)))
                && vx_it2.seq()[i].3 == blen(transs(vx_s)[i]),
            keystart == key_start(vx_s),
            valuestart == value_start(vx_s),
            value_start(vx_s) + blen(cat(transs(vx_s))) <= u32::MAX,
            koffsets@.len() == vx_it2.index@,
            voffsets@.len() == vx_it2.index@,
            forall|i: int| 0 <= i < koffsets@.len() ==> (#[trigger] koffsets@[i]).0 == blen(origs(vx_s)[i])
                && koffsets@[i].1 == key_start(vx_s) + blen(cat(origs(vx_s).take(i))),
            forall|i: int| 0 <= i < voffsets@.len() ==> (#[trigger] voffsets@[i]).0 == blen(transs(vx_s)[i])
                && voffsets@[i].1 == value_start(vx_s) + blen(cat(transs(vx_s).take(i))),
//@@ loop 3
        invariant
            vx_it3.seq().len() == vx_s.len(),
            forall|i: int| 0 <= i < vx_s.len() ==> (#[trigger] vx_it3.seq()[i]).0 == blen(origs(vx_s)[i])
                && vx_it3.seq()[i].1 == key_start(vx_s) + blen(cat(origs(vx_s).take(i))),
            vx_be == (vx_dyn_bytes_reader == 0),
            final_offsets@ == tab(vx_be, origs(vx_s), key_start(vx_s), vx_it3.index@),
//@@ loop 4
        invariant
            vx_it4.seq().len() == vx_s.len(),
            forall|i: int| 0 <= i < vx_s.len() ==> (#[trigger] vx_it4.seq()[i]).0 == blen(transs(vx_s)[i])
                && vx_it4.seq()[i].1 == value_start(vx_s) + blen(cat(transs(vx_s).take(i))),
            vx_be == (vx_dyn_bytes_reader == 0),
            final_offsets@ == tab(vx_be, origs(vx_s), key_start(vx_s), vx_s.len() as int)
                + tab(vx_be, transs(vx_s), value_start(vx_s), vx_it4.index@),
//@@ ghost start
    proof { lemma_by_key(); }
//@@ ghost pre vx_sort_by
    let ghost vx_l = entries@;
    proof { assert(vx_morefs(vx_l) =~= seq![metadata_entry@] + self@.entries); }
//@@ ghost before 0
    let ghost vx_be = magic_number == MAGIC_SWAPPED;
    let ghost vx_s = vx_morefs(entries@);
    proof {
        lemma_written(self@, &metadata_entry, vx_l, entries@);
        lemma_mo_size(vx_s);
        assert(origs(vx_s).take(0) =~= Seq::<Seq<char>>::empty());
        assert(transs(vx_s).take(0) =~= Seq::<Seq<char>>::empty());
        reveal_strlit("");
    }
//@@ ghost loop 0 start
    let ghost vx_k = vx_it0.index@;
    proof {
        assert(vx_morefs(vx_it0.seq())[vx_k] == e@);
        lemma_cat_step(origs(vx_s), vx_k);
        lemma_cat_step(transs(vx_s), vx_k);
        reveal_strlit("");
        assert(e@.msgstr_plural.take(0) =~= Seq::<Seq<char>>::empty());
    }
//@@ ghost loop 1 start
    proof {
        let t = e@.msgstr_plural;
        let k = vx_it1.index@;
        assert(t.take(k + 1) =~= t.take(k).push(t[k]));
        lemma_join_push(t.take(k), t[k], seq!['\u{0}']);
        assert(v@ == t[k]);
    }
//@@ ghost loop 1 end
    proof {
        assert(msgstr@ =~= join(e@.msgstr_plural.take(vx_n as int), seq!['\u{0}'])
                + (if 0 < vx_n < e.msgstr_plural@.len() { seq!['\u{0}'] } else { Seq::empty() }));
    }
//@@ ghost after 1
    proof { assert(e@.msgstr_plural.take(e@.msgstr_plural.len() as int) =~= e@.msgstr_plural); }
//@@ ghost loop 0 end
    proof {
        assert(msgid@ =~= orig(e@));
        assert(msgstr@ =~= trans(e@));
        assert(ids@ =~= cat(origs(vx_s).take(vx_k + 1)));
        assert(strs@ =~= cat(transs(vx_s).take(vx_k + 1)));
    }
//@@ ghost after 0
    proof {
        assert(origs(vx_s).take(vx_s.len() as int) =~= origs(vx_s));
        assert(transs(vx_s).take(vx_s.len() as int) =~= transs(vx_s));
    }
//@@ ghost loop 2 start
    proof {
        lemma_cat_mono(origs(vx_s), vx_it2.index@, vx_s.len() as int);
        lemma_cat_mono(transs(vx_s), vx_it2.index@, vx_s.len() as int);
        assert(origs(vx_s).take(vx_s.len() as int) =~= origs(vx_s));
        assert(transs(vx_s).take(vx_s.len() as int) =~= transs(vx_s));
    }
//@@ ghost tail
    proof { assert(output@ == layout(vx_be, revision_number, vx_s)); }
//@@ end

//@@ block mo_as_bytes
//@@ fn rust/src/file/mofile.rs AsBytes for MOFile::as_bytes
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures is_mo_bytes(self@, false, 0, r@),
//@@ ghost start
    proof { assert(MAGIC != MAGIC_SWAPPED) by (compute); }
//@@ end

//@@ block mo_as_bytes_le
//@@ fn rust/src/file/mofile.rs AsBytes for MOFile::as_bytes_le
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures is_mo_bytes(self@, false, 0, r@),
//@@ ghost start
    proof { assert(MAGIC != MAGIC_SWAPPED) by (compute); }
//@@ end

//@@ block mo_as_bytes_be
//@@ fn rust/src/file/mofile.rs AsBytes for MOFile::as_bytes_be
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures is_mo_bytes(self@, true, 0, r@),
//@@ end
