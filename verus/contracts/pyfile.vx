//@@ block py_pof_get_entries
//@@ fn python/src/pypofile.rs PyPOFile::get_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == self@.entries,
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.0.entries@.len(),
            forall|i: int| 0 <= i < self.0.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.0.entries@[i],
            vx_pypos(entries@) == (self@.entries).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (self@.entries).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((self@.entries)[vx_it0.index@])); assert((self@.entries).take(vx_it0.index@ + 1) =~= (self@.entries).take(vx_it0.index@).push((self@.entries)[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((self@.entries).take((self@.entries).len() as int) =~= self@.entries); }
//@@ end

//@@ block py_pof_set_entries
//@@ fn python/src/pypofile.rs PyPOFile::set_entries
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { entries: vx_pypos(entries@), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == vx_in,
            vx_poentries(vx_out@) == vx_pypos(vx_in).take(vx_it0.index@),
//@@ ghost start
    let ghost vx_in = entries@;
//@@ ghost before 0
    proof { assert(vx_poentries(vx_out@) =~= vx_pypos(vx_in).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = vx_out@;
//@@ ghost loop 0 end
    proof { assert(vx_poentries(vx_out@) =~= vx_poentries(vx_e0).push(vx_pypos(vx_in)[vx_it0.index@])); assert(vx_pypos(vx_in).take(vx_it0.index@ + 1) =~= vx_pypos(vx_in).take(vx_it0.index@).push(vx_pypos(vx_in)[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert(vx_pypos(vx_in).take(vx_in.len() as int) =~= vx_pypos(vx_in)); }
//@@ end

//@@ block py_pof_header
//@@ fn python/src/pypofile.rs PyPOFile::header
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == otext(self@.header),
//@@ ghost start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end

//@@ block py_pof_set_header
//@@ fn python/src/pypofile.rs PyPOFile::set_header
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { header: vx_opt(header), ..old(self)@ }),
//@@ end

//@@ block py_pof_metadata_is_fuzzy
//@@ fn python/src/pypofile.rs PyPOFile::metadata_is_fuzzy
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == self@.metadata_is_fuzzy,
//@@ end

//@@ block py_pof_set_metadata_is_fuzzy
//@@ fn python/src/pypofile.rs PyPOFile::set_metadata_is_fuzzy
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { metadata_is_fuzzy: metadata_is_fuzzy, ..old(self)@ }),
//@@ end

//@@ block py_pof_get_metadata
//@@ fn python/src/pypofile.rs PyPOFile::get_metadata
//@@ ret r
//@@ contract
    ensures r is Ok, vx_map(r->Ok_0) == self@.metadata,
//@@ end

//@@ block py_pof_set_metadata
//@@ fn python/src/pypofile.rs PyPOFile::set_metadata
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { metadata: vx_map(metadata), ..old(self)@ }),
//@@ end

//@@ block py_pof_update_metadata
//@@ fn python/src/pypofile.rs PyPOFile::update_metadata
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { metadata: old(self)@.metadata.union_prefer_right(vx_map(metadata)), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == vx_m@,
            self@ == (POFileV { metadata: self@.metadata, ..vx_s0 }),
            self@.metadata == put_pairs(vx_s0.metadata, vx_pairs(vx_m@).take(vx_it0.index@)),
//@@ ghost before 0
    let ghost vx_s0 = self@;
//@@ ghost loop 0 end
    proof { lemma_put_step(vx_s0.metadata, vx_pairs(vx_m@), vx_it0.index@); }
//@@ ghost after 0
    proof { assert(vx_pairs(vx_m@).take(vx_m@.len() as int) =~= vx_pairs(vx_m@)); lemma_put_all(vx_s0.metadata, vx_m@, vx_map(metadata)); }
//@@ end

//@@ block py_pof_remove_metadata_field
//@@ fn python/src/pypofile.rs PyPOFile::remove_metadata_field
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { metadata: old(self)@.metadata.remove(key@), ..old(self)@ }),
//@@ end

//@@ block py_pof_path_or_content
//@@ fn python/src/pypofile.rs PyPOFile::path_or_content
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == self@.options.path_or_content,
//@@ end

//@@ block py_pof_wrapwidth
//@@ fn python/src/pypofile.rs PyPOFile::wrapwidth
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == self@.options.wrapwidth,
//@@ end

//@@ block py_pof_set_wrapwidth
//@@ fn python/src/pypofile.rs PyPOFile::set_wrapwidth
//@@ opt notail
//@@ contract
    ensures final(self)@ == (POFileV { options: FileOptionsV { wrapwidth: wrapwidth, ..old(self)@.options }, ..old(self)@ }),
//@@ end

//@@ block py_pof_byte_content
//@@ fn python/src/pypofile.rs PyPOFile::bytes_content
//@@ ret r
//@@ contract
    ensures r is Ok, vx_optbytes(r->Ok_0) == self@.options.byte_content,
//@@ end

//@@ block py_pof_save
//@@ fn python/src/pypofile.rs PyPOFile::save
//@@ ret r
//@@ contract
    requires can_create(path@),
    ensures r is Ok, saved_text(self@, path@),
//@@ end

//@@ block py_pof_save_as_pofile
//@@ fn python/src/pypofile.rs PyPOFile::save_as_pofile
//@@ ret r
//@@ contract
    requires can_create(path@),
    ensures r is Ok, saved_text(self@, path@),
//@@ end

//@@ block py_pof_save_as_mofile
//@@ fn python/src/pypofile.rs PyPOFile::save_as_mofile
//@@ ret r
//@@ contract
    requires can_create(path@), mo_fits(compiled(self@)),
    ensures r is Ok, saved_mo(compiled(self@), path@),
//@@ end

//@@ block py_pof_remove
//@@ fn python/src/pypofile.rs PyPOFile::remove
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POFileV { entries: keep(old(self)@.entries, not_entry(entry@)), ..old(self)@ }),
//@@ end

//@@ block py_pof_remove_by_msgid
//@@ fn python/src/pypofile.rs PyPOFile::remove_by_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POFileV { entries: keep(old(self)@.entries, |e: POEntryV| e.msgid != msgid@), ..old(self)@ }),
//@@ end

//@@ block py_pof_remove_by_msgid_msgctxt
//@@ fn python/src/pypofile.rs PyPOFile::remove_by_msgid_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POFileV { entries: keep(old(self)@.entries, |e: POEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)), ..old(self)@ }),
//@@ end

//@@ block py_pof_append
//@@ fn python/src/pypofile.rs PyPOFile::append
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (POFileV { entries: old(self)@.entries.push(entry@), ..old(self)@ }),
//@@ ghost tail
    proof { assert(self@.entries =~= old(self)@.entries.push(entry@)); }
//@@ end

//@@ block py_pof_find
//@@ fn python/src/pypofile.rs PyPOFile::find
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)),
//@@ loop 0
        invariant
            vx_porefs(vx_it0.seq()) == keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)),
            vx_pypos(entries@) == (keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)))[vx_it0.index@])); assert((keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).take(vx_it0.index@).push((keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries)))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).take((keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))).len() as int) =~= keep(self@.entries, |e: POEntryV| hit(e, value@, by@, vx_optref(msgctxt), include_obsolete_entries))); }
//@@ end

//@@ block py_pof_find_by_msgid
//@@ fn python/src/pypofile.rs PyPOFile::find_by_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, first(self@.entries, |e: POEntryV| e.msgid == msgid@) == (match r->Ok_0 { Some(e) => Some(e@), None => None }),
//@@ end

//@@ block py_pof_find_by_msgid_msgctxt
//@@ fn python/src/pypofile.rs PyPOFile::find_by_msgid_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, first(self@.entries, |e: POEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == (match r->Ok_0 { Some(e) => Some(e@), None => None }),
//@@ end

//@@ block py_pof_percent
//@@ fn python/src/pypofile.rs PyPOFile::percent_translated
//@@ opt float
//@@ ret r
//@@ contract
    ensures r is Ok,
        self@.entries.len() == 0 ==> r->Ok_0 == 0.0f32,
        self@.entries.len() > 0 ==> r->Ok_0 == f32_mul(f32_div(f32_of(keep(self@.entries, |e: POEntryV| is_translated(e)).len() as int),
            f32_of(self@.entries.len() as int)), 100.0f32),
//@@ end

//@@ block py_pof_translated
//@@ fn python/src/pypofile.rs PyPOFile::translated_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == keep(self@.entries, |e: POEntryV| is_translated(e)),
//@@ loop 0
        invariant
            vx_porefs(vx_it0.seq()) == keep(self@.entries, |e: POEntryV| is_translated(e)),
            vx_pypos(entries@) == (keep(self@.entries, |e: POEntryV| is_translated(e))).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (keep(self@.entries, |e: POEntryV| is_translated(e))).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((keep(self@.entries, |e: POEntryV| is_translated(e)))[vx_it0.index@])); assert((keep(self@.entries, |e: POEntryV| is_translated(e))).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: POEntryV| is_translated(e))).take(vx_it0.index@).push((keep(self@.entries, |e: POEntryV| is_translated(e)))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: POEntryV| is_translated(e))).take((keep(self@.entries, |e: POEntryV| is_translated(e))).len() as int) =~= keep(self@.entries, |e: POEntryV| is_translated(e))); }
//@@ end

//@@ block py_pof_untranslated
//@@ fn python/src/pypofile.rs PyPOFile::untranslated_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == keep(self@.entries, |e: POEntryV| !is_translated(e)),
//@@ loop 0
        invariant
            vx_porefs(vx_it0.seq()) == keep(self@.entries, |e: POEntryV| !is_translated(e)),
            vx_pypos(entries@) == (keep(self@.entries, |e: POEntryV| !is_translated(e))).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (keep(self@.entries, |e: POEntryV| !is_translated(e))).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((keep(self@.entries, |e: POEntryV| !is_translated(e)))[vx_it0.index@])); assert((keep(self@.entries, |e: POEntryV| !is_translated(e))).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: POEntryV| !is_translated(e))).take(vx_it0.index@).push((keep(self@.entries, |e: POEntryV| !is_translated(e)))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: POEntryV| !is_translated(e))).take((keep(self@.entries, |e: POEntryV| !is_translated(e))).len() as int) =~= keep(self@.entries, |e: POEntryV| !is_translated(e))); }
//@@ end

//@@ block py_pof_obsolete
//@@ fn python/src/pypofile.rs PyPOFile::obsolete_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == keep(self@.entries, |e: POEntryV| e.obsolete),
//@@ loop 0
        invariant
            vx_porefs(vx_it0.seq()) == keep(self@.entries, |e: POEntryV| e.obsolete),
            vx_pypos(entries@) == (keep(self@.entries, |e: POEntryV| e.obsolete)).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (keep(self@.entries, |e: POEntryV| e.obsolete)).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((keep(self@.entries, |e: POEntryV| e.obsolete))[vx_it0.index@])); assert((keep(self@.entries, |e: POEntryV| e.obsolete)).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: POEntryV| e.obsolete)).take(vx_it0.index@).push((keep(self@.entries, |e: POEntryV| e.obsolete))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: POEntryV| e.obsolete)).take((keep(self@.entries, |e: POEntryV| e.obsolete)).len() as int) =~= keep(self@.entries, |e: POEntryV| e.obsolete)); }
//@@ end

//@@ block py_pof_fuzzy
//@@ fn python/src/pypofile.rs PyPOFile::fuzzy_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pypos((r->Ok_0)@) == keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete),
//@@ loop 0
        invariant
            vx_porefs(vx_it0.seq()) == keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete),
            vx_pypos(entries@) == (keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pypos(entries@) =~= (keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pypos(entries@) =~= vx_pypos(vx_e0).push((keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete))[vx_it0.index@])); assert((keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).take(vx_it0.index@).push((keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).take((keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)).len() as int) =~= keep(self@.entries, |e: POEntryV| is_fuzzy(e) && !e.obsolete)); }
//@@ end

//@@ block py_pof_metadata_as_entry
//@@ fn python/src/pypofile.rs PyPOFile::metadata_as_entry
//@@ ret r
//@@ contract
    ensures r is Ok, is_file_head(self@, (r->Ok_0)@),
//@@ end

//@@ block py_pof_as_bytes_with
//@@ fn python/src/pypofile.rs PyPOFile::as_bytes_with
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures r is Ok, is_mo_bytes(compiled(self@), magic_number == MAGIC_SWAPPED, revision_number, (r->Ok_0)@),
//@@ end

//@@ block py_pof_as_bytes
//@@ fn python/src/pypofile.rs PyPOFile::as_bytes
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures r is Ok, is_mo_bytes(compiled(self@), false, 0, (r->Ok_0)@),
//@@ end

//@@ block py_pof_as_bytes_le
//@@ fn python/src/pypofile.rs PyPOFile::as_bytes_le
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures r is Ok, is_mo_bytes(compiled(self@), false, 0, (r->Ok_0)@),
//@@ end

//@@ block py_pof_as_bytes_be
//@@ fn python/src/pypofile.rs PyPOFile::as_bytes_be
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures r is Ok, is_mo_bytes(compiled(self@), true, 0, (r->Ok_0)@),
//@@ end

//@@ block py_pof_len
//@@ fn python/src/pypofile.rs PyPOFile::__len__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == self@.entries.len(),
//@@ end

//@@ block py_pof_contains
//@@ fn python/src/pypofile.rs PyPOFile::__contains__
//@@ ret r
//@@ contract
    ensures r is Ok,
        r->Ok_0 == (match entry@.msgctxt {
            Some(c) => first(self@.entries, |e: POEntryV| e.msgid == entry@.msgid && otext(e.msgctxt) == c) is Some,
            None => first(self@.entries, |e: POEntryV| e.msgid == entry@.msgid) is Some,
        }),
//@@ end

//@@ block py_pof_getitem
//@@ fn python/src/pypofile.rs PyPOFile::__getitem__
//@@ ret r
//@@ contract
    ensures
        index < self@.entries.len() ==> r is Ok && (r->Ok_0)@ == self@.entries[index as int],
        index >= self@.entries.len() ==> r is Err && (r->Err_0).kind == VxExc::PyIndexError,
//@@ end

//@@ block py_pof_str
//@@ fn python/src/pypofile.rs PyPOFile::__str__
//@@ ret r
//@@ contract
    ensures r is Ok, is_file_text(self@, (r->Ok_0)@),
//@@ ghost start
    hide(is_file_text);
//@@ end

//@@ block py_pof_eq
//@@ fn python/src/pypofile.rs PyPOFile::__eq__
//@@ ret r
//@@ contract
    ensures r is Ok, exists|a: Seq<char>, b: Seq<char>| #[trigger] texts_of(self@, other@, a, b) && r->Ok_0 == (a == b),
//@@ ghost start
    hide(is_file_text);
    proof { lemma_texts(self@, other@); }
//@@ end

//@@ block py_pof_ne
//@@ fn python/src/pypofile.rs PyPOFile::__ne__
//@@ ret r
//@@ contract
    ensures r is Ok, exists|a: Seq<char>, b: Seq<char>| #[trigger] texts_of(self@, other@, a, b) && r->Ok_0 == (a != b),
//@@ ghost start
    hide(is_file_text);
    proof { lemma_texts(self@, other@); }
//@@ end

//@@ block py_mof_get_entries
//@@ fn python/src/pymofile.rs PyMOFile::get_entries
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pymos((r->Ok_0)@) == self@.entries,
//@@ loop 0
        invariant
            vx_it0.seq().len() == self.0.entries@.len(),
            forall|i: int| 0 <= i < self.0.entries@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.0.entries@[i],
            vx_pymos(entries@) == (self@.entries).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pymos(entries@) =~= (self@.entries).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pymos(entries@) =~= vx_pymos(vx_e0).push((self@.entries)[vx_it0.index@])); assert((self@.entries).take(vx_it0.index@ + 1) =~= (self@.entries).take(vx_it0.index@).push((self@.entries)[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((self@.entries).take((self@.entries).len() as int) =~= self@.entries); }
//@@ end

//@@ block py_mof_set_entries
//@@ fn python/src/pymofile.rs PyMOFile::set_entries
//@@ opt notail
//@@ contract
    ensures final(self)@ == (MOFileV { entries: vx_pymos(entries@), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == vx_in,
            vx_moentries(new_entries@) == vx_pymos(vx_in).take(vx_it0.index@),
//@@ ghost before 0
    let ghost vx_in = entries@;
    proof { assert(vx_moentries(new_entries@) =~= vx_pymos(vx_in).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = new_entries@;
//@@ ghost loop 0 end
    proof { assert(vx_moentries(new_entries@) =~= vx_moentries(vx_e0).push(vx_pymos(vx_in)[vx_it0.index@])); assert(vx_pymos(vx_in).take(vx_it0.index@ + 1) =~= vx_pymos(vx_in).take(vx_it0.index@).push(vx_pymos(vx_in)[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert(vx_pymos(vx_in).take(vx_in.len() as int) =~= vx_pymos(vx_in)); }
//@@ end

//@@ block py_mof_MAGIC
//@@ fn python/src/pymofile.rs PyMOFile::MAGIC
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == MAGIC,
//@@ end

//@@ block py_mof_MAGIC_SWAPPED
//@@ fn python/src/pymofile.rs PyMOFile::MAGIC_SWAPPED
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == MAGIC_SWAPPED,
//@@ end

//@@ block py_mof_magic_number
//@@ fn python/src/pymofile.rs PyMOFile::magic_number
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (match self@.magic_number { Some(n) => n, None => MAGIC }),
//@@ end

//@@ block py_mof_version
//@@ fn python/src/pymofile.rs PyMOFile::version
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == (match self@.version { Some(n) => n, None => 0 }),
//@@ end

//@@ block py_mof_get_metadata
//@@ fn python/src/pymofile.rs PyMOFile::get_metadata
//@@ ret r
//@@ contract
    ensures r is Ok, vx_map(r->Ok_0) == self@.metadata,
//@@ end

//@@ block py_mof_set_metadata
//@@ fn python/src/pymofile.rs PyMOFile::set_metadata
//@@ opt notail
//@@ contract
    ensures final(self)@ == (MOFileV { metadata: vx_map(metadata), ..old(self)@ }),
//@@ end

//@@ block py_mof_update_metadata
//@@ fn python/src/pymofile.rs PyMOFile::update_metadata
//@@ opt notail
//@@ contract
    ensures final(self)@ == (MOFileV { metadata: old(self)@.metadata.union_prefer_right(vx_map(metadata)), ..old(self)@ }),
//@@ loop 0
        invariant
            vx_it0.seq() == vx_m@,
            self@ == (MOFileV { metadata: self@.metadata, ..vx_s0 }),
            self@.metadata == put_pairs(vx_s0.metadata, vx_pairs(vx_m@).take(vx_it0.index@)),
//@@ ghost before 0
    let ghost vx_s0 = self@;
//@@ ghost loop 0 end
    proof { lemma_put_step(vx_s0.metadata, vx_pairs(vx_m@), vx_it0.index@); }
//@@ ghost after 0
    proof { assert(vx_pairs(vx_m@).take(vx_m@.len() as int) =~= vx_pairs(vx_m@)); lemma_put_all(vx_s0.metadata, vx_m@, vx_map(metadata)); }
//@@ end

//@@ block py_mof_remove_metadata_field
//@@ fn python/src/pymofile.rs PyMOFile::remove_metadata_field
//@@ opt notail
//@@ contract
    ensures final(self)@ == (MOFileV { metadata: old(self)@.metadata.remove(key@), ..old(self)@ }),
//@@ end

//@@ block py_mof_path_or_content
//@@ fn python/src/pymofile.rs PyMOFile::path_or_content
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == self@.options.path_or_content,
//@@ end

//@@ block py_mof_wrapwidth
//@@ fn python/src/pymofile.rs PyMOFile::wrapwidth
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == self@.options.wrapwidth,
//@@ end

//@@ block py_mof_set_wrapwidth
//@@ fn python/src/pymofile.rs PyMOFile::set_wrapwidth
//@@ opt notail
//@@ contract
    ensures final(self)@ == (MOFileV { options: FileOptionsV { wrapwidth: wrapwidth, ..old(self)@.options }, ..old(self)@ }),
//@@ end

//@@ block py_mof_byte_content
//@@ fn python/src/pymofile.rs PyMOFile::byte_content
//@@ ret r
//@@ contract
    ensures r is Ok, vx_optbytes(r->Ok_0) == self@.options.byte_content,
//@@ end

//@@ block py_mof_save
//@@ fn python/src/pymofile.rs PyMOFile::save
//@@ ret r
//@@ contract
    requires can_create(path@), mo_fits(self@),
    ensures r is Ok, saved_mo(self@, path@),
//@@ end

//@@ block py_mof_save_as_pofile
//@@ fn python/src/pymofile.rs PyMOFile::save_as_pofile
//@@ ret r
//@@ contract
    requires can_create(path@),
    ensures r is Ok, saved_mo_text(self@, path@),
//@@ end

//@@ block py_mof_save_as_mofile
//@@ fn python/src/pymofile.rs PyMOFile::save_as_mofile
//@@ ret r
//@@ contract
    requires can_create(path@), mo_fits(self@),
    ensures r is Ok, saved_mo(self@, path@),
//@@ end

//@@ block py_mof_remove
//@@ fn python/src/pymofile.rs PyMOFile::remove
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| e != entry@), ..old(self)@ }),
//@@ end

//@@ block py_mof_remove_by_msgid
//@@ fn python/src/pymofile.rs PyMOFile::remove_by_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| e.msgid != msgid@), ..old(self)@ }),
//@@ end

//@@ block py_mof_remove_by_msgid_msgctxt
//@@ fn python/src/pymofile.rs PyMOFile::remove_by_msgid_msgctxt
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOFileV { entries: keep(old(self)@.entries, |e: MOEntryV| !(e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@)), ..old(self)@ }),
//@@ end

//@@ block py_mof_append
//@@ fn python/src/pymofile.rs PyMOFile::append
//@@ ret r
//@@ contract
    ensures r is Ok, final(self)@ == (MOFileV { entries: old(self)@.entries.push(entry@), ..old(self)@ }),
//@@ ghost tail
    proof { assert(self@.entries =~= old(self)@.entries.push(entry@)); }
//@@ end

//@@ block py_mof_find
//@@ fn python/src/pymofile.rs PyMOFile::find
//@@ ret r
//@@ contract
    ensures r is Ok, vx_pymos((r->Ok_0)@) == keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))),
//@@ loop 0
        invariant
            vx_morefs(vx_it0.seq()) == keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))),
            vx_pymos(entries@) == (keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).take(vx_it0.index@),
//@@ ghost before 0
    proof { assert(vx_pymos(entries@) =~= (keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_e0 = entries@;
//@@ ghost loop 0 end
    proof { assert(vx_pymos(entries@) =~= vx_pymos(vx_e0).push((keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))))[vx_it0.index@])); assert((keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).take(vx_it0.index@ + 1) =~= (keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).take(vx_it0.index@).push((keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt))))[vx_it0.index@])); }
//@@ ghost after 0
    proof { assert((keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).take((keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))).len() as int) =~= keep(self@.entries, |e: MOEntryV| hit(e, value@, by@, vx_optref(msgctxt)))); }
//@@ end

//@@ block py_mof_find_by_msgid
//@@ fn python/src/pymofile.rs PyMOFile::find_by_msgid
//@@ ret r
//@@ contract
    ensures r is Ok, first(self@.entries, |e: MOEntryV| e.msgid == msgid@) == (match r->Ok_0 { Some(e) => Some(e@), None => None }),
//@@ end

//@@ block py_mof_find_by_msgid_msgctxt
//@@ fn python/src/pymofile.rs PyMOFile::find_by_msgid_msgctxt
//@@ ret r
//@@ contract
    requires msgctxt@.len() > 0,
    ensures r is Ok, first(self@.entries, |e: MOEntryV| e.msgid == msgid@ && otext(e.msgctxt) == msgctxt@) == (match r->Ok_0 { Some(e) => Some(e@), None => None }),
//@@ end

//@@ block py_mof_metadata_as_entry
//@@ fn python/src/pymofile.rs PyMOFile::metadata_as_entry
//@@ ret r
//@@ contract
    ensures r is Ok, is_meta_entry(self@.metadata, (r->Ok_0)@),
//@@ end

//@@ block py_mof_as_bytes_with
//@@ fn python/src/pymofile.rs PyMOFile::as_bytes_with
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures r is Ok, is_mo_bytes(self@, magic_number == MAGIC_SWAPPED, revision_number, (r->Ok_0)@),
//@@ end

//@@ block py_mof_as_bytes
//@@ fn python/src/pymofile.rs PyMOFile::as_bytes
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures r is Ok, is_mo_bytes(self@, false, 0, (r->Ok_0)@),
//@@ end

//@@ block py_mof_as_bytes_le
//@@ fn python/src/pymofile.rs PyMOFile::as_bytes_le
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures r is Ok, is_mo_bytes(self@, false, 0, (r->Ok_0)@),
//@@ end

//@@ block py_mof_as_bytes_be
//@@ fn python/src/pymofile.rs PyMOFile::as_bytes_be
//@@ ret r
//@@ contract
    requires mo_fits(self@),
    ensures r is Ok, is_mo_bytes(self@, true, 0, (r->Ok_0)@),
//@@ end

//@@ block py_mof_len
//@@ fn python/src/pymofile.rs PyMOFile::__len__
//@@ ret r
//@@ contract
    ensures r is Ok, r->Ok_0 == self@.entries.len(),
//@@ end

//@@ block py_mof_contains
//@@ fn python/src/pymofile.rs PyMOFile::__contains__
//@@ ret r
//@@ contract
    requires entry@.msgctxt is Some ==> entry@.msgctxt->0.len() > 0,
    ensures r is Ok,
        r->Ok_0 == (match entry@.msgctxt {
            Some(c) => first(self@.entries, |e: MOEntryV| e.msgid == entry@.msgid && otext(e.msgctxt) == c) is Some,
            None => first(self@.entries, |e: MOEntryV| e.msgid == entry@.msgid) is Some,
        }),
//@@ end

//@@ block py_mof_getitem
//@@ fn python/src/pymofile.rs PyMOFile::__getitem__
//@@ ret r
//@@ contract
    ensures
        index < self@.entries.len() ==> r is Ok && (r->Ok_0)@ == self@.entries[index as int],
        index >= self@.entries.len() ==> r is Err && (r->Err_0).kind == VxExc::PyIndexError,
//@@ end

//@@ block py_mof_str
//@@ fn python/src/pymofile.rs PyMOFile::__str__
//@@ ret r
//@@ contract
    ensures r is Ok, is_mo_text(self@, (r->Ok_0)@),
//@@ ghost start
    hide(is_mo_text);
//@@ end

//@@ block py_mof_eq
//@@ fn python/src/pymofile.rs PyMOFile::__eq__
//@@ ret r
//@@ contract
    ensures r is Ok, exists|a: Seq<char>, b: Seq<char>| #[trigger] texts_of(self@, other@, a, b) && r->Ok_0 == (a == b),
//@@ ghost start
    hide(is_mo_text);
    proof { lemma_texts(self@, other@); }
//@@ end

//@@ block py_mof_ne
//@@ fn python/src/pymofile.rs PyMOFile::__ne__
//@@ ret r
//@@ contract
    ensures r is Ok, exists|a: Seq<char>, b: Seq<char>| #[trigger] texts_of(self@, other@, a, b) && r->Ok_0 == (a != b),
//@@ ghost start
    hide(is_mo_text);
    proof { lemma_texts(self@, other@); }
//@@ end
