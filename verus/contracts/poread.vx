//@@ block parse_line
//@@ fn rust/src/poparser.rs POFileParser::parse_line
//@@ ret r
//@@ contract
    requires wf_pst(pst(*old(self))), old(self).current_line < usize::MAX,
    ensures
        same_res(r, *final(self), step(pst(*old(self)), line@)),
        r is Ok ==> wf_pst(pst(*final(self))) && final(self).current_line == old(self).current_line + 1,
//@@ ghost start
    hide(tok_ok); hide(ascii_to); hide(inner); hide(unesc_entry); hide(trans); hide(act); hide(po_fresh); hide(proc); hide(trim); hide(trim_start); hide(trim_end); hide(toks3); hide(atoks); hide(qerr); hide(blen); hide(cpos); hide(is_cb); hide(cidx);
    hide(parse_usize); hide(has_prefix); hide(split); hide(splitn2); hide(kw); hide(pkw); hide(wf_fields); hide(wf_pst);
    let ghost vx_raw = line@;
    proof { axiom_str_len(line); lemma_wf_line(pst(*self)); lemma_kw_syms(); lemma_tok_ok(); lemma_line(line@); lemma_cb_ends(trim(line@)); lemma_cb_ends(trim(trim(line@).skip(3))); }
//@@ end

//@@ block parse_with_handler
//@@ fn rust/src/poparser.rs POFileParser::parse_with_handler
//@@ ret r
//@@ contract
    requires
        wf_pst(pst(*old(self))), old(self).current_line + old(handler)@.len() < usize::MAX,
    ensures
        same_res(r, *final(self), read_all(pst(*old(self)), old(handler)@)),
//@@ ghost start
    hide(step); hide(flush); hide(wf_pst); hide(split); hide(split_once); hide(trim); hide(lstrip); hide(is_fuzzy);
    let ghost vx_ls = handler@;
    let ghost vx_p0 = pst(*self);
    proof { assert(vx_ls.take(0) =~= Seq::empty()); }
//@@ loop 0
        invariant
            vx_it0.seq().len() == vx_ls.len(),
            forall|i: int| 0 <= i < vx_ls.len() ==> line_view(#[trigger] vx_it0.seq()[i]) == vx_ls[i],
            run(vx_p0, vx_ls.take(vx_it0.index@)) == core::result::Result::<PSt, PErr>::Ok(pst(*self)),
            wf_pst(pst(*self)),
            self.current_line == vx_p0.line + vx_it0.index@,
            first_line == (vx_it0.index@ == 0),
//@@ ghost loop 0 start
    proof {
        let i = vx_it0.index@;
        assert(line_view(vx_it0.seq()[i]) == vx_ls[i]);
        assert(vx_ls.take(i + 1).drop_last() =~= vx_ls.take(i));
        assert(vx_ls.take(i + 1).last() == vx_ls[i]);
        lemma_run_err(vx_p0, vx_ls, i + 1);
    }
//@@ ghost after 0
    let ghost vx_q = pst(*self);
    proof { assert(vx_ls.take(vx_ls.len() as int) =~= vx_ls); }
//@@ ghost before 1
    let ghost vx_es = self.file@.entries;
    let ghost vx_h = |e: POEntryV| is_head(e);
    proof { assert(vx_es.skip(0) =~= vx_es); }
//@@ loop 1
        invariant
            vx_it1.seq().len() == vx_es.len(),
            forall|i: int| 0 <= i < vx_es.len() ==> (*(#[trigger] vx_it1.seq()[i]))@ == vx_es[i],
            vx_porefopt(vx_found) is None ==> first(vx_es, vx_h) == first(vx_es.skip(vx_it1.index@), vx_h),
            vx_found is Some ==> first(vx_es, vx_h) == vx_porefopt(vx_found),
//@@ ghost loop 1 start
    proof {
        let i = vx_it1.index@;
        assert((*vx_it1.seq()[i])@ == vx_es[i]);
        assert(vx_es.skip(i)[0] == vx_es[i]);
        assert(vx_es.skip(i).skip(1) =~= vx_es.skip(i + 1));
    }
//@@ ghost past metadata_entry
    let ghost vx_z = pst(*self);
    proof {
        assert(close(vx_q) == core::result::Result::<PSt, PErr>::Ok(vx_z));
        assert(match first(vx_z.file.entries, |e: POEntryV| is_head(e)) { Some(h) => metadata_entry is Some && metadata_entry->0@ == h, None => metadata_entry is None });
    }
//@@ ghost before 2
    let ghost vx_f = self.file@;
    let ghost vx_me = metadata_entry@;
    let ghost vx_lines = split(otext(metadata_entry@.msgstr), '\n');
    proof { assert(vx_lines.take(0) =~= Seq::empty()); }
//@@ loop 2
        invariant
            vx_strrefs(vx_it2.seq()) == vx_lines,
            vx_map(self.file.metadata) == add_metas(vx_f.metadata, vx_lines.take(vx_it2.index@)),
            pst(*self) == (PSt { file: POFileV { metadata: vx_map(self.file.metadata), ..vx_f }, ..vx_z }),
//@@ ghost loop 2 start
    let ghost vx_m = vx_map(self.file.metadata);
    proof {
        let i = vx_it2.index@;
        assert(vx_strrefs(vx_it2.seq())[i] == metadata_line@);
        assert(vx_lines.take(i + 1).drop_last() =~= vx_lines.take(i));
        assert(vx_lines.take(i + 1).last() == vx_lines[i]);
    }
//@@ ghost loop 2 end
    proof { assert(vx_map(self.file.metadata) =~= add_meta(vx_m, metadata_line@)); }
//@@ ghost after 2
    proof {
        assert(vx_lines.take(vx_lines.len() as int) =~= vx_lines);
        let h = vx_me;
        assert(vx_f.entries == keep(vx_z.file.entries, not_entry(h)));
        assert(vx_f.metadata == vx_z.file.metadata);
        assert(self.file@ == take_head(vx_z.file));
    }
//@@ ghost tail
    proof { assert(pst(*self) == (PSt { file: take_head(vx_z.file), ..vx_z })); }
//@@ end

//@@ block lines_new
//@@ fn rust/src/poparser.rs LinesHandler::new
//@@ ret r
//@@ contract
    ensures r@ == byte_lines(old(handler)@), r@.len() < usize::MAX,
//@@ end

//@@ block lines_next
//@@ fn rust/src/poparser.rs Iterator for LinesHandler::next
//@@ opt flat
//@@ ret r
//@@ contract
    ensures
        old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r is Some && line_view(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
//@@ end

//@@ block parse_content
//@@ fn rust/src/poparser.rs POFileParser::parse_content
//@@ ret r
//@@ contract
    requires
        wf_pst(pst(*old(self))), old(self).current_line == 0,
    ensures
        same_res(r, *final(self), read_all(pst(*old(self)), content_lines(old(self).file@.options))),
//@@ end

//@@ block parse_file
//@@ fn rust/src/poparser.rs POFileParser::parse_file
//@@ ret r
//@@ contract
    requires
        wf_pst(pst(*old(self))), old(self).current_line == 0, is_file(old(self).file@.options.path_or_content),
    ensures
        same_res(r, *final(self), read_all(pst(*old(self)), byte_lines(fs(old(self).file@.options.path_or_content)))),
//@@ end

//@@ block parse
//@@ fn rust/src/poparser.rs POFileParser::parse
//@@ ret r
//@@ contract
    requires
        wf_pst(pst(*old(self))), old(self).current_line == 0,
        old(self).content_is_path == is_file(old(self).file@.options.path_or_content),
    ensures
        same_res(r, *final(self), read_all(pst(*old(self)), source_lines(old(self).file@.options))),
//@@ end

//@@ block po_file_new
//@@ fn rust/src/file/pofile.rs POFile::new
//@@ ret r
//@@ contract
    ensures r@ == file_fresh(options@),
//@@ end

//@@ block parser_new
//@@ fn rust/src/poparser.rs POFileParser::new
//@@ ret r
//@@ contract
    ensures
        r.content_is_path == is_file(file_options@.path_or_content),
        pst(r) == pst_fresh(file_options@),
        r.current_line == 0,
//@@ end

//@@ block pofile
//@@ fn rust/src/file/pofile.rs pofile
//@@ ret r
//@@ contract
    // C07, C19: reading a text, bytes or a path
    ensures exists|o: FileOptions| #[trigger] options.into_spec(o) && same_file(r, read_any(o@)),
//@@ end

//@@ block fo_default
//@@ fn rust/src/file/mod.rs Default for FileOptions::default
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == opts_fresh(),
//@@ ghost start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end

//@@ block fo_str
//@@ fn rust/src/file/mod.rs From<&'a str> for FileOptions::from
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == (FileOptionsV { path_or_content: path_or_content@, ..opts_fresh() }),
//@@ end

//@@ block fo_str_width
//@@ fn rust/src/file/mod.rs From<(&'a str, usize)> for FileOptions::from
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == (FileOptionsV { path_or_content: opts.0@, wrapwidth: opts.1, ..opts_fresh() }),
//@@ end

//@@ block fo_bytes
//@@ fn rust/src/file/mod.rs From<Vec<u8>> for FileOptions::from
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == (FileOptionsV { byte_content: Some(byte_content@), ..opts_fresh() }),
//@@ end

//@@ block fo_bytes_width
//@@ fn rust/src/file/mod.rs From<(Vec<u8>, usize)> for FileOptions::from
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == (FileOptionsV { byte_content: Some(vx_p0.0@), wrapwidth: vx_p0.1, ..opts_fresh() }),
//@@ ghost start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end

//@@ block fo_path
//@@ fn rust/src/file/mod.rs From<&Path> for FileOptions::from
//@@ opt inherent
//@@ opt as=vx_from_path
//@@ ret r
//@@ contract
    requires path@ is Some,
    ensures r@ == (FileOptionsV { path_or_content: path@->0, ..opts_fresh() }),
//@@ end

//@@ block pofile_from_str
//@@ fn rust/src/file/pofile.rs From<&'a str> for POFile::from
//@@ opt inherent
//@@ opt as=vx_from
//@@ ret r
//@@ contract
    requires read_any(FileOptionsV { path_or_content: path_or_content@, ..opts_fresh() }) is Ok,
    ensures r@ == read_any(FileOptionsV { path_or_content: path_or_content@, ..opts_fresh() })->Ok_0,
//@@ end

//@@ block pofile_from_path
//@@ fn rust/src/file/pofile.rs From<&Path> for POFile::from
//@@ opt inherent
//@@ opt as=vx_from_path
//@@ ret r
//@@ contract
    requires path@ is Some, read_any(FileOptionsV { path_or_content: path@->0, ..opts_fresh() }) is Ok,
    ensures r@ == read_any(FileOptionsV { path_or_content: path@->0, ..opts_fresh() })->Ok_0,
//@@ end

//@@ block fo_ref
//@@ fn rust/src/file/mod.rs From<&FileOptions> for FileOptions::from
//@@ opt flat
//@@ ret r
//@@ contract
    ensures r@ == options@,
//@@ end
