//@@ block mo_extract_plurals
//@@ fn rust/src/moparser.rs maybe_extract_plurals_from_msgid_msgstr
//@@ opt notail
//@@ ret r
//@@ contract
    ensures
        !msgid@.contains('\u{0}') ==> r.0@ == msgid@ && r.1 is None && r.2@.len() == 0,
        msgid@.contains('\u{0}') ==> r.0@ == split(msgid@, '\u{0}')[0] && vx_opt(r.1) == Some(split(msgid@, '\u{0}')[1])
            && vx_strs(r.2@) == split(msgstr@, '\u{0}'),
//@@ loop 0
        invariant
            vx_strrefs(vx_it0.seq()) == split(msgstr@, '\u{0}'),
            vx_strs(vx_out@) == split(msgstr@, '\u{0}').take(vx_it0.index@),
//@@ ghost start
    proof { lemma_split_len(msgid@, '\u{0}'); }
//@@ ghost before 0
    proof { assert(vx_strs(vx_out@) =~= split(msgstr@, '\u{0}').take(0)); }
//@@ ghost loop 0 start
    let ghost vx_o = vx_out@;
    proof { assert(vx_strrefs(vx_it0.seq())[vx_it0.index@] == vx_x@); }
//@@ ghost loop 0 end
    proof { assert(vx_strs(vx_out@) =~= split(msgstr@, '\u{0}').take(vx_it0.index@ + 1)); }
//@@ ghost after 0
    proof { assert(split(msgstr@, '\u{0}').take(split(msgstr@, '\u{0}').len() as int) =~= split(msgstr@, '\u{0}')); }
//@@ end

//@@ block mo_extract_ctx
//@@ fn rust/src/moparser.rs maybe_extract_msgctxt_from_msgid
//@@ ret r
//@@ contract
    ensures
        ({
            let t = split(msgid@, '\u{4}');
            if t.len() == 2 { r.0@ == t[1] && vx_opt(r.1) == Some(t[0]) } else { r.0@ == msgid@ && r.1 is None }
        }),
//@@ end

//@@ block mo_4_bytes
//@@ fn rust/src/moparser.rs MOFileParser::parse_4_bytes
//@@ ret r
//@@ contract
    requires old(self).fhandle.pos() >= 0,
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        final(self).fhandle.pos() >= 0,
        match num_at(old(self).freader is Be, old(self).fhandle.data(), old(self).fhandle.pos()) {
            Some(n) => r is Ok && r->Ok_0 == n && final(self).fhandle.pos() == old(self).fhandle.pos() + 4,
            None => r is Err,
        },
//@@ end

//@@ block mo_string
//@@ fn rust/src/moparser.rs MOFileParser::parse_string
//@@ ret r
//@@ contract
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        // C10: inside the input or rejected
        match bytes_of(old(self).fhandle.data(), (length, offset)) {
            Some(b) => r is Ok && r->Ok_0@ == b,
            None => r is Err,
        },
//@@ end

//@@ block mo_magic
//@@ fn rust/src/moparser.rs MOFileParser::parse_magic_number
//@@ opt native_eq
//@@ ret r
//@@ contract
    requires old(self).fhandle.pos() == 0, old(self).freader is Le,
    ensures
        final(self).fhandle.data() == old(self).fhandle.data(),
        match num_at(false, old(self).fhandle.data(), 0) {
            Some(m) => if m == MAGIC || m == MAGIC_SWAPPED {
                r is Ok && final(self).freader == (if is_be(m) { VxReadFn::Be } else { VxReadFn::Le })
                && final(self).file@ == (MOFileV { magic_number: Some(m), ..old(self).file@ })
                && final(self).fhandle.pos() == 4
            } else { r is Err },
            None => r is Err,
        },
//@@ end

//@@ block mo_revision
//@@ fn rust/src/moparser.rs MOFileParser::parse_revision_number
//@@ ret r
//@@ contract
    requires old(self).fhandle.pos() >= 0,
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        match num_at(old(self).freader is Be, old(self).fhandle.data(), old(self).fhandle.pos()) {
            Some(n) => if n == 0 || n == 1 {
                r is Ok && r->Ok_0 == n && final(self).fhandle.pos() == old(self).fhandle.pos() + 4
            } else { r is Err },
            None => r is Err,
        },
//@@ end

//@@ block mo_numofstrings
//@@ fn rust/src/moparser.rs MOFileParser::parse_numofstrings
//@@ ret r
//@@ contract
    requires old(self).fhandle.pos() >= 0,
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        match num_at(old(self).freader is Be, old(self).fhandle.data(), old(self).fhandle.pos()) {
            Some(n) => r is Ok && r->Ok_0 == n && final(self).fhandle.pos() == old(self).fhandle.pos() + 4,
            None => r is Err,
        },
//@@ end

//@@ block mo_tables_offsets
//@@ fn rust/src/moparser.rs MOFileParser::parse_tables_offsets
//@@ ret r
//@@ contract
    requires old(self).fhandle.pos() >= 0,
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        match (num_at(old(self).freader is Be, old(self).fhandle.data(), old(self).fhandle.pos()),
            num_at(old(self).freader is Be, old(self).fhandle.data(), old(self).fhandle.pos() + 4)) {
            (Some(a), Some(b)) => r is Ok && r->Ok_0 == (a, b),
            _ => r is Err,
        },
//@@ end

//@@ block mo_indexes_table
//@@ fn rust/src/moparser.rs MOFileParser::parse_indexes_table
//@@ ret r
//@@ contract
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        ({
            let be = old(self).freader is Be;
            let b = old(self).fhandle.data();
            let n = number_of_strings as int;
            if has_table(be, b, table_offset as int, n) { r is Ok && r->Ok_0@ == table(be, b, table_offset as int, n) } else { r is Err }
        }),
//@@ loop 0
        invariant
            self.freader == old(self).freader,
            self.file == old(self).file,
            self.fhandle.data() == old(self).fhandle.data(),
            self.fhandle.pos() == table_offset + 8 * i,
            indexes@ == table(old(self).freader is Be, old(self).fhandle.data(), table_offset as int, i as int),
            has_table(old(self).freader is Be, old(self).fhandle.data(), table_offset as int, i as int),
//@@ ghost before 0
    proof { assert(indexes@ =~= table(old(self).freader is Be, old(self).fhandle.data(), table_offset as int, 0)); }
//@@ ghost loop 0 start
    proof {
        let be = old(self).freader is Be;
        let b = old(self).fhandle.data();
        if pair_at(be, b, table_offset as int, i as int) is None {
            assert(!has_table(be, b, table_offset as int, number_of_strings as int));
        }
    }
//@@ ghost loop 0 end
    proof { assert(indexes@ =~= table(old(self).freader is Be, old(self).fhandle.data(), table_offset as int, i + 1)); }
//@@ end

//@@ block mo_msgs_indexes
//@@ fn rust/src/moparser.rs MOFileParser::parse_msgs_indexes
//@@ ret r
//@@ contract
    ensures
        final(self).freader == old(self).freader,
        final(self).file == old(self).file,
        final(self).fhandle.data() == old(self).fhandle.data(),
        ({
            let be = old(self).freader is Be;
            let b = old(self).fhandle.data();
            let n = number_of_strings as int;
            let (t1, t2) = (msgids_table_offset as int, msgstrs_table_offset as int);
            if has_table(be, b, t1, n) && has_table(be, b, t2, n) {
                r is Ok && r->Ok_0.0@ == table(be, b, t1, n) && r->Ok_0.1@ == table(be, b, t2, n)
            } else { r is Err }
        }),
//@@ end

//@@ block mo_msgs
//@@ fn rust/src/moparser.rs MOFileParser::parse_msgs
//@@ opt native_eq
//@@ ret r
//@@ contract
    requires
        old(self).file@.entries.len() == 0,
        old(self).file@.metadata == Map::<Seq<char>, Seq<char>>::empty(),
        msgids_index@.len() == number_of_strings,
        msgstrs_index@.len() == number_of_strings,
    ensures
        final(self).fhandle.data() == old(self).fhandle.data(),
        ({
            let b = old(self).fhandle.data();
            let n = number_of_strings as int;
            if has_strings(b, msgids_index@, n) && has_strings(b, msgstrs_index@, n) {
                r is Ok && final(self).file@ == (MOFileV {
                    metadata: meta_of(b, msgids_index@, msgstrs_index@, n),
                    entries: entries_of(b, msgids_index@, msgstrs_index@, n),
                    ..old(self).file@
                })
            } else { r is Err }
        }),
//@@ loop 0
        invariant
            self.fhandle.data() == old(self).fhandle.data(),
            self.file@ == (MOFileV {
                metadata: meta_of(old(self).fhandle.data(), msgids_index@, msgstrs_index@, i as int),
                entries: entries_of(old(self).fhandle.data(), msgids_index@, msgstrs_index@, i as int),
                ..old(self).file@
            }),
            has_strings(old(self).fhandle.data(), msgids_index@, i as int),
            has_strings(old(self).fhandle.data(), msgstrs_index@, i as int),
//@@ loop 1
        invariant
            self.fhandle.data() == old(self).fhandle.data(),
            vx_strrefs(vx_it1.seq()) == split(msgstr@, '\n'),
            self.file@ == (MOFileV {
                metadata: meta_lines(Map::empty(), split(msgstr@, '\n').take(vx_it1.index@)),
                ..old(self).file@
            }),
//@@ ghost start
    let ghost vx_b = self.fhandle.data();
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(vx_moentries(self.file.entries@) =~= Seq::<MOEntryV>::empty()); }
//@@ ghost loop 0 start
    proof {
        if bytes_of(vx_b, msgids_index@[i as int]) is None { assert(!has_strings(vx_b, msgids_index@, number_of_strings as int)); }
        if bytes_of(vx_b, msgstrs_index@[i as int]) is None { assert(!has_strings(vx_b, msgstrs_index@, number_of_strings as int)); }
    }
    let ghost vx_e0 = self.file.entries@;
//@@ ghost before 1
    proof { assert(split(msgstr@, '\n').take(0) =~= Seq::<Seq<char>>::empty()); }
//@@ ghost loop 1 start
    proof {
        let l = split(msgstr@, '\n');
        let k = vx_it1.index@;
        assert(vx_strrefs(vx_it1.seq())[k] == metadata_line@);
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        assert(l.take(k + 1).last() == metadata_line@);
        reveal_strlit("");
        assert(trim(""@) =~= Seq::<char>::empty());
    }
//@@ ghost after 1
    proof { assert(split(msgstr@, '\n').take(split(msgstr@, '\n').len() as int) =~= split(msgstr@, '\n')); }
//@@ ghost loop 0 end
    proof {
        if !(i == 0 && has_meta(vx_b, msgids_index@, 1)) {
            let e = plain_entry(text_of(vx_b, msgids_index@[i as int]), text_of(vx_b, msgstrs_index@[i as int]));
            assert(self.file.entries@.len() == vx_e0.len() + 1);
            let x = self.file.entries@.last();
            assert(self.file.entries@ =~= vx_e0.push(x));
            assert(x@.msgstr_plural =~= e.msgstr_plural);
            assert(x@ =~= e);
            assert(self.file@.entries =~= vx_moentries(vx_e0).push(e));
        }
        assert(self.file@.entries =~= entries_of(vx_b, msgids_index@, msgstrs_index@, i + 1));
        assert(self.file@ =~= (MOFileV {
                metadata: meta_of(vx_b, msgids_index@, msgstrs_index@, i + 1),
                entries: entries_of(vx_b, msgids_index@, msgstrs_index@, i + 1),
                ..old(self).file@
            }));
    }
//@@ end

//@@ block moentry_new
//@@ fn rust/src/entry/moentry.rs MOEntry::new
//@@ ret r
//@@ contract
    ensures r@ == (MOEntryV {
        msgid: msgid@, msgstr: vx_opt(msgstr), msgid_plural: vx_opt(msgid_plural), msgstr_plural: vx_strs(msgstr_plural@), msgctxt: vx_opt(msgctxt),
    }),
//@@ end

//@@ block mo_parse
//@@ fn rust/src/moparser.rs MOFileParser::parse
//@@ ret r
//@@ contract
    requires
        old(self).fhandle.pos() == 0,
        old(self).freader is Le,
        old(self).file@.entries.len() == 0,
        old(self).file@.metadata == Map::<Seq<char>, Seq<char>>::empty(),
    ensures
        // C10: a file with one of the magic numbers, revision 0 or 1 and every string inside, or an error
        r is Ok == is_mo(old(self).fhandle.data()),
        r is Ok ==> final(self).file@ == mo_file(old(self).fhandle.data(), old(self).file@),
//@@ end
