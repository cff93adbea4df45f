//@@ block metadata_msgstr_formatter
//@@ fn rust/src/entry/mod.rs metadata_msgstr_formatter
//@@ ret r
//@@ contract
    ensures r@ == meta_msgstr(msgstr@),
//@@ ghost start
    hide(lines);
    let ghost ls = lines(msgstr@);
    let ghost o = seq![msgstr_open()];
    proof {
        reveal_strlit("msgstr \"\"\n"); reveal_strlit("\\n");
        assert("msgstr \"\"\n"@ =~= msgstr_open() + seq!['\n']);
        assert("\\n"@ =~= seq!['\\', 'n']);
        lemma_lined_push(Seq::empty(), msgstr_open());
        assert(lined(Seq::empty()) == Seq::<char>::empty());
        assert(o =~= Seq::<Seq<char>>::empty().push(msgstr_open()));
        assert("msgstr \"\"\n"@ =~= lined(o));
        assert(o + meta_parts(ls.take(0)) =~= o);
        assert(ls.take(ls.len() as int) =~= ls);
    }
//@@ loop 0
        invariant
            vx_it0.seq().len() == ls.len(),
            forall|i: int| 0 <= i < ls.len() ==> (#[trigger] vx_it0.seq()[i])@ == ls[i],
            ret@ == lined(o + meta_parts(ls.take(vx_it0.index@))),
//@@ ghost loop 0 start
    let ghost r0 = ret@;
    proof { assert((vx_it0.seq()[vx_it0.index@])@ == ls[vx_it0.index@]); }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        let a = o + meta_parts(ls.take(k));
        lemma_lined_push(a, meta_part_text(ls[k]));
        assert(o + meta_parts(ls.take(k + 1)) =~= a.push(meta_part_text(ls[k])));
        assert(ret@ =~= r0 + meta_part_text(ls[k]) + seq!['\n']);
    }
//@@ end

//@@ block mo_metadata_entry_to_string
//@@ fn rust/src/entry/mod.rs mo_metadata_entry_to_string
//@@ ret r
//@@ contract
    ensures entry@.msgstr_plural.len() == 0 ==> is_head_text(entry@, r@),
//@@ ghost start
    hide(is_items);
    hide(meta_msgstr);
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end

//@@ block po_metadata_entry_to_string
//@@ fn rust/src/entry/mod.rs po_metadata_entry_to_string
//@@ ret r
//@@ contract
    ensures entry@.msgstr_plural.len() == 0 ==> is_po_head_text(entry@, metadata_is_fuzzy, r@),
//@@ ghost start
    hide(is_head_text);
    proof { reveal_strlit("#, fuzzy\n"); assert("#, fuzzy\n"@ =~= fuzzy_line() + seq!['\n']); assert(Seq::<char>::empty() + fuzzy_text(metadata_is_fuzzy) =~= fuzzy_text(metadata_is_fuzzy)); }
//@@ end

//@@ block pofile_fmt
//@@ fn rust/src/file/pofile.rs fmt::Display for POFile::fmt
//@@ opt flat
//@@ ret r
//@@ contract
    requires old(f).text@.len() == 0,
    ensures r is Ok, is_file_text(self@, final(f).text@),
//@@ ghost start
    hide(lines);
    hide(is_items);
    hide(is_messages);
    hide(is_po_head_text);
    hide(is_file_text);
    hide(is_file_head);
    hide(is_head_in);
    hide(past);
    hide(po_items);
    hide(keep);
    hide(is_meta_text);
    hide(cpos);
    hide(esc);
    let ghost h = self@.header;
    let ghost ls = lines(otext(h));
    let ghost es = self@.entries;
    let ghost w = self@.options.wrapwidth as int;
    proof {
        reveal_strlit("#\n"); reveal_strlit("# ");
        assert("#\n"@ =~= seq!['#', '\n']);
        assert("# "@ =~= seq!['#', ' ']);
        lemma_lined_push(Seq::empty(), seq!['#']);
        assert(lined(Seq::empty()) == Seq::<char>::empty());
        assert(seq![seq!['#']] =~= Seq::<Seq<char>>::empty().push(seq!['#']));
        assert("#\n"@ =~= lined(seq![seq!['#']]));
        assert(head_lines(h).take(0) =~= Seq::<Seq<char>>::empty());
        assert(head_lines(h).take(head_lines(h).len() as int) =~= head_lines(h));
        let z = self@;
        assert(z.metadata_is_fuzzy == self.metadata_is_fuzzy);
        assert forall|e: POEntryV| #[trigger] is_file_head(z, e) implies e.msgstr_plural.len() == 0 by { reveal(is_file_head); }
        let x = lined(head_lines(h));
        assert forall|m: Seq<char>| past(x, #[trigger] ((x + m).push('\n'))) == m by { lemma_past(x, m); }
        assert forall|e: POEntryV, m: Seq<char>| is_file_head(z, e) && #[trigger] is_po_head_text(e, z.metadata_is_fuzzy, m) implies is_head_in(z, m) by { reveal(is_head_in); }
    }
//@@ loop 0
        invariant
            vx_it0.seq().len() == ls.len(),
            forall|i: int| 0 <= i < ls.len() ==> (#[trigger] vx_it0.seq()[i])@ == ls[i],
            header_repr@ == lined(head_lines(h).take(vx_it0.index@)),
//@@ ghost loop 0 start
    let ghost r0 = header_repr@;
    proof { assert((vx_it0.seq()[vx_it0.index@])@ == ls[vx_it0.index@]); }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        lemma_lined_push(head_lines(h).take(k), head_line(ls[k]));
        assert(head_lines(h).take(k + 1) =~= head_lines(h).take(k).push(head_line(ls[k])));
        assert(header_repr@ =~= r0 + head_line(ls[k]) + seq!['\n']);
    }
//@@ ghost past header
    proof { assert(ret@ == lined(head_lines(h))); }
//@@ ghost before 1
    let ghost r1 = ret@;
    proof {
        assert(es.take(0) =~= Seq::<POEntryV>::empty());
        assert(es.take(es.len() as int) =~= es);
        reveal(is_messages);
        reveal(keep);
        assert(exists|e: POEntryV, u: Seq<char>| is_file_head(self@, e) && is_po_head_text(e, self.metadata_is_fuzzy, u));
        assert(is_head_in(self@, past(lined(head_lines(h)), r1)));
        lemma_past(lined(head_lines(h)), past(lined(head_lines(h)), r1));
        assert(r1 == lined(head_lines(h)) + past(lined(head_lines(h)), r1) + seq!['\n']);
    }
//@@ loop 1
        invariant
            vx_it1.seq().len() == es.len(),
            forall|i: int| 0 <= i < es.len() ==> (#[trigger] vx_it1.seq()[i])@ == es[i],
            is_messages(keep(es.take(vx_it1.index@), gone(false)), w, entries_ret@),
            is_messages(keep(es.take(vx_it1.index@), gone(true)), w, obsolete_entries_ret@),
//@@ ghost loop 1 start
    let ghost a0 = entries_ret@;
    let ghost b0 = obsolete_entries_ret@;
    proof {
        let k = vx_it1.index@;
        assert((vx_it1.seq()[k])@ == es[k]);
        lemma_keep_step(es, k, gone(false));
        lemma_keep_step(es, k, gone(true));
        let a = if es[k].obsolete { b0 } else { a0 };
        assert forall|t: Seq<char>| is_items(po_items(es[k]), w, t)
            implies is_messages(keep(es.take(k + 1), gone(es[k].obsolete)), w, (#[trigger] (a + t)).push('\n')) by {
            assert((a + t).push('\n') =~= a + (t + seq!['\n']));
            lemma_messages_push(keep(es.take(k), gone(es[k].obsolete)), es[k], w, a, t, (a + t).push('\n'));
        }
    }
//@@ ghost after 1
    proof {
        let m = past(lined(head_lines(h)), r1);
        let (a, b) = (entries_ret@, obsolete_entries_ret@);
        lemma_file_text(self@, m, a, b, file_text(h, m, a, b));
        let t = (r1 + a + b).drop_last();
        assert(t == file_text(h, m, a, b));
        assert(Seq::<char>::empty() + t =~= t);
        assert(old(f).text@ + t =~= t);
    }
//@@ end

//@@ block poentry_fmt
//@@ fn rust/src/entry/poentry.rs fmt::Display for POEntry::fmt
//@@ opt flat
//@@ ret r
//@@ contract
    requires old(f).text@.len() == 0,
    ensures r is Ok, is_items(po_items(self@), 78, final(f).text@),
//@@ ghost start
    hide(is_items);
    proof {
        assert forall|t: Seq<char>| (#[trigger] (old(f).text@ + t)) == t by { assert(old(f).text@ + t =~= t); }
        assert forall|t: Seq<char>| (#[trigger] (Seq::<char>::empty() + t)) == t by { assert(Seq::<char>::empty() + t =~= t); }
    }
//@@ end

//@@ block mo_to_string_with
//@@ fn rust/src/entry/moentry.rs MOEntry::to_string_with_wrapwidth
//@@ ret r
//@@ contract
    ensures is_items(mo_items(self@, Seq::empty()), wrapwidth as int, r@),
//@@ ghost start
    hide(is_items);
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end

//@@ block moentry_fmt
//@@ fn rust/src/entry/moentry.rs fmt::Display for MOEntry::fmt
//@@ opt flat
//@@ ret r
//@@ contract
    requires old(f).text@.len() == 0,
    ensures r is Ok, is_items(mo_items(self@, Seq::empty()), 78, final(f).text@),
//@@ ghost start
    hide(is_items);
    proof {
        assert forall|t: Seq<char>| (#[trigger] (old(f).text@ + t)) == t by { assert(old(f).text@ + t =~= t); }
        assert forall|t: Seq<char>| (#[trigger] (Seq::<char>::empty() + t)) == t by { assert(Seq::<char>::empty() + t =~= t); }
    }
//@@ end

//@@ block mofile_fmt
//@@ fn rust/src/file/mofile.rs fmt::Display for MOFile::fmt
//@@ opt flat
//@@ ret r
//@@ contract
    requires old(f).text@.len() == 0,
    ensures r is Ok, is_mo_text(self@, final(f).text@),
//@@ ghost start
    hide(is_items);
    hide(is_mo_messages);
    hide(is_head_text);
    hide(is_mo_text);
    hide(mo_items);
    hide(is_meta_entry);
    let ghost es = self@.entries;
    let ghost w = self@.options.wrapwidth as int;
    let ghost h = seq!['#', '\n'];
    proof {
        reveal_strlit("#\n");
        assert("#\n"@ =~= h);
        let z = self@;
        assert forall|e: MOEntryV| #[trigger] is_meta_entry(z.metadata, e) implies e.msgstr_plural.len() == 0 by { reveal(is_meta_entry); }
        assert forall|m: Seq<char>| past(h, #[trigger] ((h + m).push('\n'))) == m by { lemma_past(h, m); }
        assert forall|e: MOEntryV, m: Seq<char>| is_meta_entry(z.metadata, e) && #[trigger] is_head_text(e, m) implies is_mo_head_in(z, m) by {}
    }
//@@ ghost before 0
    let ghost r1 = ret@;
    proof {
        assert(es.take(0) =~= Seq::<MOEntryV>::empty());
        assert(es.take(es.len() as int) =~= es);
        reveal(is_mo_messages);
        assert(exists|e: MOEntryV, u: Seq<char>| is_meta_entry(self@.metadata, e) && #[trigger] is_head_text(e, u) && r1 == (h + u).push('\n'));
        assert(is_mo_head_in(self@, past(h, r1)));
        lemma_past(h, past(h, r1));
        assert(r1 == h + past(h, r1) + seq!['\n']);
        assert(r1 + Seq::<char>::empty() =~= r1);
    }
//@@ loop 0
        invariant
            vx_it0.seq().len() == es.len(),
            forall|i: int| 0 <= i < es.len() ==> (#[trigger] vx_it0.seq()[i])@ == es[i],
            is_mo_printed(r1, es.take(vx_it0.index@), w, ret@),
//@@ ghost loop 0 start
    let ghost r0 = ret@;
    proof {
        let k = vx_it0.index@;
        assert((vx_it0.seq()[k])@ == es[k]);
        assert(es.take(k + 1).drop_last() =~= es.take(k));
        assert forall|t: Seq<char>| is_items(mo_items(es[k], Seq::empty()), w, t)
            implies is_mo_printed(r1, es.take(k + 1), w, (#[trigger] (r0 + t)).push('\n')) by {
            lemma_mo_printed(r1, es.take(k + 1), w, r0, t);
        }
    }
//@@ ghost after 0
    proof {
        lemma_mo_text(self@, past(h, r1), r1, ret@);
        assert(old(f).text@ + ret@.drop_last() =~= ret@.drop_last());
    }
//@@ end
