//@@ block po_unescaped
//@@ fn rust/src/entry/poentry.rs POEntry::unescaped
//@@ ret r
//@@ contract
    ensures
        match unesc_entry(self@) {
            Some(e) => r is Ok && r->Ok_0@ == e,
            None => r is Err,
        },
//@@ ghost before 0
    let ghost vx_e = entry;
    let ghost vx_s = self@.msgstr_plural;
    proof { assert(vx_strs(entry.msgstr_plural@) == vx_s); }
//@@ loop 0
        invariant
            vx_it0.seq().len() == vx_s.len(),
            forall|i: int| 0 <= i < vx_it0.seq().len() ==> (*(#[trigger] vx_it0.seq()[i]))@ == vx_s[i],
            forall|i: int| 0 <= i < vx_it0.index@ ==> unesc(vx_s[i]) == Some((*final(#[trigger] vx_it0.seq()[i]))@),
//@@ ghost loop 0 start
    proof {
        assert(msgstr_plural@ == vx_s[vx_it0.index@]);
        if unesc(vx_s[vx_it0.index@]) is None { lemma_unesc_all_none(vx_s, vx_it0.index@); }
    }
//@@ ghost after 0
    proof {
        let vx_t = vx_strs(entry.msgstr_plural@);
        assert(vx_t.len() == vx_s.len());
        assert forall|i: int| 0 <= i < vx_s.len() implies unesc(#[trigger] vx_s[i]) == Some(vx_t[i]) by { assert(vx_t[i] == entry.msgstr_plural@[i]@); }
        lemma_unesc_all(vx_s, vx_t);
    }
//@@ end

//@@ block add_entry
//@@ fn rust/src/poparser.rs POFileParser::add_current_entry
//@@ ret r
//@@ contract
    ensures
        same_res(r, *final(self), flush(pst(*old(self)))),
        final(self).current_token@ == old(self).current_token@,
        final(self).entry_obsolete == old(self).entry_obsolete,
//@@ ghost tail
    proof { assert(self.file@.entries =~= flush(pst(*old(self)))->Ok_0.file.entries); }
//@@ end

//@@ block maybe_add_entry
//@@ fn rust/src/poparser.rs POFileParser::maybe_add_current_entry
//@@ ret r
//@@ contract
    ensures
        same_res(r, *final(self), mflush(pst(*old(self)))),
        final(self).current_token@ == old(self).current_token@,
        final(self).entry_obsolete == old(self).entry_obsolete,
//@@ end

//@@ block handle_he
//@@ fn rust/src/poparser.rs handle_he
//@@ ret r
//@@ contract
    requires can_act(St::HE, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::HE, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_comment_at(parser.current_token@); }
//@@ ghost tail
    proof {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        assert(parser.file@.header->0 =~= header_add(old(parser).file@.header, old(parser).current_token@));
    }
//@@ end

//@@ block handle_tc
//@@ fn rust/src/poparser.rs handle_tc
//@@ ret r
//@@ contract
    requires can_act(St::TC, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::TC, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost past toappend
    proof { if toappend@.len() > 0 && toappend@[0] == ' ' { assert(ascii_to(toappend@, 1)); lemma_ascii_at(toappend@, 1); } }
//@@ ghost tail
    proof {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        assert(parser.current_entry@.tcomment->0 =~= add_line((mflush(pst(*old(parser)))->Ok_0).entry.tcomment, tc_text(old(parser).current_token@)));
    }
//@@ end

//@@ block handle_gc
//@@ fn rust/src/poparser.rs handle_gc
//@@ ret r
//@@ contract
    requires can_act(St::GC, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::GC, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_mark_at(parser.current_token@); }
//@@ ghost tail
    proof {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        assert(parser.current_entry@.comment->0 =~= add_line((mflush(pst(*old(parser)))->Ok_0).entry.comment, old(parser).current_token@.skip(3)));
    }
//@@ end

//@@ block handle_oc
//@@ fn rust/src/poparser.rs handle_oc
//@@ ret r
//@@ contract
    requires can_act(St::OC, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::OC, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_mark_at(parser.current_token@); }
//@@ ghost before 0
    let ghost vx_p = *parser;
    let ghost vx_t = wtoks(parser.current_token@.skip(3));
    proof { lemma_wtoks_nonempty(parser.current_token@.skip(3)); assert(parser.current_entry@.occurrences + occs_of(vx_t.take(0)) =~= parser.current_entry@.occurrences); }
//@@ loop 0
        invariant
            vx_strrefs(vx_it0.seq()) == vx_t,
            pst(*parser) == with_entry(pst(vx_p), POEntryV { occurrences: vx_p.current_entry@.occurrences + occs_of(vx_t.take(vx_it0.index@)), ..vx_p.current_entry@ }),
//@@ ghost loop 0 start
    proof { assert(vx_strrefs(vx_it0.seq())[vx_it0.index@] == occ@); assert(occ@.len() > 0); }
    let ghost vx_b = parser.current_entry@.occurrences;
//@@ loop 1
        invariant
            vx_it1.seq() == line@,
            line_isdigit,
            forall|i: int| 0 <= i < vx_it1.index@ ==> is_digit(#[trigger] line@[i]),
//@@ ghost after 1
    proof {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        assert(line_isdigit == all_digits(line@));
    }
//@@ ghost loop 0 end
    proof {
        assert(vx_t.take(vx_it0.index@ + 1).drop_last() =~= vx_t.take(vx_it0.index@));
        assert(occs_of(vx_t.take(vx_it0.index@ + 1)) =~= occs_of(vx_t.take(vx_it0.index@)).push(occ_of(occ@)));
        assert(parser.current_entry@.occurrences =~= vx_b.push(occ_of(occ@)));
    }
//@@ ghost tail
    proof { assert(vx_t.take(vx_t.len() as int) =~= vx_t); }
//@@ end

//@@ block handle_fl
//@@ fn rust/src/poparser.rs handle_fl
//@@ ret r
//@@ contract
    requires can_act(St::FL, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::FL, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_mark_at(parser.current_token@); }
//@@ ghost before 0
    let ghost vx_p = *parser;
    let ghost vx_t = split(parser.current_token@.skip(3), ',');
    proof { assert(parser.current_entry@.flags + trims(vx_t.take(0)) =~= parser.current_entry@.flags); }
//@@ loop 0
        invariant
            vx_strrefs(vx_it0.seq()) == vx_t,
            pst(*parser) == with_entry(pst(vx_p), POEntryV { flags: vx_p.current_entry@.flags + trims(vx_t.take(vx_it0.index@)), ..vx_p.current_entry@ }),
//@@ ghost loop 0 start
    proof { assert(vx_strrefs(vx_it0.seq())[vx_it0.index@] == substr@); }
    let ghost vx_b = parser.current_entry@.flags;
//@@ ghost loop 0 end
    proof {
        assert(trims(vx_t.take(vx_it0.index@ + 1)) =~= trims(vx_t.take(vx_it0.index@)).push(trim(substr@)));
        assert(parser.current_entry@.flags =~= vx_b.push(trim(substr@)));
    }
//@@ ghost after 0
    proof { assert(vx_t.take(vx_t.len() as int) =~= vx_t); }
//@@ end

//@@ block handle_pp
//@@ fn rust/src/poparser.rs handle_pp
//@@ ret r
//@@ contract
    requires can_act(St::PP, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::PP, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_pm
//@@ fn rust/src/poparser.rs handle_pm
//@@ ret r
//@@ contract
    requires can_act(St::PM, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::PM, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_pc
//@@ fn rust/src/poparser.rs handle_pc
//@@ ret r
//@@ contract
    requires can_act(St::PC, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::PC, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_ct
//@@ fn rust/src/poparser.rs handle_ct
//@@ ret r
//@@ contract
    requires can_act(St::CT, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::CT, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_mi
//@@ fn rust/src/poparser.rs handle_mi
//@@ ret r
//@@ contract
    requires can_act(St::MI, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::MI, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_mp
//@@ fn rust/src/poparser.rs handle_mp
//@@ ret r
//@@ contract
    requires can_act(St::MP, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::MP, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_ms
//@@ fn rust/src/poparser.rs handle_ms
//@@ ret r
//@@ contract
    requires can_act(St::MS, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::MS, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ end

//@@ block handle_mc
//@@ fn rust/src/poparser.rs handle_mc
//@@ ret r
//@@ contract
    requires can_act(St::MC, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::MC, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_quoted_at(parser.current_token@); }
//@@ ghost tail
    proof {
        let vx_v = inner(old(parser).current_token@);
        let vx_o = old(parser).current_entry@;
        if old(parser).current_state == St::MX {
            assert(parser.current_entry@.msgstr_plural =~= vx_o.msgstr_plural.update(old(parser).msgstr_index as int, vx_o.msgstr_plural[old(parser).msgstr_index as int] + vx_v));
        }
    }
//@@ end

//@@ block handle_mx
//@@ fn rust/src/poparser.rs handle_mx
//@@ ret r
//@@ contract
    requires can_act(St::MX, pst(*old(parser)), old(parser).current_token@),
    ensures same_res(r, *final(parser), act(St::MX, pst(*old(parser)), old(parser).current_token@, old(parser).entry_obsolete)),
//@@ ghost start
    proof { lemma_plural_at(parser.current_token@); axiom_string_len(parser.current_token); }
//@@ ghost before 0
    let ghost vx_p = *parser;
    let ghost vx_s = vx_p.current_entry@.msgstr_plural;
    proof { assert(vx_s + Seq::new(0, |i: int| Seq::<char>::empty()) =~= vx_s); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ loop 0
        invariant
            parser.msgstr_index == vx_p.msgstr_index,
            pst(*parser) == with_entry(pst(vx_p), POEntryV { msgstr_plural: vx_s + Seq::new(vx_it0.index@ as nat, |i: int| Seq::<char>::empty()), ..vx_p.current_entry@ }),
//@@ ghost loop 0 start
    let ghost vx_b = parser.current_entry@.msgstr_plural;
//@@ ghost loop 0 end
    proof {
        assert(parser.current_entry@.msgstr_plural =~= vx_b.push(Seq::empty()));
        assert(vx_b.push(Seq::empty()) =~= vx_s + Seq::new((vx_it0.index@ + 1) as nat, |i: int| Seq::<char>::empty()));
    }
//@@ ghost tail
    proof {
        let vx_o = old(parser).current_entry@.msgstr_plural;
        assert(parser.current_entry@.msgstr_plural =~= fill(vx_o, (old(parser).msgstr_index + 1) as nat).update(old(parser).msgstr_index as int, mx_value(old(parser).current_token@)));
    }
//@@ end

//@@ block factory
//@@ fn rust/src/poparser.rs transition_fn_factory
//@@ ret r
//@@ contract
    requires action != St::ST ==> can_act(action, pst(*old(vx_arg)), old(vx_arg).current_token@),
    ensures same_res(r, *final(vx_arg), act(action, pst(*old(vx_arg)), old(vx_arg).current_token@, old(vx_arg).entry_obsolete)),
//@@ end

//@@ block process
//@@ fn rust/src/poparser.rs POFileParser::process
//@@ ret r
//@@ contract
    requires can_act(*symbol, pst(*old(self)), old(self).current_token@),
    ensures
        same_res(r, *final(self), proc(*symbol, pst(*old(self)), old(self).current_token@, old(self).entry_obsolete)),
        r is Ok ==> wf_pst(pst(*final(self))) && final(self).current_line == old(self).current_line,
//@@ ghost start
    proof { lemma_proc_wf(*symbol, pst(*self), self.current_token@, self.entry_obsolete); }
//@@ end
