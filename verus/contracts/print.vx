//@@ block field_new
//@@ fn rust/src/entry/mod.rs POStringField::new
//@@ ret r
//@@ contract
    ensures r == (POStringField { fieldname, delflag, value, plural_index, wrapwidth }),
//@@ end

//@@ block ends_in_open_escape
//@@ fn rust/src/entry/mod.rs ends_in_open_escape
//@@ ret r
//@@ contract
    ensures r == open_esc(text@),
//@@ loop 0
        invariant
            vx_it0.seq() == text@,
            open == open_esc(text@.take(vx_it0.index@)),
//@@ ghost loop 0 start
    proof {
        let k = vx_it0.index@;
        assert(text@.take(k + 1).drop_last() =~= text@.take(k));
        assert(text@.take(k + 1).last() == text@[k]);
    }
//@@ ghost after 0
    proof { assert(text@.take(text@.len() as int) =~= text@); }
//@@ end

//@@ block field_fmt
//@@ fn rust/src/entry/mod.rs fmt::Display for POStringField::fmt
//@@ opt flat
//@@ ret r
//@@ contract
    requires old(f).text@.len() == 0,
    ensures r is Ok, is_field(self.delflag@, keyword(self.fieldname@, self.plural_index@), self.value@, self.wrapwidth as int, final(f).text@),
//@@ ghost start
    hide(is_parts);
    hide(parts_to);
    broadcast use axiom_str_len;
    let ghost s = esc(self.value@);
    let ghost w = self.wrapwidth as int;
    let ghost del = self.delflag@;
    let ghost kw = keyword(self.fieldname@, self.plural_index@);
    let ghost mut ps: Seq<Seq<char>> = Seq::empty();
    proof {
        reveal_strlit(""); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(" \""); reveal_strlit("\"\n"); reveal_strlit("\"");
        assert(""@ =~= Seq::<char>::empty());         assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert(" \""@ =~= seq![' ', '"']); assert("\"\n"@ =~= seq!['"', '\n']); assert("\""@ =~= seq!['"']);
    }
//@@ loop 0
        invariant
            is_wrap(s, w, vx_strs(vx_it0.seq())),
            parts_to(s, w, vx_strs(vx_it0.seq()), vx_it0.index@, vx_strs(lines@)),
            lines@.len() > 0,
            vx_it0.index@ == vx_it0.seq().len() ==> is_parts(s, w, vx_strs(lines@)),
//@@ ghost before 0
    let ghost vx_l0 = lines@;
    proof { reveal_strlit(""); assert(vx_strs(vx_l0) =~= seq![Seq::<char>::empty()]); assert forall|q: Seq<Seq<char>>| parts_to(s, w, q, 0, vx_strs(vx_l0)) by { lemma_parts_start(s, w, q, vx_strs(vx_l0)); } }
//@@ ghost loop 0 start
    let ghost q = vx_strs(vx_it0.seq());
    let ghost k = vx_it0.index@;
    let ghost p = vx_strs(lines@);
    proof {
        assert(q[k] == line@);
        if open_esc(p.last()) { lemma_parts_grow(s, w, q, k, p); } else { lemma_parts_push(s, w, q, k, p); }
    }
//@@ ghost loop 0 end
    proof {
        if open_esc(p.last()) {
            assert(vx_strs(lines@) =~= p.update(p.len() - 1, p.last() + q[k]));
        } else {
            assert(vx_strs(lines@) =~= p.push(q[k]));
        }
        lemma_parts_done(s, w, q, k + 1, vx_strs(lines@));
    }
//@@ ghost pre remove
    proof {
        ps = vx_strs(lines@);
        if real_width <= self.wrapwidth {
            assert(ps =~= seq![s]);
            lemma_parts_one(s, w, ps);
        }
        assert(ps.len() > 0) by { reveal(is_parts); }
    }
//@@ ghost before 1
    let ghost vx_l1 = lines@;
    proof {
        assert(vx_strs(vx_l1) =~= ps.skip(1));
        assert(ps.take(1) =~= seq![ps[0]]);
        assert(ret@ =~= field_text(del, kw, ps.take(1)));
    }
//@@ loop 1
        invariant
            vx_it1.seq() == vx_l1,
            ret@ == field_text(del, kw, ps.take(vx_it1.index@ + 1)),
//@@ ghost loop 1 start
    let ghost ret1 = ret@;
    proof {
        let k = vx_it1.index@;
        assert(vx_strs(vx_l1)[k] == line@);
        assert(ps.take(k + 2).drop_last() =~= ps.take(k + 1));
        assert(ps.take(k + 2).last() == line@);
    }
//@@ ghost loop 1 end
    proof {
        assert(ret@ =~= ret1 + (del + seq!['"'] + line@ + seq!['"', '\n']));
    }
//@@ ghost after 1
    proof {
        assert(ps.take(ps.len() as int) =~= ps);
        assert(Seq::<char>::empty() + ret@ =~= ret@);
        assert(old(f).text@ + ret@ =~= ret@);
        assert(is_parts(s, w, ps));
    }
//@@ end

//@@ block default_msgstr_formatter
//@@ fn rust/src/entry/mod.rs default_mo_entry_msgstr_formatter
//@@ ret r
//@@ contract
    ensures item_ok(Item::Field(delflag@, "msgstr"@, msgstr@), wrapwidth as int, r@),
//@@ ghost start
    proof { reveal_strlit(""); }
//@@ end

//@@ block mo_entry_with
//@@ fn rust/src/entry/mod.rs mo_entry_to_string_with_msgstr_formatter
//@@ ret r
//@@ contract
    requires forall|a: &str, b: &str, c: usize| call_requires(*msgstr_formatter, (a, b, c)),
    ensures
        entry@.msgstr_plural.len() > 0 ==> is_items(mo_items(entry@, delflag@), wrapwidth as int, r@),
        entry@.msgstr_plural.len() == 0 ==> exists|t: Seq<char>, m: &str, u: String|
            is_items(mo_items3(entry@, delflag@), wrapwidth as int, t) && m@ == otext(entry@.msgstr)
            && #[trigger] call_ensures(*msgstr_formatter, (m, delflag, wrapwidth), u) && r@ == #[trigger] (t + u@),
//@@ ghost start
    hide(is_items);
    hide(item_ok);
    let ghost w = wrapwidth as int;
    let ghost e = entry@;
    let ghost del = delflag@;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lemma_no_items(w); }
//@@ ghost past msgctxt
    proof { if e.msgctxt is Some { lemma_item(Seq::empty(), w, Seq::empty(), Item::Field(del, "msgctxt"@, e.msgctxt->0), ret@); } assert(is_items(mo_items1(e, del), w, ret@)); }
    let ghost r1 = ret@;
//@@ ghost past msgid
    proof { lemma_item(mo_items1(e, del), w, r1, Item::Field(del, "msgid"@, e.msgid), ret@); }
    let ghost r2 = ret@;
//@@ ghost past msgid_plural
    proof { if e.msgid_plural is Some { lemma_item(mo_items2(e, del), w, r2, Item::Field(del, "msgid_plural"@, e.msgid_plural->0), ret@); } assert(is_items(mo_items3(e, del), w, ret@)); }
    let ghost r3 = ret@;
    let ghost ps = e.msgstr_plural;
    let ghost its3 = mo_items3(e, del);
    proof { assert(plural_items(its3, del, ps.take(0)) =~= its3); assert(ps.take(ps.len() as int) =~= ps); }
//@@ loop 0
        invariant
            vx_n == vx_it0.index@,
            vx_it0.seq().len() == ps.len(),
            forall|i: int| 0 <= i < ps.len() ==> (#[trigger] vx_it0.seq()[i])@ == ps[i],
            is_items(plural_items(its3, del, ps.take(vx_it0.index@)), w, ret@),
//@@ ghost loop 0 start
    let ghost r4 = ret@;
    let ghost it = Item::Field(del, keyword("msgstr"@, dec(vx_it0.index@ as nat)), ps[vx_it0.index@]);
    proof { assert((vx_it0.seq()[vx_it0.index@])@ == ps[vx_it0.index@]); }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        lemma_item(plural_items(its3, del, ps.take(k)), w, r4, it, ret@);
        assert(plural_items(its3, del, ps.take(k + 1)) =~= plural_items(its3, del, ps.take(k)).push(it));
    }
//@@ end

//@@ block mo_entry_to_string
//@@ fn rust/src/entry/mod.rs mo_entry_to_string
//@@ ret r
//@@ contract
    ensures is_items(mo_items(entry@, delflag@), wrapwidth as int, r@),
//@@ ghost start
    hide(is_items);
    hide(item_ok);
    proof {
        assert forall|t: Seq<char>, u: Seq<char>, it: Item|
            is_items(mo_items3(entry@, delflag@), wrapwidth as int, t) && #[trigger] item_ok(it, wrapwidth as int, u) implies
            is_items(mo_items3(entry@, delflag@).push(it), wrapwidth as int, #[trigger] (t + u)) by {
            lemma_item(mo_items3(entry@, delflag@), wrapwidth as int, t, it, t + u);
        }
    }
//@@ end

//@@ block format_comment
//@@ fn rust/src/entry/poentry.rs POEntry::format_comment_inplace
//@@ contract
    ensures added(cmt_items(prefix@, lines(comment@)), wrapwidth as int, old(target)@, final(target)@),
//@@ ghost start
    hide(is_items);
    hide(item_ok);
    hide(added);
    hide(added1);
    hide(is_wrap);
    hide(is_cut);
    hide(cmt_items);
    hide(lines);
    broadcast use axiom_str_len;
    let ghost t0 = target@;
    let ghost m = prefix@;
    let ghost ls = lines(comment@);
    let ghost w = wrapwidth as int;
    proof {
        lemma_no_items(w);
        assert(t0 + Seq::<char>::empty() =~= t0);
        reveal(added);
        assert(cmt_items(m, ls.take(0)) =~= Seq::<Item>::empty()) by { reveal(cmt_items); }
        assert(ls.take(ls.len() as int) =~= ls);
    }
//@@ loop 0
        invariant
            vx_it0.seq().len() == ls.len(),
            forall|i: int| 0 <= i < ls.len() ==> (#[trigger] vx_it0.seq()[i])@ == ls[i],
            added(cmt_items(m, ls.take(vx_it0.index@)), w, t0, target@),
//@@ ghost loop 0 start
    let ghost t1 = target@;
    let ghost it = Item::Cmt(m, line@);
    proof {
        let k = vx_it0.index@;
        assert((vx_it0.seq()[k])@ == ls[k]);
        assert(cmt_items(m, ls.take(k + 1)) =~= cmt_items(m, ls.take(k)).push(it)) by { reveal(cmt_items); }
        lemma_cut_one(line@);
        assert forall|w2: int, q: Seq<Seq<char>>| #[trigger] is_wrap(line@, w2, q) implies is_cut(line@, q) && q.len() > 0 by { lemma_wrap_cut(line@, w2, q); }
    }
//@@ loop 1
        invariant
            is_cut(line@, vx_strs(vx_it1.seq())), vx_it1.seq().len() > 0,
            target@ == t1 + marked(m, vx_strs(vx_it1.seq()).take(vx_it1.index@)),
            vx_it1.index@ == vx_it1.seq().len() ==> added1(it, w, t1, target@),
//@@ ghost loop 1 start
    let ghost q = vx_strs(vx_it1.seq());
    let ghost t2 = target@;
    proof {
        let k = vx_it1.index@;
        assert(q[k] == wrapped@);
        assert(q.take(k + 1).drop_last() =~= q.take(k));
        assert(q.take(q.len() as int) =~= q);
    }
//@@ ghost loop 1 end
    proof {
        let k = vx_it1.index@;
        assert(target@ =~= t1 + marked(m, q.take(k + 1)));
        assert(k + 1 == q.len() ==> added1(it, w, t1, target@)) by { if k + 1 == q.len() { lemma_cmt_item(line@, w, m, q, t1, target@); } }
    }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        if target@ =~= t1 + m + line@ + seq!['\n'] {
            assert(seq![line@].drop_last() =~= Seq::<Seq<char>>::empty());
            reveal_with_fuel(marked, 3);
            assert(target@ =~= t1 + marked(m, seq![line@]));
            lemma_cmt_item(line@, w, m, seq![line@], t1, target@);
        }
        assert(added1(it, w, t1, target@));
        lemma_added(cmt_items(m, ls.take(k)), w, t0, t1, it, target@);
    }
//@@ end

//@@ block po_to_string_with
//@@ fn rust/src/entry/poentry.rs POEntry::to_string_with_wrapwidth
//@@ ret r
//@@ contract
    ensures is_items(po_items(self@), wrapwidth as int, r@),
//@@ ghost start
    hide(is_items);
    hide(item_ok);
    hide(is_groups);
    hide(flat);
    hide(added);
    hide(is_field);
    hide(join);
    hide(cmt_items);
    hide(mo_items);
    broadcast use axiom_str_len;
    let ghost w = wrapwidth as int;
    let ghost e = self@;
    let ghost mut g: Seq<Seq<Seq<char>>> = Seq::empty();
    let ghost texts = occ_texts(e.occurrences);
    proof {
        lemma_no_items(w);
        reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
        reveal_strlit("# "); assert("# "@ =~= seq!['#', ' ']);
        reveal_strlit("#. "); assert("#. "@ =~= seq!['#', '.', ' ']);
        reveal_strlit("#: "); assert("#: "@ =~= seq!['#', ':', ' ']);
        reveal_strlit("#, "); assert("#, "@ =~= seq!['#', ',', ' ']);
        reveal_strlit("#"); assert("#"@ =~= seq!['#']);
        reveal_strlit("| "); assert("| "@ =~= seq!['|', ' ']);
        reveal_strlit("#~ "); assert("#~ "@ =~= seq!['#', '~', ' ']);
        reveal_strlit(":"); assert(":"@ =~= seq![':']);
        reveal_strlit(" "); assert(" "@ =~= seq![' ']);
        reveal_strlit(", "); assert(", "@ =~= seq![',', ' ']);
        reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    }
//@@ ghost past tcomment
    proof { lemma_opt_cmt(Seq::empty(), w, Seq::empty(), seq!['#', ' '], e.tcomment, ret@); assert(is_items(po_items1(e), w, ret@)); }
    let ghost r1 = ret@;
//@@ ghost past comment
    proof { lemma_opt_cmt(po_items1(e), w, r1, seq!['#', '.', ' '], e.comment, ret@); assert(is_items(po_items2(e), w, ret@)); }
    let ghost r2 = ret@;
//@@ loop 0
        invariant
            vx_it0.seq().len() == e.occurrences.len(),
            forall|i: int| 0 <= i < e.occurrences.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.occurrences@[i],
            vx_strs(vx_out@) == texts.take(vx_it0.index@),
//@@ ghost loop 0 start
    let ghost vx_o0 = vx_strs(vx_out@);
    proof {
        let k = vx_it0.index@;
        assert(*vx_it0.seq()[k] == self.occurrences@[k]);
        assert(e.occurrences[k] == (self.occurrences@[k].0@, self.occurrences@[k].1@));
    }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        assert(vx_out@.last()@ =~= texts[k]);
        assert(vx_strs(vx_out@) =~= vx_o0.push(texts[k]));
        assert(vx_strs(vx_out@) =~= texts.take(k + 1));
    }
//@@ ghost before 1
    proof {
        assert(vx_strs(whitespace_sep_occurrences@) =~= texts);
        axiom_strings_fit(&whitespace_sep_occurrences);
        assert(texts.take(0) =~= Seq::<Seq<char>>::empty());
        assert(vx_strs(files_repr@) =~= occ_lines(g));
        reveal(flat);
        assert(flat(g) + vx_strrefs(current_line_occs@) =~= texts.take(0));
    }
//@@ loop 1
        invariant
            vx_it1.seq().len() == texts.len(),
            forall|i: int| 0 <= i < texts.len() ==> (#[trigger] vx_it1.seq()[i])@ == texts[i],
            vx_it1.index@ > 0 ==> current_line_occs@.len() > 0,
            un(current_width) <= 2 + texts_len(texts.take(vx_it1.index@)),
            vx_strs(files_repr@) == occ_lines(g),
            flat(g) + vx_strrefs(current_line_occs@) == texts.take(vx_it1.index@),
            forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0,
//@@ ghost loop 1 start
    let ghost fr0 = files_repr@;
    let ghost cur0 = current_line_occs@;
    let ghost g0 = g;
    proof {
        let k = vx_it1.index@;
        assert((vx_it1.seq()[k])@ == texts[k]);
        lemma_bytes_take(texts, k);
        lemma_bytes_take(texts, k + 1);
    }
//@@ ghost loop 1 end
    proof {
        let k = vx_it1.index@;
        if files_repr@.len() > fr0.len() {
            g = g.push(vx_strrefs(cur0));
            lemma_flat_push(g0, vx_strrefs(cur0));
            assert(files_repr@.last()@ == "#: "@ + join(vx_strrefs(cur0), " "@)) by { assert(files_repr@.last()@ =~= "#: "@ + join(vx_strrefs(cur0), " "@)); }
            assert(vx_strs(files_repr@) =~= vx_strs(fr0).push(files_repr@.last()@));
            assert(vx_strs(files_repr@) =~= occ_lines(g));
            assert(flat(g) + vx_strrefs(current_line_occs@) =~= texts.take(k + 1));
        } else {
            assert(vx_strrefs(current_line_occs@) =~= vx_strrefs(cur0).push(texts[k]));
            assert(flat(g) + vx_strrefs(current_line_occs@) =~= texts.take(k + 1));
        }
    }
//@@ ghost after 1
    proof {
        let cur = vx_strrefs(current_line_occs@);
        let g1 = g;
        assert(texts.take(texts.len() as int) =~= texts);
        g = g.push(cur);
        lemma_flat_push(g1, cur);
        assert forall|x: String| x@ == "#: "@ + join(cur, " "@) implies #[trigger] vx_strs(files_repr@.push(x)) == occ_lines(g) by {
            assert(vx_strs(files_repr@.push(x)) =~= vx_strs(files_repr@).push(x@));
            assert(vx_strs(files_repr@.push(x)) =~= occ_lines(g));
        }
        assert(Seq::<char>::empty() + "#: "@ =~= "#: "@);
        assert(is_groups(texts, g)) by { reveal(is_groups); }
    }
//@@ ghost past occurrences
    proof {
        if !e.obsolete && e.occurrences.len() > 0 {
            assert(ret@ =~= r2 + join(occ_lines(g), seq!['\n']) + seq!['\n']);
            lemma_occs_item(texts, g, w, r2, ret@);
            lemma_item(po_items2(e), w, r2, Item::Occs(texts), ret@);
        }
        assert(is_items(po_items3(e), w, ret@));
    }
    let ghost r3 = ret@;
//@@ ghost past flags
    proof {
        if e.flags.len() > 0 {
            let u = seq!['#', ',', ' '] + join(e.flags, seq![',', ' ']) + seq!['\n'];
            assert(ret@ =~= r3 + u);
            lemma_flags_item(e.flags, w, r3, ret@);
            lemma_item(po_items3(e), w, r3, Item::Flags(e.flags), ret@);
        }
        assert(is_items(po_items4(e), w, ret@));
    }
    let ghost r4 = ret@;
//@@ ghost past previous_msgctxt
    proof {
        assert(prefix@ =~= prev_mark(e));
        lemma_opt_field(po_items4(e), w, r4, prev_mark(e), "msgctxt"@, e.previous_msgctxt, ret@);
        assert(is_items(po_items5(e), w, ret@));
    }
    let ghost r5 = ret@;
//@@ ghost past previous_msgid
    proof { lemma_opt_field(po_items5(e), w, r5, prev_mark(e), "msgid"@, e.previous_msgid, ret@); assert(is_items(po_items6(e), w, ret@)); }
    let ghost r6 = ret@;
//@@ ghost past previous_msgid_plural
    proof { lemma_opt_field(po_items6(e), w, r6, prev_mark(e), "msgid_plural"@, e.previous_msgid_plural, ret@); assert(is_items(po_items7(e), w, ret@)); }
    let ghost r7 = ret@;
//@@ ghost tail
    proof { reveal(added); lemma_items(po_items7(e), w, r7, mo_items(mo_of(e), po_mark(e)), ret@); }
//@@ end
