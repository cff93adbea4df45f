//@@ block find_unescaped_quote
//@@ fn rust/src/poparser.rs find_unescaped_double_quote_index
//@@ ret r
//@@ contract
    ensures
        r is None == quotes_ok(line@),
        r is Some ==> r->0 < line@.len(),
//@@ loop 0
        invariant
            vx_it0.seq() == line@,
            vx_n == vx_it0.index@,
            escaped == open_esc(line@.take(vx_it0.index@)),
            forall|i: int| 0 <= i < vx_it0.index@ && #[trigger] line@[i] == '"' ==> open_esc(line@.take(i)),
//@@ ghost loop 0 start
    proof {
        let k = vx_it0.index@;
        assert(line@.take(k + 1).drop_last() =~= line@.take(k));
        assert(line@.take(k + 1).last() == line@[k]);
    }
//@@ ghost before 0
    proof { assert(line@.take(0) =~= Seq::<char>::empty()); }
//@@ end

//@@ block check_quoted
//@@ fn rust/src/poparser.rs maybe_raise_unescaped_double_quote_found_error
//@@ ret r
//@@ contract
    requires index_offset <= isize::MAX + 3,
    ensures
        match qerr(text@) {
            Some(k) => r is Err && perr(r->Err_0) == PErr::At(k, linenum as nat),
            None => r is Ok,
        },
//@@ ghost start
    broadcast use axiom_str_len;
    proof {
        lemma_cb_ends(text@);
        lemma_blen_mono(text@, 0, text@.len() as int);
        assert(text@.take(0) =~= Seq::<char>::empty());
        assert(text@.take(text@.len() as int) =~= text@);
        if text@.len() >= 2 && text@[0] == '"' && text@.last() == '"' {
            assert(ascii_to(text@, 1));
            lemma_ascii_at(text@, 1);
            lemma_ascii_last(text@);
            let t = text@.subrange(1, text@.len() - 1);
        }
        if text@.len() == 1 && text@[0] == '"' { reveal_with_fuel(blen, 2); assert(text@.drop_last() =~= Seq::<char>::empty()); }
    }
//@@ end

//@@ block maybe_filename_new
//@@ fn rust/src/errors.rs MaybeFilename::new
//@@ end

//@@ block lstrip_bom
//@@ fn rust/src/poparser.rs maybe_lstrip_utf8_bom
//@@ ret r
//@@ contract
    ensures r@ == lstrip(line@, '\u{feff}'),
//@@ end

//@@ block tokens_from_line
//@@ fn rust/src/poparser.rs POFileParser::tokens_from_line
//@@ ret r
//@@ contract
    ensures vx_strs(r@) == toks3(line@),
//@@ ghost before 0
    let ghost mut vx_t: Seq<Seq<char>> = Seq::empty();
    proof { assert(vx_strs(tokens@) =~= vx_t); }
//@@ loop 0
        invariant
            vx_strrefs(vx_it0.seq()) == atoks(line@),
            vx_it0.index@ < 3,
            vx_t == atoks(line@).take(vx_it0.index@),
            vx_strs(tokens@) == vx_t,
            vx_it0.seq().len() == atoks(line@).len(),
//@@ ghost loop 0 start
    let ghost vx_t0 = tokens@;
    proof {
        assert(vx_strrefs(vx_it0.seq())[vx_it0.index@] == token@);
        vx_t = vx_t.push(token@);
        assert(vx_t =~= atoks(line@).take(vx_it0.index@ + 1));
        assert forall|v: Seq<String>| v.len() == vx_t0.len() + 1 && v.drop_last() == vx_t0 && v.last()@ == token@ implies #[trigger] vx_strs(v) == vx_t by {
            assert forall|i: int| 0 <= i < v.len() implies vx_strs(v)[i] == #[trigger] vx_t[i] by {
                if i < vx_t0.len() { assert(v[i] == v.drop_last()[i]); assert(vx_strs(vx_t0)[i] == vx_t0[i]@); }
            }
            assert(vx_strs(v) =~= vx_t);
        }
    }
//@@ ghost loop 0 end
    proof { assert(tokens@.drop_last() =~= vx_t0); }
//@@ ghost tail
    proof {
        assert(vx_t.len() == tokens@.len());
        if vx_t.len() < 3 { assert(atoks(line@).take(atoks(line@).len() as int) =~= atoks(line@)); }
        else { assert(tokens@.drop_last().push(tokens@.last()) =~= tokens@); assert(vx_strs(tokens@) == vx_t); assert(vx_t =~= toks3(line@)); }
    }
//@@ end

//@@ block keywords
//@@ fn rust/src/poparser.rs static KEYWORDS
//@@ opt rename VxMap->VxKwMap
//@@ ret r
//@@ contract
    ensures forall|t: Seq<char>| (#[trigger] r@.contains_key(t)) == (kw(t) is Some) && (kw(t) is Some ==> r@[t] == kw(t)->0),
//@@ ghost start
    proof { lemma_kw_names(); }
//@@ end

//@@ block prev_keywords
//@@ fn rust/src/poparser.rs static PREV_KEYWORDS
//@@ opt rename VxMap->VxKwMap
//@@ ret r
//@@ contract
    ensures forall|t: Seq<char>| (#[trigger] r@.contains_key(t)) == (pkw(t) is Some) && (pkw(t) is Some ==> r@[t] == pkw(t)->0),
//@@ ghost start
    proof { lemma_kw_names(); }
//@@ end

//@@ block build_transitions
//@@ fn @OUT/poparser-transitions.rs build_transitions
//@@ ret r
//@@ contract
    ensures is_trans(r),
//@@ end

//@@ block transitions
//@@ fn rust/src/poparser.rs static TRANSITIONS
//@@ ret r
//@@ contract
    ensures is_trans(r),
//@@ end
