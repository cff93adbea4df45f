//@@ block escape
//@@ fn rust/src/escaping.rs escape
//@@ ret r
//@@ contract
    ensures
        r@ == esc(text@),
        // C01: the escaped form is lossless and hides every special character
        unesc(r@) == Some(text@),
        no_raw(r@),
        quotes_ok(r@),
//@@ loop 0
        invariant
            ret@ == esc(text@.take(vx_it0.index@)),
            vx_it0.seq() == text@,
//@@ ghost loop 0 start
    proof {
        let k = vx_it0.index@;
        reveal_strlit("\\\""); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t");
        reveal_strlit("\\v"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\\\");
        assert(text@.take(k + 1).drop_last() =~= text@.take(k));
        assert(text@.take(k + 1).last() == text@[k]);
        let e = esc_char(text@[k]);
        assert("\\\""@ =~= seq!['\\', '"']); assert("\\\\"@ =~= seq!['\\', '\\']);
        assert("\\n"@ =~= seq!['\\', 'n']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\t"@ =~= seq!['\\', 't']);
        assert("\\v"@ =~= seq!['\\', 'v']); assert("\\b"@ =~= seq!['\\', 'b']); assert("\\f"@ =~= seq!['\\', 'f']);
        assert(esc(text@.take(k)) + seq![text@[k]] =~= esc(text@.take(k)).push(text@[k]));
    }
//@@ ghost after 0
    proof {
        assert(text@.take(text@.len() as int) =~= text@);
        lemma_unesc_esc(text@);
        lemma_esc_shape(text@);
    }
//@@ end

//@@ block esc_next
//@@ fn rust/src/escaping.rs Iterator for EscapedStringInterpreter::next
//@@ opt flat
//@@ ret r
//@@ contract
    ensures
        ({
            let s = old(self).characters.remaining();
            let t = final(self).characters.remaining();
            if s.len() == 0 {
                r is None && t == s
            } else if s[0] != '\\' {
                r == Some(core::result::Result::<char, EscapingError>::Ok(s[0])) && t == s.skip(1)
            } else if s.len() >= 2 && esc_meaning(s[1]) is Some {
                r == Some(core::result::Result::<char, EscapingError>::Ok(esc_meaning(s[1])->0)) && t == s.skip(2)
            } else {
                r is Some && r->0 is Err
            }
        }),
        r is Some && r->0 is Ok && old(self).characters.decrease() is Some ==>
            final(self).characters.decrease() is Some
            && final(self).characters.decrease()->0 < old(self).characters.decrease()->0,
//@@ ghost start
    proof {
        assert forall|s: Seq<char>| s.len() >= 1 implies #[trigger] s.drop_first() == s.skip(1) by { assert(s.drop_first() =~= s.skip(1)); }
        assert forall|s: Seq<char>| s.len() >= 2 implies #[trigger] s.skip(1).drop_first() == s.skip(2) by { assert(s.skip(1).drop_first() =~= s.skip(2)); }
    }
//@@ end

//@@ block unescape
//@@ fn rust/src/escaping.rs unescape
//@@ ret r
//@@ contract
    ensures
        // C02: left to right, each escape once, fails exactly on malformed ones
        match unesc(text@) {
            Some(t) => r is Ok && r->Ok_0@ == t,
            None => r is Err,
        },
//@@ ghost start
    proof {
        if !text@.contains('\\') { lemma_unesc_plain(text@); }
    }
//@@ end
