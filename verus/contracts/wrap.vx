//@@ block get_linebreaks
//@@ fn rust/src/twrapper.rs get_linebreaks
//@@ ret r
//@@ contract
    requires lb_pos(linebreaks@) == breaks(text@), are_breaks(text@, breaks(text@)),
    ensures are_cuts(text@, wrapwidth as int, r@),
//@@ ghost start
    hide(cuts_to);
    hide(are_cuts);
    hide(are_breaks);
    hide(bytes_ok);
    hide(bound);
    hide(is_cb);
    hide(cidx);
    hide(blen);
    hide(cw);
    hide(bsum);
    let ghost s = text@;
    let ghost bs = breaks(s);
    let ghost end = blen(s) as int;
    broadcast use axiom_str_len;
    proof { lemma_breaks(s); }
//@@ loop 0
        invariant
            vx_it0.seq().len() == s.len(),
            forall|i: int| 0 <= i < s.len() ==> (#[trigger] vx_it0.seq()[i]).0 == blen(s.take(i)) && vx_it0.seq()[i].1 == s[i],
            forall|b: usize| #[trigger] mapped(vx_out@, b) == bw_below(s, vx_it0.index@, b as int),
//@@ ghost loop 0 start
    let ghost m0: Map<usize, usize> = vx_out@;
    let ghost kx = vx_it0.index@;
    proof { lemma_take_byte(s, kx); assert(vx_it0.seq()[kx].1 == s[kx]); }
//@@ ghost loop 0 end
    proof {
        reveal(cw);
        lemma_map_step(s, m0, kx, blen(s.take(kx)) as usize, vx_v);
    }
//@@ loop 1
        invariant
            vx_it1.seq().len() == linebreaks@.len(),
            forall|i: int| 0 <= i < linebreaks@.len() ==> *(#[trigger] vx_it1.seq()[i]) == linebreaks@[i],
            vx_n == vx_it1.index@,
            accum_char_width <= before(bs, vx_it1.index@),
            accum_char_bindex <= before(bs, vx_it1.index@),
            un(last_break_width) + bsum(s, bound(ret@, end, ret@.len() as int), before(bs, vx_it1.index@)) <= un(accum_char_width),
            last_break_width <= accum_char_width,
            cuts_to(s, wrapwidth as int, ret@, vx_it1.index@),
//@@ ghost loop 1 start
    let ghost j = vx_it1.index@;
    let ghost p = bound(ret@, end, ret@.len() as int);
    let ghost prev = before(bs, j);
    let ghost cuts0 = ret@;
    let ghost a0 = accum_char_width as int;
    proof {
        assert(*vx_it1.seq()[j] == linebreaks@[j]);
        assert(lb_pos(linebreaks@)[j] == bs[j]);
        assert(*lb == bs[j]);
        lemma_break_step(s, j);
        lemma_bsum_cb(s, a0, bs[j]);
        lemma_bsum_step(s, a0, a0);
        reveal(cuts_to);
        assert(p <= prev);
    }
//@@ loop 2
        invariant
            vx_it2.seq().len() == *lb - a0,
            forall|i: int| 0 <= i < *lb - a0 ==> #[trigger] vx_it2.seq()[i] == a0 + i,
            accum_char_width == a0 + bsum(s, a0, a0 + vx_it2.index@),
            accum_char_bindex <= *lb,
//@@ ghost loop 2 start
    proof {
        lemma_bsum_step(s, a0, a0 + vx_it2.index@);
        let i = vx_it2.index@;
        assert(vx_it2.seq()[i] == a0 + i);
        lemma_bsum_mono(s, a0, a0 + i + 1, *lb as int);
        assert(mapped(char_indices_widths@, bindex) == bw(s, a0 + i));
    }
//@@ ghost after 2
    let ghost a1 = accum_char_width as int;
    let ghost b1 = accum_char_bindex as int;
    proof {
        assert(a1 == a0 + bsum(s, a0, *lb as int));
        lemma_bsum_mono(s, a0, prev, *lb as int);
        lemma_bsum_split(s, p, prev, *lb as int);
        if j < linebreaks@.len() - 1 {
            assert(lb_pos(linebreaks@)[j + 1] == bs[j + 1]);
            lemma_break_step(s, j + 1);
            lemma_bsum_step(s, b1, b1);
            lemma_bsum_cb(s, b1, bs[j + 1]);
            lemma_bsum_mono(s, b1, *lb as int, bs[j + 1]);
            lemma_bsum_split(s, p, *lb as int, bs[j + 1]);
        }
    }
//@@ loop 3
        invariant
            vx_it3.seq().len() == next_lb - b1,
            forall|i: int| 0 <= i < next_lb - b1 ==> #[trigger] vx_it3.seq()[i] == b1 + i,
            partial_accum_width == a1 + bsum(s, b1, b1 + vx_it3.index@),
            accum_char_bindex == b1,
//@@ ghost loop 3 start
    proof {
        lemma_bsum_step(s, b1, b1 + vx_it3.index@);
        let i2 = vx_it3.index@;
        assert(vx_it3.seq()[i2] == b1 + i2);
        lemma_bsum_mono(s, b1, b1 + i2 + 1, next_lb as int);
        assert(mapped(char_indices_widths@, i) == bw(s, b1 + i2));
    }
//@@ ghost loop 1 end
    proof {
        lemma_cut_step(s, wrapwidth as int, cuts0, ret@, j);
        reveal(bound);
        lemma_bsum_step(s, bs[j], bs[j]);
        assert(before(bs, j + 1) == *lb);
    }
//@@ ghost tail
    proof { lemma_cuts_end(s, wrapwidth as int, ret@); }
//@@ end

//@@ block wrap
//@@ fn rust/src/twrapper.rs wrap
//@@ ret r
//@@ contract
    ensures is_wrap(text@, wrapwidth as int, vx_strs(r@)),
//@@ ghost before 0
    let ghost s = text@;
    let ghost cuts = linebreaks@;
    let ghost end = blen(s) as int;
    proof { lemma_cut_parts(s, wrapwidth as int, cuts); lemma_cb_ends(s); }
//@@ loop 0
        invariant
            vx_it0.seq() == cuts,
            prev_lb == bound(cuts, end, vx_it0.index@),
            vx_strs(ret@) =~= cut_parts(s, cuts, vx_it0.index@),
//@@ ghost loop 0 start
    let ghost k0 = vx_it0.index@;
    let ghost ret0 = ret@;
    proof {
        lemma_bound(s, wrapwidth as int, cuts, k0);
        assert(vx_it0.seq()[k0] == cuts[k0]);
    }
//@@ ghost loop 0 end
    proof {
        assert(ret@.drop_last() =~= ret0);
        assert(vx_strs(ret@) =~= vx_strs(ret0).push(ret@.last()@));
        assert(cut_parts(s, cuts, k0 + 1) =~= cut_parts(s, cuts, k0).push(ret@.last()@));
    }
//@@ ghost after 0
    proof {
        lemma_bound(s, wrapwidth as int, cuts, cuts.len() as int);
        let k = cidx(s, un(prev_lb));
        assert(s.skip(k) =~= s.subrange(k, s.len() as int));
    }
//@@ ghost tail
    proof {
        let n = cuts.len() as int;
        assert(vx_strs(ret@) =~= vx_strs(ret@.drop_last()).push(ret@.last()@));
        assert(cut_parts(s, cuts, n + 1) =~= cut_parts(s, cuts, n).push(ret@.last()@));
        assert(vx_strs(ret@) == cut_parts(s, cuts, n + 1));
    }
//@@ end
