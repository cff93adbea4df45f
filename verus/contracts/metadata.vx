//@@ block meta_to_ordered
//@@ fn rust/src/file/mod.rs metadata_hashmap_to_ordered
//@@ ret r
//@@ contract
    ensures is_meta_order(vx_map(*metadata), vx_pairs(r@)),
//@@ closure 0
|vx_a: &&String, vx_b: &&String| -> (vx_o: Ordering)
    ensures vx_o == by_name(*vx_a, *vx_b),
---
Ghost(|vx_a: &String, vx_b: &String| by_name(vx_a, vx_b))
//@@ loop 0
        invariant
            vx_it0.seq().len() == 11,
            forall|i: int| 0 <= i < 11 ==> (*(#[trigger] vx_it0.seq()[i]))@ == std_keys()[i],
            meta_part(vx_map(*metadata), vx_pairs(ret@), vx_it0.index@),
//@@ loop 1
        invariant
            vx_ks == metadata_keys@,
            vx_it1.seq() == vx_ks,
            meta_rest(vx_map(*metadata), vx_pairs(ret@), vx_ks, vx_it1.index@),
//@@ ghost start
    proof { lemma_std_keys(); lemma_by_name(); assert(vx_strrefs(METADATA_KEYS_ORDER@) =~= std_keys()); }
//@@ ghost loop 0 start
    let ghost vx_r0 = ret@;
//@@ ghost loop 0 end
    proof {
        let m = vx_map(*metadata);
        let k = vx_it0.index@;
        if m.contains_key(std_keys()[k]) {
            assert(vx_pairs(ret@) =~= vx_pairs(vx_r0).push((std_keys()[k], m[std_keys()[k]])));
        } else {
            assert(vx_pairs(ret@) =~= vx_pairs(vx_r0));
        }
        lemma_meta_part(m, vx_pairs(vx_r0), vx_pairs(ret@), k);
    }
//@@ ghost pre vx_sort_by
    let ghost vx_k0 = metadata_keys@;
//@@ ghost before 1
    let ghost vx_ks = metadata_keys@;
    proof { lemma_meta_sorted(vx_map(*metadata), vx_pairs(ret@), vx_k0, vx_ks); }
//@@ ghost loop 1 start
    let ghost vx_r1 = ret@;
//@@ ghost loop 1 end
    proof {
        let m = vx_map(*metadata);
        let k = vx_it1.index@;
        if std_keys().contains(vx_ks[k]@) {
            assert(vx_pairs(ret@) =~= vx_pairs(vx_r1));
        } else {
            assert(vx_pairs(ret@) =~= vx_pairs(vx_r1).push((vx_ks[k]@, m[vx_ks[k]@])));
        }
        lemma_meta_rest(m, vx_pairs(vx_r1), vx_pairs(ret@), vx_ks, k);
    }
//@@ ghost tail
    proof { lemma_meta_done(vx_map(*metadata), vx_pairs(ret@), vx_ks); }
//@@ end

//@@ block meta_to_msgstr
//@@ fn rust/src/file/mod.rs metadata_hashmap_to_msgstr
//@@ ret r
//@@ contract
    ensures is_meta_text(vx_map(*metadata), r@),
//@@ loop 0
        invariant
            vx_pairs(vx_it0.seq()) == vx_ps,
            vx_strs(parts@) == meta_lines_of(vx_ps).take(vx_it0.index@),
//@@ ghost before 0
    let ghost vx_ps = vx_pairs(ordered_map@);
    proof { reveal_strlit(": "); assert(vx_strs(parts@) =~= meta_lines_of(vx_ps).take(0)); }
//@@ ghost loop 0 start
    let ghost vx_p0 = parts@;
    proof { assert(vx_ps[vx_it0.index@] == (key@, value@)); }
//@@ ghost loop 0 end
    proof {
        let k = vx_it0.index@;
        assert(parts@ == vx_p0.push(msgstr));
        assert(msgstr@ =~= meta_lines_of(vx_ps)[k]);
        assert(vx_strs(parts@) =~= vx_strs(vx_p0).push(msgstr@));
        assert(vx_strs(parts@) =~= meta_lines_of(vx_ps).take(k + 1));
    }
//@@ ghost tail
    proof {
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        assert(meta_lines_of(vx_ps).take(vx_ps.len() as int) =~= meta_lines_of(vx_ps));
    }
//@@ end

//@@ block po_metadata_as_entry
//@@ fn rust/src/file/pofile.rs POFile::metadata_as_entry
//@@ ret r
//@@ contract
    ensures is_file_head(self@, r@),
//@@ ghost tail
    proof { assert(entry@.flags =~= if self@.metadata_is_fuzzy { seq!["fuzzy"@] } else { Seq::empty() }); }
//@@ end
