//@@ block mo_new
//@@ fn rust/src/file/mofile.rs MOFile::new
//@@ ret r
//@@ contract
    ensures r@ == (MOFileV { magic_number: None, version: None, metadata: Map::empty(), entries: Seq::empty(), options: options@ }),
//@@ ghost start
    proof { assert(forall|s: Seq<MOEntry>| s.len() == 0 ==> #[trigger] vx_moentries(s) =~= Seq::<MOEntryV>::empty()); }
//@@ end

//@@ block mo_entry_of
//@@ fn rust/src/entry/moentry.rs From<&POEntry> for MOEntry::from
//@@ ret r
//@@ contract
    ensures r@ == mo_of(entry@),
//@@ end

//@@ block mo_file_of
//@@ fn rust/src/file/mofile.rs From<&POFile> for MOFile::from
//@@ ret r
//@@ contract
    ensures r@ == compiled(file@),
//@@ loop 0
        invariant
            vx_porefs(vx_src@) == keep(file@.entries, |e: POEntryV| is_translated(e)),
            vx_it0.seq().len() == vx_src@.len(),
            forall|i: int| 0 <= i < vx_src@.len() ==> *(#[trigger] vx_it0.seq()[i]) == vx_src@[i],
            vx_moentries(vx_out@) == mos_of(vx_porefs(vx_src@).take(vx_it0.index@)),
//@@ ghost loop 0 start
    let ghost vx_o0 = vx_out@;
//@@ ghost loop 0 end
    proof {
        assert(vx_out@.last()@ == mo_of(vx_src@[vx_it0.index@]@));
        let vx_n = mos_of(vx_porefs(vx_src@).take(vx_it0.index@ + 1));
        assert forall|i: int| 0 <= i < vx_n.len() implies vx_moentries(vx_out@)[i] == #[trigger] vx_n[i] by {
            if i < vx_o0.len() {
                assert(vx_moentries(vx_o0)[i] == mos_of(vx_porefs(vx_src@).take(vx_it0.index@))[i]);
            }
        }
        assert(vx_moentries(vx_out@) =~= mos_of(vx_porefs(vx_src@).take(vx_it0.index@ + 1)));
    }
//@@ ghost tail
    proof { assert(new_file@ =~= compiled(file@)); }
//@@ end

//@@ block po_as_bytes
//@@ fn rust/src/file/pofile.rs AsBytes for POFile::as_bytes
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures is_mo_bytes(compiled(self@), false, 0, r@),
//@@ ghost start
    proof { assert(MAGIC != MAGIC_SWAPPED) by (compute); }
//@@ end

//@@ block po_as_bytes_le
//@@ fn rust/src/file/pofile.rs AsBytes for POFile::as_bytes_le
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures is_mo_bytes(compiled(self@), false, 0, r@),
//@@ end

//@@ block po_as_bytes_be
//@@ fn rust/src/file/pofile.rs AsBytes for POFile::as_bytes_be
//@@ opt flat
//@@ ret r
//@@ contract
    requires mo_fits(compiled(self@)),
    ensures is_mo_bytes(compiled(self@), true, 0, r@),
//@@ end
