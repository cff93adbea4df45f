verus! {
//@@ struct rust/src/file/mod.rs FileOptions view clone
//@@ struct rust/src/file/mofile.rs MOFile view clone
//@@ struct rust/src/file/pofile.rs POFile view clone
// C11: the MO message of a PO message, the MO file of a PO file
pub open spec fn mo_of(e: POEntryV) -> MOEntryV {
    MOEntryV { msgid: e.msgid, msgstr: e.msgstr, msgid_plural: e.msgid_plural, msgstr_plural: e.msgstr_plural, msgctxt: e.msgctxt }
}
pub open spec fn mos_of(s: Seq<POEntryV>) -> Seq<MOEntryV> {
    Seq::new(s.len(), |i: int| mo_of(s[i]))
}
pub open spec fn compiled(f: POFileV) -> MOFileV {
    MOFileV {
        magic_number: None,
        version: None,
        metadata: f.metadata,
        entries: mos_of(keep(f.entries, |e: POEntryV| is_translated(e))),
        options: f.options,
    }
}
pub open spec fn compiled_from(f: POFileV, m: MOEntryV) -> bool {
    exists|e: POEntryV| f.entries.contains(e) && is_translated(e) && !e.obsolete && !is_fuzzy(e) && #[trigger] mo_of(e) == m
}
/// exactly the translated messages, in order; none that is fuzzy, obsolete
/// or without translation
pub proof fn theorem_compiled(f: POFileV)
    ensures
        forall|i: int| 0 <= i < compiled(f).entries.len() ==> compiled_from(f, #[trigger] compiled(f).entries[i]),
        forall|i: int| 0 <= i < f.entries.len() && is_translated(#[trigger] f.entries[i]) ==> compiled(f).entries.contains(mo_of(f.entries[i])),
{
    let g = |e: POEntryV| is_translated(e);
    lemma_keep_meaning(f.entries, g);
    let k = keep(f.entries, g);
    assert forall|i: int| 0 <= i < compiled(f).entries.len() implies compiled_from(f, #[trigger] compiled(f).entries[i]) by {
        assert(g(k[i]));
        assert(mo_of(k[i]) == compiled(f).entries[i]);
    }
    assert forall|i: int| 0 <= i < f.entries.len() && is_translated(#[trigger] f.entries[i]) implies compiled(f).entries.contains(mo_of(f.entries[i])) by {
        assert(g(f.entries[i]));
        let j = choose|j: int| 0 <= j < k.len() && k[j] == f.entries[i];
        assert(compiled(f).entries[j] == mo_of(f.entries[i]));
    }
}
} // verus!
