verus! {
/// C19: a file saved to a path and opened again
pub proof fn theorem_saved_back(f: POFileV, t: Seq<char>, p: Seq<char>, w: usize)
    requires
        is_file_text(f, t), is_file(p), fs(p) == vstd::utf8::encode_utf8(t), !is_file(Seq::empty()),
        forall|i: int| 0 <= i < f.entries.len() ==> fits(#[trigger] f.entries[i]),
    ensures ({
        let r = read_any(FileOptionsV { path_or_content: p, wrapwidth: w, byte_content: None });
        &&& r is Ok
        &&& cores((r->Ok_0).entries) == backs(in_order(f))
        &&& clean_meta(f.metadata) ==> (r->Ok_0).metadata == f.metadata
        &&& clean_meta(f.metadata) && f.metadata != Map::<Seq<char>, Seq<char>>::empty() ==> (r->Ok_0).metadata_is_fuzzy == f.metadata_is_fuzzy
    }),
{
    hide(fits); hide(is_file_text); hide(lines); hide(in_order); hide(read_all);
    let o = FileOptionsV { path_or_content: Seq::empty(), wrapwidth: w, byte_content: Some(vstd::utf8::encode_utf8(t)) };
    theorem_saved_text(p, w, t, o);
    theorem_po_round(f, t, o);
    assert(read_any(o) == read_file(o));
}
} // verus!
