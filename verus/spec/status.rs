verus! {
// C17: the translation status of a message
pub open spec fn is_fuzzy(e: POEntryV) -> bool {
    e.flags.contains("fuzzy"@)
}
pub open spec fn is_translated(e: POEntryV) -> bool {
    !e.obsolete && !is_fuzzy(e) && match e.msgstr {
        Some(s) => s.len() > 0,
        None => e.msgstr_plural.len() > 0
            && forall|i: int| 0 <= i < e.msgstr_plural.len() ==> (#[trigger] e.msgstr_plural[i]).len() > 0,
    }
}
pub uninterp spec fn f32_of(n: int) -> f32;
pub uninterp spec fn f32_div(a: f32, b: f32) -> f32;
pub uninterp spec fn f32_mul(a: f32, b: f32) -> f32;
#[verifier::external_body]
pub fn vx_f32(n: usize) -> (r: f32) ensures r == f32_of(n as int) { n as f32 }
#[verifier::external_body]
pub fn vx_fdiv(a: f32, b: f32) -> (r: f32) ensures r == f32_div(a, b) { a / b }
#[verifier::external_body]
pub fn vx_fmul(a: f32, b: f32) -> (r: f32) ensures r == f32_mul(a, b) { a * b }

// C17: translated and untranslated are complementary
pub proof fn theorem_status_partition(s: Seq<POEntryV>)
    ensures
        keep(s, |e: POEntryV| is_translated(e)).len() + keep(s, |e: POEntryV| !is_translated(e)).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==>
            (keep(s, |e: POEntryV| is_translated(e)).contains(#[trigger] s[i]) != keep(s, |e: POEntryV| !is_translated(e)).contains(s[i])),
{
    let f = |e: POEntryV| is_translated(e);
    let g = |e: POEntryV| !is_translated(e);
    lemma_keep_complement(s, f, g);
    lemma_keep_meaning(s, f);
    lemma_keep_meaning(s, g);
}
} // verus!
