#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unused_must_use)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;

pub mod vx_text {
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------------
// Texts. A text is the sequence of its characters; `blen` is its length in
// bytes and byte offsets are related to character indexes by `cidx`.

pub open spec fn clen(c: char) -> nat {
    let x = c as u32;
    if x < 0x80 { 1 } else if x < 0x800 { 2 } else if x < 0x10000 { 3 } else { 4 }
}

pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}

/// `k` is the number of characters before the byte offset `b`
pub open spec fn at_byte(s: Seq<char>, b: int, k: int) -> bool {
    0 <= k <= s.len() && blen(s.take(k)) == b
}

pub open spec fn is_cb(s: Seq<char>, b: int) -> bool {
    exists|k: int| at_byte(s, b, k)
}

pub open spec fn cidx(s: Seq<char>, b: int) -> int {
    choose|k: int| at_byte(s, b, k)
}

pub proof fn lemma_blen_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures blen(s.take(a)) + (b - a) <= blen(s.take(b)),
    decreases b - a,
{
    if a < b {
        lemma_blen_mono(s, a, b - 1);
        assert(s.take(b).drop_last() =~= s.take(b - 1));
    }
}

pub proof fn lemma_cidx(s: Seq<char>, b: int, k: int)
    requires at_byte(s, b, k),
    ensures is_cb(s, b), cidx(s, b) == k,
{
    let j = cidx(s, b);
    if j < k { lemma_blen_mono(s, j, k); }
    if k < j { lemma_blen_mono(s, k, j); }
}

pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_blen_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}

/// `blen` is the length of the UTF-8 form
pub broadcast proof fn lemma_blen_utf8(s: Seq<char>)
    ensures #[trigger] vstd::utf8::encode_utf8(s).len() == blen(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_blen_utf8(s.drop_first());
        lemma_blen_add(seq![s[0]], s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
        assert(seq![s[0]].drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(blen, 2);
        assert(blen(seq![s[0]]) == clen(s[0]));
    }
}
} // verus!
}
pub use vx_text::*;

verus! {
broadcast use lemma_blen_utf8;

// ---------------------------------------------------------------------
// Trusted contracts of std operations on texts

pub assume_specification[String::len](s: &String) -> (r: usize)
    ensures r == blen(s@),
;

pub trait VxToString {
    spec fn str_spec(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.str_spec();
}
impl VxToString for str {
    open spec fn str_spec(&self) -> Seq<char> { self@ }
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl VxToString for String {
    open spec fn str_spec(&self) -> Seq<char> { self@ }
    fn vx_to_string(&self) -> (r: String) { self.clone() }
}

pub trait VxInto<T> {
    spec fn into_spec(self, t: T) -> bool;
    fn vx_into(self) -> (r: T)
        ensures self.into_spec(r);
}
impl VxInto<String> for String {
    open spec fn into_spec(self, t: String) -> bool { t@ == self@ }
    fn vx_into(self) -> (r: String) { self }
}
impl VxInto<String> for &str {
    open spec fn into_spec(self, t: String) -> bool { t@ == self@ }
    fn vx_into(self) -> (r: String) { self.to_string() }
}

/// text of a `{:?}` argument, not specified
pub uninterp spec fn debug_text<T>(t: T) -> Seq<char>;
#[verifier::external_body]
pub fn vx_debug<T>(t: &T) -> (r: String) { unimplemented!() }

pub trait VxUnwrapOr<T>: Sized {
    spec fn or_spec(self, d: T) -> T;
    fn vx_unwrap_or(self, d: T) -> (r: T)
        ensures r == self.or_spec(d);
}
impl<T> VxUnwrapOr<T> for Option<T> {
    open spec fn or_spec(self, d: T) -> T { match self { Some(x) => x, None => d } }
    fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } }
}
impl<T, E> VxUnwrapOr<T> for core::result::Result<T, E> {
    open spec fn or_spec(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } }
    fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } }
}

pub fn vx_capacity_hint() {}

/// arbitrary choices of the reachability probes
pub uninterp spec fn vx_arb(k: int) -> bool;

/// loop counters of `enumerate`: a sequence has at most usize::MAX items
#[verifier::external_body]
pub fn vx_incr(n: usize) -> (r: usize) ensures r == n + 1 { n + 1 }

#[verifier::external_body]
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty(),
{ std::mem::take(v) }

pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_contains_char(&self, c: char) -> (r: bool)
        ensures r == self.sv().contains(c);
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_contains_char(&self, c: char) -> (r: bool) { self.contains(c) }
}

} // verus!
