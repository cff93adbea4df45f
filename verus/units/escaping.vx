//@@ include verus/spec/base.rs
//@@ include verus/spec/escaping.rs
//@@ blocks verus/contracts/escaping.vx
verus! {
pub assume_specification<'a>[std::str::Chars::<'a>::as_str](c: &std::str::Chars<'a>) -> (r: &'a str);

//@@ enum rust/src/errors.rs EscapingError
//@@ struct rust/src/escaping.rs EscapedStringInterpreter
//@@ prove escape
//@@ prove esc_next

impl<'a> EscapedStringInterpreter<'a> {
    /// `collect` into a Result of a text: the definition in std, items are
    /// pushed until the first error
    pub fn vx_collect(self) -> (r: core::result::Result<String, EscapingError>)
        requires self.characters.decrease() is Some,
        ensures
            match unesc(self.characters.remaining()) {
                Some(t) => r is Ok && r->Ok_0@ == t,
                None => r is Err,
            },
    {
        let mut it = self;
        let mut out = String::new();
        proof {
            assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); }
        }
        loop
            invariant
                unesc(self.characters.remaining()) == (match unesc(it.characters.remaining()) {
                    Some(t) => Some(out@ + t),
                    None => None,
                }),
                it.characters.decrease() is Some,
            decreases it.characters.decrease()->0,
        {
            let ghost o = out@;
            match it.next() {
                None => {
                    proof { assert(o + Seq::<char>::empty() =~= o); }
                    return Ok(out);
                }
                Some(Ok(c)) => {
                    out.push(c);
                    proof {
                        assert forall|t: Seq<char>| #[trigger] (o + (seq![c] + t)) == o.push(c) + t by { assert(o + (seq![c] + t) =~= o.push(c) + t); }
                    }
                }
                Some(Err(e)) => {
                    return Err(e);
                }
            }
        }
    }
}
//@@ prove unescape
} // verus!
fn main() {}
