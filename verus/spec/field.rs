verus! {
//@@ struct rust/src/entry/mod.rs POStringField
impl<'a> POStringField<'a> {
    /// to_string() is what fmt() writes
    pub fn vx_to_string(&self) -> (r: String)
        ensures item_ok(Item::Field(self.delflag@, keyword(self.fieldname@, self.plural_index@), self.value@), self.wrapwidth as int, r@),
    {
        let mut f = VxFormatter { text: String::new() };
        self.fmt(&mut f);
        f.text
    }
}
} // verus!
