//@@ block po_save_as_pofile
//@@ fn rust/src/file/pofile.rs SaveAsPOFile for POFile::save_as_pofile
//@@ opt flat
//@@ opt default=rust/src/file/mod.rs
//@@ contract
    requires can_create(path@),
    ensures saved_text(self@, path@),
//@@ ghost end
    proof {
        axiom_saved(file);
        assert(exists|t: Seq<char>| is_file_text(self@, t) && file.written() == Seq::<u8>::empty() + #[trigger] vstd::utf8::encode_utf8(t));
        let t = choose|t: Seq<char>| is_file_text(self@, t) && file.written() == Seq::<u8>::empty() + #[trigger] vstd::utf8::encode_utf8(t);
        assert(file.written() =~= vstd::utf8::encode_utf8(t));
    }
//@@ end

//@@ block po_save
//@@ fn rust/src/file/pofile.rs Save for POFile::save
//@@ opt flat
//@@ contract
    requires can_create(path@),
    ensures saved_text(self@, path@),
//@@ end

//@@ block po_save_as_mofile
//@@ fn rust/src/file/pofile.rs SaveAsMOFile for POFile::save_as_mofile
//@@ opt flat
//@@ contract
    requires can_create(path@), mo_fits(compiled(self@)),
    ensures saved_mo(compiled(self@), path@),
//@@ end

//@@ block mo_save
//@@ fn rust/src/file/mofile.rs Save for MOFile::save
//@@ opt flat
//@@ contract
    requires can_create(path@), mo_fits(self@),
    ensures saved_mo(self@, path@),
//@@ ghost end
    proof {
        axiom_saved(file);
        assert(exists|b: Seq<u8>| #[trigger] is_mo_bytes(self@, false, 0, b) && file.written() == Seq::<u8>::empty() + b);
        let b = choose|b: Seq<u8>| #[trigger] is_mo_bytes(self@, false, 0, b) && file.written() == Seq::<u8>::empty() + b;
        assert(file.written() =~= b);
    }
//@@ end

//@@ block mo_save_as_mofile
//@@ fn rust/src/file/mofile.rs SaveAsMOFile for MOFile::save_as_mofile
//@@ opt flat
//@@ contract
    requires can_create(path@), mo_fits(self@),
    ensures saved_mo(self@, path@),
//@@ end

//@@ block mo_save_as_pofile
//@@ fn rust/src/file/mofile.rs SaveAsPOFile for MOFile::save_as_pofile
//@@ opt flat
//@@ opt default=rust/src/file/mod.rs
//@@ contract
    requires can_create(path@),
    ensures saved_mo_text(self@, path@),
//@@ ghost end
    proof {
        axiom_saved(file);
        assert(exists|t: Seq<char>| is_mo_text(self@, t) && file.written() == Seq::<u8>::empty() + #[trigger] vstd::utf8::encode_utf8(t));
        let t = choose|t: Seq<char>| is_mo_text(self@, t) && file.written() == Seq::<u8>::empty() + #[trigger] vstd::utf8::encode_utf8(t);
        assert(file.written() =~= vstd::utf8::encode_utf8(t));
    }
//@@ end
