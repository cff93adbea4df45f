//@@ block py_pofile
//@@ fn python/src/pypofile.rs py_pofile
//@@ ret r
//@@ contract
    ensures py_read_po(r, path_or_content@, wrapwidth),
//@@ end

//@@ block py_pofile_new
//@@ fn python/src/pypofile.rs PyPOFile::new
//@@ ret r
//@@ contract
    ensures py_read_po(r, path_or_content@, wrapwidth),
//@@ end

//@@ block py_mofile
//@@ fn python/src/pymofile.rs py_mofile
//@@ ret r
//@@ contract
    ensures py_read_mo(r, path_or_content@, wrapwidth),
//@@ end

//@@ block py_mofile_new
//@@ fn python/src/pymofile.rs PyMOFile::new
//@@ ret r
//@@ contract
    ensures py_read_mo(r, path_or_content@, wrapwidth),
//@@ end

//@@ block py_escape
//@@ fn python/src/escaping.rs py_escape
//@@ ret r
//@@ contract
    ensures r is Ok, (r->Ok_0)@ == esc(text@),
//@@ end

//@@ block py_unescape
//@@ fn python/src/escaping.rs py_unescape
//@@ ret r
//@@ contract
    ensures
        match unesc(text@) {
            Some(t) => r is Ok && (r->Ok_0)@ == t,
            None => r is Err && (r->Err_0).kind == VxExc::EscapingError,
        },
//@@ end
