//@@ block mo_parser_new
//@@ fn rust/src/moparser.rs MOFileParser::new
//@@ ret r
//@@ contract
    ensures
        r.fhandle.pos() == 0, r.fhandle.data() == mo_source(file_options@),
        r.freader is Le, r.file@ == mo_fresh(file_options@),
//@@ end

//@@ block mofile
//@@ fn rust/src/file/mofile.rs mofile
//@@ ret r
//@@ contract
    // C10: a path or bytes
    ensures exists|o: FileOptions| #[trigger] options.into_spec(o) && mo_read(r, o@),
//@@ end
