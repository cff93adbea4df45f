verus! {
//@@ const rust/src/moparser.rs MAGIC
//@@ const rust/src/moparser.rs MAGIC_SWAPPED
/// text of bytes: exact for the UTF-8 form of a text, unspecified otherwise
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn axiom_lossy(s: Seq<char>)
    ensures #[trigger] lossy(vstd::utf8::encode_utf8(s)) == s;
// ---------------------------------------------------------------------
// What the bytes of a MO file mean (C08, C10)

/// the number at byte `o`, None if it is not inside the input
pub open spec fn num_at(be: bool, b: Seq<u8>, o: int) -> Option<u32> {
    if 0 <= o && o + 4 <= b.len() { Some(num32(be, b.subrange(o, o + 4))) } else { None }
}
/// the `i`th (length, offset) pair of the table at `t`
pub open spec fn pair_at(be: bool, b: Seq<u8>, t: int, i: int) -> Option<(u32, u32)> {
    match (num_at(be, b, t + 8 * i), num_at(be, b, t + 8 * i + 4)) {
        (Some(l), Some(o)) => Some((l, o)),
        _ => None,
    }
}
/// the string of a pair, None if it is not inside the input
pub open spec fn bytes_of(b: Seq<u8>, p: (u32, u32)) -> Option<Seq<u8>> {
    if p.0 == 0 { Some(Seq::empty()) }
    else if p.1 + p.0 <= b.len() { Some(b.subrange(p.1 as int, p.1 + p.0)) }
    else { None }
}
pub open spec fn has_table(be: bool, b: Seq<u8>, t: int, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] pair_at(be, b, t, i)) is Some
}
/// the (length, offset) pairs of a table
pub open spec fn table(be: bool, b: Seq<u8>, t: int, n: int) -> Seq<(u32, u32)> {
    Seq::new(n as nat, |i: int| pair_at(be, b, t, i)->0)
}
pub open spec fn has_strings(b: Seq<u8>, p: Seq<(u32, u32)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> bytes_of(b, #[trigger] p[i]) is Some
}
pub open spec fn text_of(b: Seq<u8>, p: (u32, u32)) -> Seq<char> {
    lossy(bytes_of(b, p)->0)
}

pub open spec fn plain_entry(msgid: Seq<char>, msgstr: Seq<char>) -> MOEntryV {
    let (id, plural, strs) = if !msgid.contains('\u{0}') {
        (msgid, None::<Seq<char>>, Seq::<Seq<char>>::empty())
    } else {
        (split(msgid, '\u{0}')[0], Some(split(msgid, '\u{0}')[1]), split(msgstr, '\u{0}'))
    };
    let t = split(id, '\u{4}');
    MOEntryV {
        msgid: if t.len() == 2 { t[1] } else { id },
        msgstr: Some(msgstr),
        msgid_plural: plural,
        msgstr_plural: strs,
        msgctxt: if t.len() == 2 { Some(t[0]) } else { None },
    }
}
pub open spec fn meta_line(m: Map<Seq<char>, Seq<char>>, line: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    let t = splitn2(line, ':');
    if t[0].len() == 0 { m } else { m.insert(t[0], if t.len() > 1 { trim(t[1]) } else { Seq::empty() }) }
}
pub open spec fn meta_lines(m: Map<Seq<char>, Seq<char>>, l: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>>
    decreases l.len()
{
    if l.len() == 0 { m } else { meta_line(meta_lines(m, l.drop_last()), l.last()) }
}
/// is the first string the metadata?
pub open spec fn has_meta(b: Seq<u8>, p: Seq<(u32, u32)>, k: int) -> bool {
    k > 0 && text_of(b, p[0]).len() == 0
}
pub open spec fn meta_of(b: Seq<u8>, p: Seq<(u32, u32)>, q: Seq<(u32, u32)>, k: int) -> Map<Seq<char>, Seq<char>> {
    if has_meta(b, p, k) { meta_lines(Map::empty(), split(text_of(b, q[0]), '\n')) } else { Map::empty() }
}
/// the messages of the first `k` strings
pub open spec fn entries_of(b: Seq<u8>, p: Seq<(u32, u32)>, q: Seq<(u32, u32)>, k: int) -> Seq<MOEntryV>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else if k == 1 && has_meta(b, p, k) { Seq::empty() }
    else { entries_of(b, p, q, k - 1).push(plain_entry(text_of(b, p[k - 1]), text_of(b, q[k - 1]))) }
}
pub struct MoHead { pub magic: u32, pub version: u32, pub n: u32, pub t1: u32, pub t2: u32 }
pub open spec fn is_be(magic: u32) -> bool { magic == MAGIC_SWAPPED }
/// the header, None if there is none that is supported
pub open spec fn head_of(b: Seq<u8>) -> Option<MoHead> {
    match num_at(false, b, 0) {
        Some(magic) => {
            let be = is_be(magic);
            if magic != MAGIC && magic != MAGIC_SWAPPED { None }
            else {
                match (num_at(be, b, 4), num_at(be, b, 8), num_at(be, b, 12), num_at(be, b, 16)) {
                    (Some(v), Some(n), Some(t1), Some(t2)) =>
                        if v == 0 || v == 1 { Some(MoHead { magic: magic, version: v, n: n, t1: t1, t2: t2 }) } else { None },
                    _ => None,
                }
            }
        },
        None => None,
    }
}
pub open spec fn is_mo(b: Seq<u8>) -> bool {
    head_of(b) is Some && ({
        let h = head_of(b)->0;
        let be = is_be(h.magic);
        has_table(be, b, h.t1 as int, h.n as int) && has_table(be, b, h.t2 as int, h.n as int)
            && has_strings(b, table(be, b, h.t1 as int, h.n as int), h.n as int)
            && has_strings(b, table(be, b, h.t2 as int, h.n as int), h.n as int)
    })
}
/// the file that the bytes stand for
pub open spec fn mo_file(b: Seq<u8>, o: MOFileV) -> MOFileV {
    let h = head_of(b)->0;
    let be = is_be(h.magic);
    let p = table(be, b, h.t1 as int, h.n as int);
    let q = table(be, b, h.t2 as int, h.n as int);
    MOFileV {
        magic_number: Some(h.magic),
        version: Some(h.version),
        metadata: meta_of(b, p, q, h.n as int),
        entries: entries_of(b, p, q, h.n as int),
        ..o
    }
}
} // verus!
