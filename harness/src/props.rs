//! Executable oracles, one per property. `Ok(true)` means that the case
//! exercised the property, `Ok(false)` that it was outside of its domain.
use crate::case::*;
use crate::gen::*;
use rspolib::errors::SyntaxError;
use rspolib::escaping::{escape, unescape};
use rspolib::prelude::*;
use rspolib::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::path::Path;
use unicode_linebreak::linebreaks;
use unicode_width::UnicodeWidthStr;

pub type R = Result<bool, String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

// ------------------------------------------------------------------ C01 C02

fn ref_escape(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            '\u{8}' => r.push_str("\\b"),
            '\u{11}' => r.push_str("\\v"),
            '\u{12}' => r.push_str("\\f"),
            c => r.push(c),
        }
    }
    r
}

fn ref_unescape(s: &str) -> Option<String> {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            r.push(c);
            continue;
        }
        // the character that escaping writes as this escape
        let l = it.next()?;
        let orig = (0u32..0x80)
            .filter_map(char::from_u32)
            .find(|o| *escape(&o.to_string()) == *format!("\\{l}"))?;
        if !"\"\\nrtbvf".contains(l) {
            return None;
        }
        r.push(orig);
    }
    Some(r)
}

pub fn c01(c: &Case) -> R {
    let t = &c.text;
    let e = escape(t).to_string();
    match unescape(&e) {
        Ok(u) => ensure!(*u == **t, "escaping {t:?} gives {e:?}, which unescapes to {u:?}"),
        Err(x) => return Err(format!("escaping {t:?} gives {e:?}, which can not be unescaped: {x}")),
    }
    let mut bs = 0;
    for ch in e.chars() {
        ensure!(!"\n\r\t".contains(ch), "the escaped form {e:?} of {t:?} has a raw {ch:?}");
        if ch == '"' {
            ensure!(bs % 2 == 1, "the escaped form {e:?} of {t:?} has a quote that is not escaped");
        }
        bs = if ch == '\\' { bs + 1 } else { 0 };
    }
    Ok(!t.is_empty())
}

pub fn c02(c: &Case) -> R {
    let t = &c.text;
    let exp = ref_unescape(t);
    match (unescape(t), exp) {
        (Ok(u), Some(x)) => ensure!(*u == *x, "unescaping {t:?} gives {u:?}, expected {x:?}"),
        (Ok(u), None) => return Err(format!("unescaping {t:?} gives {u:?}, but it is malformed")),
        (Err(e), Some(x)) => return Err(format!("unescaping {t:?} fails ({e}), expected {x:?}")),
        (Err(_), None) => {}
    }
    Ok(t.contains('\\'))
}

pub fn gen_c01(r: &mut Rng, i: u64) -> Case {
    const A: &[char] = &['"', '\\', '\n', '\r', '\t', '\u{8}', '\u{11}', '\u{12}', 'n', 'a'];
    let mut c = Case::default();
    if let Some(t) = exhaust(A, i, 5) {
        c.text = t;
    } else if i < 111_111 + 0x110000 {
        let x = (i - 111_111) as u32;
        c.text = char::from_u32(x).map(|c| format!("{c}")).unwrap_or_default();
    } else {
        c.text = if r.chance(50) { text(r, 30) } else { value(r) };
    }
    c
}

fn exhaust(a: &[char], i: u64, maxlen: u32) -> Option<String> {
    let n = a.len() as u64;
    let mut i = i;
    for len in 0..=maxlen {
        let cnt = n.pow(len);
        if i < cnt {
            let mut s = String::new();
            for _ in 0..len {
                s.push(a[(i % n) as usize]);
                i /= n;
            }
            return Some(s);
        }
        i -= cnt;
    }
    None
}

pub fn gen_c02(r: &mut Rng, i: u64) -> Case {
    const A: &[char] = &['\\', '"', 'n', 'r', 't', 'b', 'v', 'f', 'a', '\n'];
    let mut c = Case::default();
    if let Some(t) = exhaust(A, i, 5) {
        c.text = t;
    } else if i < 111_111 + 0x110000 {
        let x = (i - 111_111) as u32;
        c.text = char::from_u32(x).map(|c| format!("\\{c}\\{c}x")).unwrap_or_default();
    } else if r.chance(60) {
        let mut t = ref_escape(&value(r));
        if r.chance(40) {
            let k = r.below(t.chars().count() + 1);
            let mut v: Vec<char> = t.chars().collect();
            v.insert(k, if r.chance(70) { '\\' } else { ch(r) });
            t = v.into_iter().collect();
        }
        c.text = t;
    } else {
        c.text = text(r, 30);
    }
    c
}

// ------------------------------------------------------------------ C03 C18

const LINES: &[&str] = &[
    "msgid \"a\"", "msgstr \"b\"", "msgid_plural \"c\"", "msgstr[0] \"d\"", "msgstr[1] \"e\"", "msgstr[255] \"e\"",
    "msgctxt \"x\"", "\"more\"", "", "# c", "#. g", "#: f:1 g", "#, fuzzy", "#| msgid \"p\"", "#| msgctxt \"q\"",
    "#| msgid_plural \"r\"", "#| \"s\"", "#~ msgid \"o\"", "#~ msgstr \"o\"", "#~| msgid \"z\"", "msgid \"\"", "msgstr \"\"",
    "#", "#:", "#,", "#.", "#|", "#~", "msgid", "msgstr", "msgid a", "msgid \"", "\"", "msgstr[", "msgstr[] \"a\"", "msgstr[x] \"a\"",
    "msgstr[99999999999999999999] \"a\"", "msgstr[4294967296] \"a\"", "msgstr[1000000] \"a\"", "msgstr[256] \"a\"", "msgstr[0]", "msgstr[0]\"a\"", "msgstr[0 \"a\"", "msgid \"a\"b\"", "\"a\"b\"", "msgid \"a\\\"",
    "#| \"", "#| msgid", "#| foo \"a\"", "#| msgid \"a", "#, a, b", "#: é:1", "#.é", "#é", "#:é", "#,é", "##", "## x", "#~ \"", "#~ \"a\"", "\"\\z\"", "\"\\\"",
    "msgid \"é\"", "é", "foo", "msgid\t\"a\"", "  msgid   \"a\"  ", "msgid \u{a0}\"a\"", "\u{3000}\"a\"", "#| msgid\u{3000}\"a\"", "#| msgid\u{3000} \"a\"", "msgstr[0]\u{3000}\"a\"", "msgid \u{3000}", "#\u{3000}x", "#:\u{3000}x y", "#: \u{3000}", "#,\u{3000}x y", "#.\u{3000}x y", "#~\u{3000}x y", "#~ \u{3000}", "#~ #~", "#~ #", "#~ #: a", "#~ #, fuzzy", "#~ #| msgid \"a\"", "#| #| \"a\"", "#~\tmsgid \"a\"", "#:\ta", "#: a\u{a0}b", "msgstr[0] é\"a\"", "msgstr[é] \"a\"", "msgid \"\u{feff}\"", "msgstr[0] \"a\" \"b\"", "msgid é\"a\"", "msgstr[+1] \"a\"", "msgstr[ 1] \"a\"", "msgstr[00] \"a\"", "#| é", "#| é a b", "#~ é",
];

pub fn po_lines(r: &mut Rng) -> String {
    let n = 1 + r.below(10);
    let mut s = String::new();
    for _ in 0..n {
        let mut l = if r.chance(60) { LINES[r.below(16)].to_string() } else { r.pick(LINES).to_string() };
        if r.chance(8) {
            let mut v: Vec<char> = l.chars().collect();
            let k = r.below(v.len() + 1);
            if r.chance(50) || v.is_empty() {
                v.insert(k, ch(r));
            } else {
                v.remove(k.min(v.len() - 1));
            }
            l = v.into_iter().collect();
        }
        s.push_str(&l);
        s.push_str(if r.chance(92) { "\n" } else { "\r\n" });
    }
    s
}

pub fn gen_po(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::default();
    let n = LINES.len() as u64;
    if i < n {
        c.text = LINES[i as usize].to_string() + "\n";
    } else if i < n + n * n {
        let k = i - n;
        c.text = format!("{}\n{}\n", LINES[(k % n) as usize], LINES[(k / n) as usize]);
    } else if i < n + n * n + 16 * 16 * n {
        let k = i - n - n * n;
        c.text = format!("{}\n{}\n{}\n", LINES[(k % 16) as usize], LINES[(k / 16 % 16) as usize], LINES[(k / 256) as usize]);
    } else {
        match r.below(12) {
            0..=6 => c.text = po_lines(r),
            7 => {
                c.text = text(r, 60);
            }
            8 | 9 => {
                c.flag = true;
                c.bytes = po_lines(r).into_bytes();
                for _ in 0..1 + r.below(3) {
                    if c.bytes.is_empty() {
                        break;
                    }
                    let k = r.below(c.bytes.len());
                    match r.below(3) {
                        0 => c.bytes[k] = r.below(256) as u8,
                        1 => {
                            c.bytes.remove(k);
                        }
                        _ => c.bytes.insert(k, r.below(256) as u8),
                    }
                }
            }
            10 => {
                // a written file with one mutation
                let mut f = POFile::new(("", width(r)).into());
                for _ in 0..r.below(3) {
                    f.entries.push(entry(r, false));
                }
                for (k, v) in meta(r) {
                    f.metadata.insert(k, v);
                }
                let mut v: Vec<char> = f.to_string().chars().collect();
                for _ in 0..1 + r.below(2) {
                    let k = r.below(v.len());
                    match r.below(3) {
                        0 => v[k] = ch(r),
                        1 => {
                            v.remove(k);
                            if v.is_empty() {
                                v.push('\n')
                            }
                        }
                        _ => v.insert(k, ch(r)),
                    }
                }
                c.text = v.into_iter().collect();
            }
            _ => {
                c.flag = true;
                let n = r.below(40);
                c.bytes = (0..n).map(|_| r.below(256) as u8).collect();
            }
        }
    }
    c
}

fn read_po(c: &Case) -> Result<POFile, SyntaxError> {
    if c.flag {
        pofile(c.bytes.clone())
    } else {
        pofile(c.text.as_str())
    }
}

fn is_path(s: &str) -> bool {
    std::path::Path::new(s).is_file()
}

pub fn c03(c: &Case) -> R {
    if !c.flag && is_path(&c.text) {
        return Ok(false);
    }
    let len = if c.flag { c.bytes.len() } else { c.text.len() };
    crate::alloc_watch(true);
    let _ = read_po(c);
    let big = crate::alloc_watch(false);
    // buffers of the readers and a bounded number of plural translations
    let limit = 64 * 1024 + 64 * len;
    ensure!(big <= limit, "reading {len} bytes asks for {big} bytes of memory at once");
    Ok(true)
}

#[derive(PartialEq, Debug, Clone)]
struct Pos {
    kind: &'static str,
    line: usize,
}

fn position(e: &SyntaxError) -> Option<Pos> {
    match e {
        SyntaxError::UnescapedDoubleQuoteFound { line, .. } => Some(Pos { kind: "quote", line: *line }),
        SyntaxError::Custom { line, .. } => Some(Pos { kind: "custom", line: *line }),
        SyntaxError::Generic { line, .. } => Some(Pos { kind: "generic", line: *line }),
        _ => None,
    }
}

pub fn c18(c: &Case) -> R {
    if c.flag || is_path(&c.text) {
        return Ok(false);
    }
    let e = match pofile(c.text.as_str()) {
        Ok(_) => return Ok(false),
        Err(e) => e,
    };
    let p = match position(&e) {
        Some(p) => p,
        None => return Ok(false),
    };
    let lines: Vec<&str> = c.text.split('\n').collect();
    ensure!(p.line >= 1 && p.line <= lines.len(), "the error {p:?} is not in a line of {:?}", c.text);
    let cut = |n: usize| -> String { lines[..n].iter().map(|l| format!("{l}\n")).collect() };
    let after = cut(p.line);
    let got = pofile(after.as_str()).err().as_ref().and_then(position);
    ensure!(
        got == Some(p.clone()),
        "reading {:?} fails with {p:?}, but cut after that line with {got:?}",
        c.text
    );
    let before = cut(p.line - 1);
    if !is_path(&before) {
        let got = pofile(before.as_str()).err().as_ref().and_then(position);
        ensure!(got.is_none(), "reading {:?} fails with {p:?}, but cut before that line with {got:?}", c.text);
    }
    for t in ["msgid \"a\"\nmsgstr \"b\"\n", "\"\\z\"\n", "foo\n", "msgid \"\n", "#| \n", "\"x\"\n"] {
        let got = pofile(format!("{after}{t}").as_str()).err().as_ref().and_then(position);
        ensure!(got == Some(p.clone()), "reading {:?} fails with {p:?}, but followed by {t:?} with {got:?}", after);
    }
    Ok(true)
}

// ------------------------------------------------------------------ C04

fn c04_domain(e: &POEntry) -> bool {
    (e.msgstr.is_some() != !e.msgstr_plural.is_empty())
        && e.msgstr_plural.len() <= 256
        && (!e.msgid.is_empty() || e.msgctxt.is_some())
        && e.flags.iter().all(|f| !f.is_empty() && f.trim() == f && !f.contains(',') && !f.contains('\n'))
        && e.occurrences.iter().all(|(f, l)| {
            !f.is_empty()
                && !f.chars().any(|c| c.is_whitespace() || c == ':')
                && l.chars().all(|c| c.is_ascii_digit())
        })
}

fn fix_c04(r: &mut Rng, e: &mut POEntry) {
    if e.msgid.is_empty() && e.msgctxt.is_none() {
        e.msgid = "id".into();
    }
    if r.chance(70) {
        e.msgstr_plural.clear();
        if e.msgstr.is_none() {
            e.msgstr = Some(value(r));
        }
    } else {
        e.msgstr = None;
        if e.msgstr_plural.is_empty() {
            e.msgstr_plural = vec![value(r)];
        }
    }
}

pub fn gen_c04(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case { width: width(r), ..Default::default() };
    let n = 1 + r.below(4);
    for _ in 0..n {
        let mut e = entry(r, false);
        fix_c04(r, &mut e);
        c.entries.push(e);
    }
    if r.chance(40) {
        c.meta = meta(r);
    }
    if r.chance(20) {
        c.text = value(r);
    }
    c.flag = r.chance(10);
    c
}

pub fn build_po(c: &Case) -> POFile {
    let mut f = POFile::new(("", c.width).into());
    f.entries = c.entries.clone();
    for (k, v) in &c.meta {
        f.metadata.insert(k.clone(), v.clone());
    }
    f.metadata_is_fuzzy = c.flag;
    f
}

pub fn c04(c: &Case) -> R {
    if !c.entries.iter().all(c04_domain) {
        return Ok(false);
    }
    let mut f = build_po(c);
    if !c.text.is_empty() {
        f.header = Some(c.text.clone());
    }
    let t = f.to_string();
    let g = match pofile(t.as_str()) {
        Ok(g) => g,
        Err(e) => return Err(format!("the written file can not be read: {e}\n{t}")),
    };
    let exp: Vec<&POEntry> =
        c.entries.iter().filter(|e| !e.obsolete).chain(c.entries.iter().filter(|e| e.obsolete)).collect();
    ensure!(exp.len() == g.entries.len(), "{} messages written, {} read\n{t}", exp.len(), g.entries.len());
    for (a, b) in exp.iter().zip(&g.entries) {
        macro_rules! same { ($($f:ident),*) => { $( ensure!(a.$f == b.$f, "{} {:?} read back as {:?}\n{t}", stringify!($f), a.$f, b.$f); )* } }
        same!(msgid, msgid_plural, msgctxt, msgstr, msgstr_plural, flags, obsolete);
        if !a.obsolete {
            same!(previous_msgid, previous_msgid_plural, previous_msgctxt, occurrences);
        }
    }
    Ok(true)
}

// ------------------------------------------------------------------ C05 C06

/// positions that are inside an escape sequence
fn inside_escape(s: &str) -> Vec<bool> {
    let mut v = vec![false; s.len() + 1];
    let mut open = false;
    for (i, c) in s.char_indices() {
        v[i] = open;
        open = c == '\\' && !open;
    }
    v[s.len()] = open;
    v
}

/// sum of the widths of the characters; the width of a text can differ from it
/// for control characters and emoji sequences
fn char_width(s: &str) -> usize {
    s.chars().map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0)).sum()
}

fn check_segments(esc: &str, segs: &[String], w: usize, what: &str) -> Result<(), String> {
    ensure!(segs.concat() == esc, "{what}: the segments {segs:?} do not join to {esc:?}");
    let opp: Vec<usize> = linebreaks(esc).map(|(i, _)| i).collect();
    let inside = inside_escape(esc);
    let mut pos = 0;
    for (k, s) in segs.iter().enumerate() {
        let start = pos;
        pos += s.len();
        if k + 1 < segs.len() {
            ensure!(!inside[pos], "{what}: segment {s:?} ends inside an escape sequence of {esc:?}");
            ensure!(pos == 0 || opp.contains(&pos), "{what}: {esc:?} is broken at {pos}, not a break opportunity");
        }
        if UnicodeWidthStr::width(s.as_str()).min(char_width(s)) > w {
            let inner: Vec<usize> = opp.iter().cloned().filter(|o| *o > start && *o < pos).collect();
            ensure!(
                inner.is_empty() || inner.iter().any(|o| inside[*o]),
                "{what}: segment {s:?} is wider than {w} but {esc:?} can be broken at {inner:?}"
            );
        }
    }
    Ok(())
}

/// the quoted segments of a field: (keyword, segments), or what is wrong
fn fields(t: &str) -> Result<Vec<(String, Vec<String>)>, String> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    for l in t.split_terminator('\n') {
        if l.starts_with("# ") || l.starts_with("#. ") || l.starts_with("#: ") || l.starts_with("#, ") {
            continue;
        }
        let mut pre = "";
        let mut body = l;
        for p in ["#~| ", "#| ", "#~ "] {
            if let Some(b) = l.strip_prefix(p) {
                pre = p;
                body = b;
                break;
            }
        }
        let (kw, q) = match body.find('"') {
            Some(0) => ("", body),
            Some(i) => {
                ensure!(body[..i].ends_with(' '), "line {l:?} has no space before the quote");
                (&body[..i - 1], &body[i..])
            }
            None => return Err(format!("line {l:?} is not a field line")),
        };
        ensure!(q.len() >= 2 && q.ends_with('"'), "line {l:?} has no closing quote");
        let seg = q[1..q.len() - 1].to_string();
        let mut open = false;
        for c in seg.chars() {
            ensure!(c != '"' || open, "line {l:?} has a quote that is not escaped");
            open = c == '\\' && !open;
        }
        if kw.is_empty() {
            match out.last_mut() {
                Some((k, v)) if k.starts_with(pre) => v.push(seg),
                _ => return Err(format!("continuation line {l:?} without field")),
            }
        } else {
            out.push((format!("{pre}{kw}"), vec![seg]));
        }
    }
    Ok(out)
}

pub fn gen_c05(r: &mut Rng, i: u64) -> Case {
    let mut c = Case { width: width(r), ..Default::default() };
    let mut e = POEntry::new(0);
    const A: &[char] = &['a', ' ', '\\', '"', '\n', '-', '漢'];
    if i < 4 * 19608 {
        e.msgid = exhaust(A, i / 4, 5).unwrap();
        c.width = [0, 1, 2, 5][(i % 4) as usize];
        e.msgstr = Some(e.msgid.clone());
        c.entries = vec![e];
        return c;
    }
    e = entry(r, false);
    e.comment = None;
    e.tcomment = None;
    e.occurrences.clear();
    if r.chance(50) {
        e.msgid = words(r, 30);
    }
    c.flag = r.chance(30);
    if c.flag && r.chance(50) {
        c.meta = meta(r);
    }
    c.entries = vec![e];
    c
}

/// the proofs rest on these facts about unicode-width and unicode-linebreak
fn unicode_facts(texts: &[&str]) -> Result<(), String> {
    static CHARS: std::sync::Once = std::sync::Once::new();
    static BAD: std::sync::OnceLock<char> = std::sync::OnceLock::new();
    CHARS.call_once(|| {
        for c in '\0'..=char::MAX {
            if unicode_width::UnicodeWidthChar::width(c).unwrap_or(0) > c.len_utf8() || UnicodeWidthStr::width(c.to_string().as_str()) > c.len_utf8() {
                let _ = BAD.set(c);
            }
        }
    });
    ensure!(BAD.get().is_none(), "{:?} is wider than its bytes", BAD.get());
    for t in texts {
        ensure!(UnicodeWidthStr::width(*t) <= t.len(), "{t:?} is wider than its bytes");
        let b: Vec<usize> = linebreaks(t).map(|(i, _)| i).collect();
        ensure!(b.windows(2).all(|w| w[0] < w[1]) && b.iter().all(|i| *i > 0 && t.is_char_boundary(*i)), "breaks {b:?} of {t:?}");
        ensure!(t.is_empty() || b.last() == Some(&t.len()), "the last break of {b:?} is not the end of {t:?}");
    }
    Ok(())
}

pub fn c05(c: &Case) -> R {
    if c.entries.is_empty() {
        return Ok(false);
    }
    unicode_facts(&[&c.entries[0].msgid, c.entries[0].msgstr.as_deref().unwrap_or("")])?;
    let e = &c.entries[0];
    let t = e.to_string_with_wrapwidth(c.width);
    // carriage returns are escaped, so lines are separated by \n only
    let fs = fields(&t).map_err(|x| format!("{x}\n{t}"))?;
    let d = if e.obsolete { "#~ " } else { "" };
    let p = if e.obsolete { "#~| " } else { "#| " };
    let mut exp: Vec<(String, &str)> = vec![];
    if let Some(v) = &e.previous_msgctxt {
        exp.push((format!("{p}msgctxt"), v));
    }
    if let Some(v) = &e.previous_msgid {
        exp.push((format!("{p}msgid"), v));
    }
    if let Some(v) = &e.previous_msgid_plural {
        exp.push((format!("{p}msgid_plural"), v));
    }
    if let Some(v) = &e.msgctxt {
        exp.push((format!("{d}msgctxt"), v));
    }
    exp.push((format!("{d}msgid"), &e.msgid));
    if let Some(v) = &e.msgid_plural {
        exp.push((format!("{d}msgid_plural"), v));
    }
    if e.msgstr_plural.is_empty() {
        exp.push((format!("{d}msgstr"), e.msgstr.as_deref().unwrap_or("")));
    } else {
        for (i, v) in e.msgstr_plural.iter().enumerate() {
            exp.push((format!("{d}msgstr[{i}]"), v));
        }
    }
    let kws: Vec<&String> = fs.iter().map(|x| &x.0).collect();
    let ekws: Vec<&String> = exp.iter().map(|x| &x.0).collect();
    ensure!(kws == ekws, "fields {kws:?} written, expected {ekws:?}\n{t}");
    for ((k, segs), (_, v)) in fs.iter().zip(&exp) {
        check_segments(&ref_escape(v), segs, c.width, k).map_err(|x| format!("{x} (width {})\n{t}", c.width))?;
    }
    // MO messages are written in the same way
    if !e.obsolete {
        let mt = mo(e).to_string_with_wrapwidth(c.width);
        let mf = fields(&mt).map_err(|x| format!("{x}\n{mt}"))?;
        let skip = fs.len() - mf.len().min(fs.len());
        ensure!(mf[..] == fs[skip..], "the MO message is written as\n{mt}\nand the PO message as\n{t}");
    }
    // a file writes its messages at its own width
    let mut f = POFile::new(("", c.width).into());
    f.entries.push(e.clone());
    ensure!(f.to_string().contains(&t), "a file of width {} writes the message as\n{f}\nand not as\n{t}", c.width);
    if !e.obsolete {
        let mt = mo(e).to_string_with_wrapwidth(c.width);
        let mut f = MOFile::new(("", c.width).into());
        f.entries.push(mo(e));
        ensure!(f.to_string().contains(mt.trim_end()), "a MO file of width {} writes the message as\n{f}\nand not as\n{mt}", c.width);
    }
    Ok(true)
}

pub fn gen_c06(r: &mut Rng, i: u64) -> Case {
    let mut c = Case { width: width(r), ..Default::default() };
    let mut e = POEntry::new(0);
    const A: &[char] = &['a', ' ', '#', '\n', '-', '漢'];
    if i < 4 * 9331 {
        e.tcomment = exhaust(A, i / 4, 5);
        e.comment = e.tcomment.clone();
        c.width = [0, 2, 4, 6][(i % 4) as usize];
    } else {
        e = entry(r, false);
        if r.chance(60) {
            e.comment = Some(words(r, 25));
            e.tcomment = Some(words(r, 25));
        }
        if r.chance(60) {
            e.occurrences = occs(r, 12);
        }
        if r.chance(10) {
            e.occurrences.push((text(r, 6).replace('\n', ""), text(r, 3).replace('\n', "")));
        }
        e.msgid = "id".into();
    }
    c.entries = vec![e];
    c
}

pub fn c06(c: &Case) -> R {
    if c.entries.is_empty() {
        return Ok(false);
    }
    let e = &c.entries[0];
    if e.occurrences.iter().any(|(a, b)| a.contains('\n') || b.contains('\n')) {
        return Ok(false);
    }
    let t = e.to_string_with_wrapwidth(c.width);
    let all: Vec<&str> = t.split_terminator('\n').collect();
    let mut i = 0;
    for (text, pre) in [(&e.tcomment, "# "), (&e.comment, "#. ")] {
        if let Some(text) = text {
            for line in text.lines() {
                let mut segs: Vec<String> = vec![];
                loop {
                    ensure!(i < all.len(), "comment line {line:?} is not written completely\n{t}");
                    let s = match all[i].strip_prefix(pre) {
                        Some(s) => s,
                        None => {
                            return Err(format!("line {:?} written for comment line {line:?} does not start with {pre:?}\n{t}", all[i]))
                        }
                    };
                    segs.push(s.to_string());
                    i += 1;
                    let j = segs.concat();
                    if j == line {
                        break;
                    }
                    ensure!(line.starts_with(&j), "comment line {line:?} is written as {segs:?}\n{t}");
                }
                let opp: Vec<usize> = linebreaks(line).map(|(i, _)| i).collect();
                let mut pos = 0;
                for s in &segs[..segs.len() - 1] {
                    pos += s.len();
                    ensure!(opp.contains(&pos), "comment line {line:?} is broken at {pos}\n{t}");
                }
            }
        }
    }
    if !e.obsolete && !e.occurrences.is_empty() {
        let exp = e
            .occurrences
            .iter()
            .map(|(f, l)| if l.is_empty() { f.clone() } else { format!("{f}:{l}") })
            .collect::<Vec<_>>()
            .join(" ");
        let mut got: Vec<&str> = vec![];
        while i < all.len() {
            match all[i].strip_prefix("#: ") {
                Some(s) => got.push(s),
                None => break,
            }
            i += 1;
        }
        ensure!(got.join(" ") == exp, "occurrences {:?} are written as {got:?}\n{t}", e.occurrences);
    }
    for l in &all[i..] {
        ensure!(
            !l.starts_with("# ") && !l.starts_with("#. ") && !l.starts_with("#: "),
            "unexpected comment line {l:?}\n{t}"
        );
    }
    Ok(e.tcomment.is_some() || e.comment.is_some() || !e.occurrences.is_empty())
}

// ------------------------------------------------------------------ C07

/// Writes messages as PO text in a random but well-formed way. The case holds
/// the text and the expected messages.
fn split_quoted(r: &mut Rng, pre: &str, kw: &str, v: &str, out: &mut String) {
    let esc = ref_escape(v);
    // split points that are not inside an escape sequence
    let inside = inside_escape(&esc);
    let mut cuts: Vec<usize> = vec![];
    for (i, _) in esc.char_indices() {
        if !inside[i] && r.chance(12) {
            cuts.push(i);
        }
    }
    let sp = |r: &mut Rng| -> &'static str { *r.pick(&[" ", " ", " ", "  ", "\t", " \t "]) };
    let trail = |r: &mut Rng| -> &'static str { *r.pick(&["\n", "\n", "\n", " \n", "\r\n", "\t\n"]) };
    let lead = |r: &mut Rng| -> &'static str { if pre.is_empty() { *r.pick(&["", "", "", " ", "\t"]) } else { "" } };
    let mut prev = 0;
    let mut first = true;
    cuts.push(esc.len());
    for c in cuts {
        let seg = &esc[prev..c];
        prev = c;
        out.push_str(lead(r));
        out.push_str(pre);
        if first {
            out.push_str(kw);
            out.push_str(sp(r));
        }
        out.push('"');
        out.push_str(seg);
        out.push('"');
        out.push_str(trail(r));
        first = false;
        if r.chance(4) {
            out.push('\n');
        }
    }
}

fn one_line(r: &mut Rng) -> String {
    let s: String = words(r, 5).chars().filter(|c| !"\n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(*c)).collect();
    s.trim().to_string()
}

pub fn gen_c07(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::default();
    let mut t = String::new();
    let n = r.below(4);
    let with_header = r.chance(50);
    if with_header {
        t.push_str("# header\n");
    }
    if r.chance(50) {
        t.push_str("msgid \"\"\nmsgstr \"Language: es\\n\"\n");
        if r.chance(50) {
            t.push('\n');
        }
    } else if !with_header && n > 0 && r.chance(30) {
        // a message without msgid that is not the metadata
        let mut e = POEntry::new(0);
        if r.chance(50) {
            e.msgctxt = Some("c".to_string());
            t.push_str("msgctxt \"c\"\n");
        }
        t.push_str("msgid \"\"\n");
        if e.msgctxt.is_none() || r.chance(50) {
            e.msgid_plural = Some("p".to_string());
            e.msgstr_plural = vec!["x: y".to_string()];
            t.push_str("msgid_plural \"p\"\nmsgstr[0] \"x: y\"\n\n");
        } else {
            e.msgstr = Some("x: y".to_string());
            t.push_str("msgstr \"x: y\"\n\n");
        }
        c.entries.push(e);
    } else if n > 0 || with_header {
        // comments before the first message belong to the header
        t.push_str("msgid \"\"\nmsgstr \"\"\n");
    }
    for _ in 0..n {
        let mut e = entry(r, false);
        fix_c04(r, &mut e);
        e.linenum = 0;
        e.comment = None;
        e.tcomment = None;
        let obs = e.obsolete;
        let mut parts: Vec<String> = vec![];
        if r.chance(40) {
            let k = 1 + r.below(3);
            let mut ls: Vec<String> = vec![];
            let mut p = String::new();
            for _ in 0..k {
                let l = one_line(r);
                if l.is_empty() || l.starts_with('#') {
                    continue;
                }
                p.push_str(&format!("# {l}\n"));
                ls.push(l);
            }
            if !ls.is_empty() {
                e.tcomment = Some(ls.join("\n"));
                parts.push(p);
            }
        }
        if r.chance(40) {
            let k = 1 + r.below(3);
            let mut ls: Vec<String> = vec![];
            let mut p = String::new();
            for _ in 0..k {
                let l = one_line(r);
                if l.is_empty() || !l.chars().any(|c| !c.is_ascii_whitespace()) {
                    continue;
                }
                p.push_str(&format!("#. {l}\n"));
                ls.push(l);
            }
            if !ls.is_empty() {
                e.comment = Some(ls.join("\n"));
                parts.push(p);
            }
        }
        if !e.occurrences.is_empty() {
            let mut p = String::new();
            let mut k = 0;
            while k < e.occurrences.len() {
                let m = 1 + r.below(3);
                p.push_str("#:");
                for (f, l) in e.occurrences.iter().skip(k).take(m) {
                    p.push_str(if r.chance(80) { " " } else { "  " });
                    p.push_str(f);
                    if !l.is_empty() {
                        p.push(':');
                        p.push_str(l);
                    }
                }
                p.push('\n');
                k += m;
            }
            parts.push(p);
        }
        if !e.flags.is_empty() {
            let mut p = String::new();
            let mut k = 0;
            while k < e.flags.len() {
                let m = 1 + r.below(3);
                p.push_str("#, ");
                let v: Vec<String> = e.flags.iter().skip(k).take(m).cloned().collect();
                p.push_str(&v.join(if r.chance(70) { ", " } else { "," }));
                p.push('\n');
                k += m;
            }
            parts.push(p);
        }
        if !obs {
            let mut p = String::new();
            if let Some(v) = &e.previous_msgctxt {
                split_quoted(r, "#| ", "msgctxt", v, &mut p);
            }
            if let Some(v) = &e.previous_msgid {
                split_quoted(r, "#| ", "msgid", v, &mut p);
            }
            if let Some(v) = &e.previous_msgid_plural {
                split_quoted(r, "#| ", "msgid_plural", v, &mut p);
            }
            if !p.is_empty() {
                parts.push(p);
            }
        } else {
            e.previous_msgctxt = None;
            e.previous_msgid = None;
            e.previous_msgid_plural = None;
        }
        // the kinds of comment lines come in any order
        while !parts.is_empty() {
            let k = r.below(parts.len());
            t.push_str(&parts.remove(k));
        }
        let pre = if obs { "#~ " } else { "" };
        if let Some(v) = &e.msgctxt {
            split_quoted(r, pre, "msgctxt", v, &mut t);
        }
        split_quoted(r, pre, "msgid", &e.msgid, &mut t);
        if let Some(v) = &e.msgid_plural {
            split_quoted(r, pre, "msgid_plural", v, &mut t);
        }
        if let Some(v) = &e.msgstr {
            split_quoted(r, pre, "msgstr", v, &mut t);
        }
        for (i, v) in e.msgstr_plural.iter().enumerate() {
            split_quoted(r, pre, &format!("msgstr[{i}]"), v, &mut t);
        }
        for _ in 0..r.below(3) {
            t.push('\n');
        }
        c.entries.push(e);
    }
    c.text = t;
    c.flag = r.chance(20);
    c
}

pub fn c07(c: &Case) -> R {
    if is_path(&c.text) {
        return Ok(false);
    }
    let g = if c.flag { pofile(c.text.clone().into_bytes()) } else { pofile(c.text.as_str()) };
    let g = match g {
        Ok(g) => g,
        Err(e) => return Err(format!("can not be read: {e}\n{}", c.text)),
    };
    ensure!(g.entries.len() == c.entries.len(), "{} messages read, expected {}\n{}", g.entries.len(), c.entries.len(), c.text);
    for (a, b) in c.entries.iter().zip(&g.entries) {
        let mut b = b.clone();
        b.linenum = 0;
        ensure!(*a == b, "read as {b:?}\nexpected {a:?}\n{}", c.text);
    }
    Ok(!c.entries.is_empty())
}

// ------------------------------------------------------------------ MO files

pub fn build_mo(c: &Case) -> MOFile {
    let mut f = MOFile::new(("", 78).into());
    f.entries = c.entries.iter().map(mo).collect();
    for (k, v) in &c.meta {
        f.metadata.insert(k.clone(), v.clone());
    }
    f
}

fn nul_eot(s: &str) -> bool {
    s.contains('\0') || s.contains('\u{4}')
}

fn any_text(e: &POEntry, p: fn(&str) -> bool) -> bool {
    p(&e.msgid)
        || e.msgstr.as_deref().map_or(false, p)
        || e.msgid_plural.as_deref().map_or(false, p)
        || e.msgctxt.as_deref().map_or(false, p)
        || e.msgstr_plural.iter().any(|s| p(s))
}

fn meta_domain(m: &[(String, String)]) -> bool {
    m.iter().all(|(k, v)| {
        !k.is_empty() && !k.contains(':') && !k.contains('\n') && !v.contains('\n') && v.trim() == v
    })
}

pub fn gen_mo(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case { flag: r.chance(50), num: r.below(2) as u64, ..Default::default() };
    let n = r.below(6);
    for _ in 0..n {
        let small = r.chance(40);
        let mut e = entry(r, small);
        if e.msgid.is_empty() && e.msgctxt.is_none() && r.chance(90) {
            e.msgid = "id".into();
        }
        if e.msgid_plural.is_some() {
            if e.msgstr_plural.is_empty() && r.chance(90) {
                e.msgstr_plural = vec![value(r)];
            }
        } else if e.msgstr.is_none() && r.chance(90) {
            e.msgstr = Some(value(r));
        }
        c.entries.push(e);
    }
    c.meta = meta(r);
    c
}

fn key(e: &MOEntry) -> Vec<u8> {
    let mut k = vec![];
    if let Some(c) = &e.msgctxt {
        k.extend(c.as_bytes());
        k.push(4);
    }
    k.extend(e.msgid.as_bytes());
    k
}

pub fn c08(c: &Case) -> R {
    let ok = |e: &POEntry| {
        !any_text(e, nul_eot)
            && (!e.msgid.is_empty() || e.msgctxt.is_some())
            && (if e.msgid_plural.is_some() { !e.msgstr_plural.is_empty() } else { e.msgstr.is_some() })
    };
    if !c.entries.iter().all(ok) || !meta_domain(&c.meta) {
        return Ok(false);
    }
    let f = build_mo(c);
    let b = if c.flag { f.as_bytes_be().to_vec() } else { f.as_bytes_le().to_vec() };
    ensure!(c.flag || f.as_bytes().to_vec() == b, "as_bytes is not as_bytes_le");
    let g = match mofile(b) {
        Ok(g) => g,
        Err(e) => return Err(format!("the written file can not be read: {e}")),
    };
    ensure!(f.metadata == g.metadata, "metadata {:?} read back as {:?}", f.metadata, g.metadata);
    ensure!(g.entries.len() == f.entries.len(), "{} messages written, {} read", f.entries.len(), g.entries.len());
    // messages with the same context and msgid come in any order
    let norm = |e: &MOEntry| {
        (
            key(e),
            e.msgctxt.clone(),
            e.msgid_plural.clone(),
            if e.msgid_plural.is_some() { None } else { e.msgstr.clone() },
            if e.msgid_plural.is_some() { e.msgstr_plural.clone() } else { vec![] },
        )
    };
    let mut a: Vec<_> = f.entries.iter().map(norm).collect();
    let mut b: Vec<_> = g.entries.iter().map(norm).collect();
    let keys: Vec<Vec<u8>> = b.iter().map(|x| x.0.clone()).collect();
    let mut sorted = keys.clone();
    sorted.sort();
    ensure!(keys == sorted, "the messages read are not sorted by context and msgid: {keys:?}");
    a.sort();
    b.sort();
    ensure!(a == b, "messages {a:?} read back as {b:?}");
    Ok(!f.entries.is_empty())
}

fn u32_at(b: &[u8], o: usize, be: bool) -> Option<u32> {
    let x: [u8; 4] = b.get(o..o.checked_add(4)?)?.try_into().ok()?;
    Some(if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) })
}

pub fn c09(c: &Case) -> R {
    if c.entries.iter().any(|e| any_text(e, |s| s.contains('\0'))) {
        return Ok(false);
    }
    let f = build_mo(c);
    let be = c.flag;
    let b = f.as_bytes_with(if be { MAGIC_SWAPPED } else { MAGIC }, c.num as u32).to_vec();
    let u = |o: usize| u32_at(&b, o, be).ok_or(format!("the output has {} bytes, no number at {o}", b.len()));
    ensure!(u(0)? == 0x950412de, "magic number {:x?}", &b[..4]);
    ensure!(u(4)? as u64 == c.num, "revision {} instead of {}", u(4)?, c.num);
    let n = u(8)? as usize;
    ensure!(n == f.entries.len() + 1, "{n} strings for {} messages", f.entries.len());
    let (o, t) = (u(12)? as usize, u(16)? as usize);
    let mut strings: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..n {
        let get = |base: usize| -> Result<Vec<u8>, String> {
            let (l, p) = (u(base + 8 * i)? as usize, u(base + 8 * i + 4)? as usize);
            let s = b.get(p..p + l).ok_or(format!("string {i} at {p}+{l} is outside of {} bytes", b.len()))?;
            ensure!(b.get(p + l) == Some(&0), "string {i} at {p}+{l} is not NUL-terminated");
            Ok(s.to_vec())
        };
        strings.push((get(o)?, get(t)?));
    }
    let first = |s: &Vec<u8>| -> Vec<u8> { s.split(|x| *x == 0).next().unwrap().to_vec() };
    for w in strings.windows(2) {
        ensure!(first(&w[0].0) <= first(&w[1].0), "original strings {:?} and {:?} are not sorted", w[0].0, w[1].0);
    }
    let mut exp: Vec<(Vec<u8>, Vec<u8>)> = f
        .entries
        .iter()
        .map(|e| {
            let mut k = key(e);
            let v = match &e.msgid_plural {
                Some(p) => {
                    k.push(0);
                    k.extend(p.as_bytes());
                    e.msgstr_plural.join("\0").into_bytes()
                }
                None => e.msgstr.clone().unwrap_or_default().into_bytes(),
            };
            (k, v)
        })
        .collect();
    exp.push((vec![], f.metadata_as_entry().msgstr.unwrap_or_default().into_bytes()));
    exp.sort();
    strings.sort();
    ensure!(exp == strings, "strings {strings:?} instead of {exp:?}");
    Ok(true)
}

pub fn gen_c10(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::default();
    let m = gen_mo(r, i);
    let f = build_mo(&m);
    let mut b = f.as_bytes_with(if m.flag { MAGIC_SWAPPED } else { MAGIC }, r.below(3) as u32).to_vec();
    if b.is_empty() {
        return c;
    }
    match r.below(6) {
        0 => {}
        1 => {
            let k = r.below(b.len());
            b.truncate(k)
        }
        2 => {
            for _ in 0..1 + r.below(4) {
                let k = r.below(b.len());
                b[k] = *r.pick(&[0, 1, 2, 4, 0x7f, 0x80, 0xff, b'a', 28, 44]);
            }
        }
        3 => {
            // a number of the header or of the tables
            let n = (b.len() / 4).min(7 + 4 * (f.entries.len() + 1));
            let k = r.below(n.max(1)) * 4;
            let len = b.len() as u32;
            let v = *r.pick(&[0, 1, 2, 7, 28, len - 1, len, len + 1, len.wrapping_sub(8), u32::MAX, u32::MAX - 7, 1 << 31, 1 << 16]);
            let v = if m.flag { v.to_be_bytes() } else { v.to_le_bytes() };
            if k + 4 <= b.len() {
                b[k..k + 4].copy_from_slice(&v);
            }
        }
        4 => {
            let k = r.below(b.len() + 1);
            b.insert(k, r.below(256) as u8)
        }
        _ => {
            let n = r.below(60);
            b = (0..n).map(|_| r.below(256) as u8).collect();
            if r.chance(80) {
                let mut h = if r.chance(50) { MAGIC.to_le_bytes() } else { MAGIC.to_be_bytes() }.to_vec();
                h.extend([0, 0, 0, 0]);
                if r.chance(70) {
                    h.extend([r.below(3) as u8, 0, 0, r.below(3) as u8]);
                }
                h.extend(b);
                b = h;
            }
        }
    }
    c.bytes = b;
    c
}

/// what the tables say: None if a part is outside of the input
fn ref_mo(b: &[u8]) -> Option<(u32, u32, Vec<(Vec<u8>, Vec<u8>)>)> {
    let m = u32_at(b, 0, false)?;
    let be = match m {
        0x950412de => false,
        0xde120495 => true,
        _ => return None,
    };
    let rev = u32_at(b, 4, be)?;
    if rev > 1 {
        return None;
    }
    let n = u32_at(b, 8, be)? as usize;
    let (o, t) = (u32_at(b, 12, be)? as usize, u32_at(b, 16, be)? as usize);
    if n > b.len() {
        return None;
    }
    let mut v = vec![];
    for i in 0..n {
        let get = |base: usize| -> Option<Vec<u8>> {
            let (l, p) = (u32_at(b, base + 8 * i, be)? as usize, u32_at(b, base + 8 * i + 4, be)? as usize);
            if l == 0 {
                return Some(vec![]); // nothing to be inside
            }
            Some(b.get(p..p + l)?.to_vec())
        };
        v.push((get(o)?, get(t)?));
    }
    Some((m, rev, v))
}

pub fn c10(c: &Case) -> R {
    let b = &c.bytes;
    let t = String::from_utf8_lossy(&b[..b.len().min(40)]).to_string();
    if !is_path(&t) {
        ensure!(mofile(t.as_str()).is_err(), "the text {t:?}, which is not a path, is read as a MO file");
    }
    match mofile(b.clone()) {
        Err(_) => Ok(b.len() >= 20),
        Ok(f) => {
            let (m, rev, v) = match ref_mo(b) {
                Some(x) => x,
                None => return Err(format!("{} bytes with a part outside of the input or a wrong header are read as {f:?}", b.len())),
            };
            ensure!(f.magic_number == Some(m) && f.version == Some(rev), "magic {:?} and revision {:?}", f.magic_number, f.version);
            let mut i = 0;
            if let Some((k, _)) = v.first() {
                if k.is_empty() {
                    i = 1;
                }
            }
            ensure!(f.entries.len() == v.len() - i, "{} messages from {} strings", f.entries.len(), v.len());
            for (e, (k, s)) in f.entries.iter().zip(&v[i..]) {
                let s = String::from_utf8_lossy(s).to_string();
                let mut kk = String::new();
                if let Some(x) = &e.msgctxt {
                    kk.push_str(x);
                    kk.push('\u{4}');
                }
                kk.push_str(&e.msgid);
                if let Some(x) = &e.msgid_plural {
                    kk.push('\0');
                    kk.push_str(x);
                }
                let k = String::from_utf8_lossy(k).to_string();
                ensure!(k == kk || k.starts_with(&format!("{kk}\0")), "original string {k:?} read as {e:?}");
                let got = if e.msgid_plural.is_some() { e.msgstr_plural.join("\0") } else { e.msgstr.clone().unwrap_or_default() };
                ensure!(got == s, "translated string {s:?} read as {e:?}");
            }
            Ok(true)
        }
    }
}

// ------------------------------------------------------------------ C11

fn ref_translated(e: &POEntry) -> bool {
    if e.obsolete || e.flags.iter().any(|f| f == "fuzzy") {
        return false;
    }
    match &e.msgstr {
        Some(s) => !s.is_empty(),
        None => !e.msgstr_plural.is_empty() && e.msgstr_plural.iter().all(|s| !s.is_empty()),
    }
}

pub fn gen_file(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case { width: width(r), flag: r.chance(30), num: r.next() & 0xffff, ..Default::default() };
    let small = r.chance(70);
    for _ in 0..r.below(7) {
        c.entries.push(entry(r, small));
    }
    if r.chance(30) && !c.entries.is_empty() {
        let e = r.pick(&c.entries).clone();
        c.entries.push(e);
    }
    for _ in 0..r.below(6) {
        let e = if r.chance(40) && !c.entries.is_empty() {
            let mut e = r.pick(&c.entries).clone();
            if r.chance(60) {
                e.msgstr = Some(value(r));
                e.obsolete = r.chance(30);
            }
            e
        } else {
            entry(r, small)
        };
        c.others.push(e);
    }
    if r.chance(30) && !c.others.is_empty() {
        let mut e = r.pick(&c.others).clone();
        e.msgstr = Some(value(r));
        c.others.push(e);
    }
    c.meta = meta(r);
    c.strs = (0..4)
        .map(|_| {
            if r.chance(50) {
                r.pick(&["", "a", "b", "ab"]).to_string()
            } else if let Some(e) = (!c.entries.is_empty()).then(|| r.pick(&c.entries).clone()) {
                match r.below(7) {
                    0 => e.msgid,
                    1 => e.msgstr.unwrap_or_default(),
                    2 => e.msgctxt.unwrap_or_default(),
                    3 => e.msgid_plural.unwrap_or_default(),
                    4 => e.previous_msgid.unwrap_or_default(),
                    5 => e.previous_msgctxt.unwrap_or_default(),
                    _ => e.previous_msgid_plural.unwrap_or_default(),
                }
            } else {
                value(r)
            }
        })
        .collect();
    c
}

pub fn c11(c: &Case) -> R {
    let f = build_po(c);
    let m = MOFile::from(&f);
    let exp: Vec<MOEntry> = c.entries.iter().filter(|e| ref_translated(e)).map(mo).collect();
    ensure!(m.entries == exp, "converted to {:?}, expected {exp:?}", m.entries);
    ensure!(m.metadata == f.metadata, "metadata {:?} converted to {:?}", f.metadata, m.metadata);
    for be in [false, true] {
        let a = if be { f.as_bytes_be().to_vec() } else { f.as_bytes_le().to_vec() };
        let b = if be { m.as_bytes_be().to_vec() } else { m.as_bytes_le().to_vec() };
        ensure!(a == b, "serialising the PO file differs from serialising the MO file");
        // and it holds exactly the translated messages
        if !exp.iter().any(|e| nul_eot(&e.msgid) || e.msgid.is_empty() && e.msgctxt.is_none()) {
            let (_, _, v) = ref_mo(&a).ok_or("the serialised file is not valid")?;
            ensure!(v.len() == exp.len() + 1, "{} strings serialised for {} translated messages", v.len(), exp.len());
        }
    }
    ensure!(f.as_bytes().to_vec() == f.as_bytes_le().to_vec(), "as_bytes is not as_bytes_le");
    if c.num % 16 == 0 {
        let p = format!("{}/c11-{}.mo", crate::scratch(), std::process::id());
        f.save_as_mofile(&p);
        let b = std::fs::read(&p).map_err(|e| e.to_string())?;
        std::fs::remove_file(&p).ok();
        ensure!(b == m.as_bytes_le().to_vec(), "the saved file differs from the serialised one");
    }
    Ok(!c.entries.is_empty())
}

// ------------------------------------------------------------------ C12 C13

fn field<'a>(e: &'a POEntry, by: &str) -> Option<&'a str> {
    match by {
        "msgid" => Some(&e.msgid),
        "msgstr" => Some(e.msgstr.as_deref().unwrap_or("")),
        "msgctxt" => Some(e.msgctxt.as_deref().unwrap_or("")),
        "msgid_plural" => Some(e.msgid_plural.as_deref().unwrap_or("")),
        "previous_msgid" => Some(e.previous_msgid.as_deref().unwrap_or("")),
        "previous_msgid_plural" => Some(e.previous_msgid_plural.as_deref().unwrap_or("")),
        "previous_msgctxt" => Some(e.previous_msgctxt.as_deref().unwrap_or("")),
        _ => None,
    }
}

pub fn c12(c: &Case) -> R {
    let f = build_po(c);
    let m = build_mo(c);
    let before = f.clone();
    let mbefore = m.clone();
    let v = c.strs.first().map(|s| s.as_str()).unwrap_or("");
    let x = c.strs.get(1).map(|s| s.as_str()).unwrap_or("");
    let ctxs = [None, Some(x), Some("")];
    for by in ["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "flags", "", "Msgid"] {
        for ctx in ctxs {
            for obs in [false, true] {
                let got: Vec<&POEntry> = f.find(v, by, ctx, obs);
                let exp: Vec<&POEntry> = f
                    .entries
                    .iter()
                    .filter(|e| {
                        field(e, by) == Some(v)
                            && ctx.map_or(true, |k| e.msgctxt.as_deref().unwrap_or("") == k)
                            && (obs || !e.obsolete)
                    })
                    .collect();
                let same = got.len() == exp.len() && got.iter().zip(&exp).all(|(a, b)| std::ptr::eq(*a, *b));
                ensure!(same, "find({v:?}, {by:?}, {ctx:?}, {obs}) finds {got:?}, expected {exp:?}");
            }
            let got: Vec<&MOEntry> = m.find(v, by, ctx);
            let exp: Vec<&MOEntry> = m
                .entries
                .iter()
                .filter(|e| {
                    let fv = match by {
                        "msgid" => Some(e.msgid.as_str()),
                        "msgstr" => Some(e.msgstr.as_deref().unwrap_or("")),
                        "msgctxt" => Some(e.msgctxt.as_deref().unwrap_or("")),
                        "msgid_plural" => Some(e.msgid_plural.as_deref().unwrap_or("")),
                        _ => None,
                    };
                    fv == Some(v) && ctx.map_or(true, |k| e.msgctxt.as_deref().unwrap_or("") == k)
                })
                .collect();
            let same = got.len() == exp.len() && got.iter().zip(&exp).all(|(a, b)| std::ptr::eq(*a, *b));
            ensure!(same, "MO find({v:?}, {by:?}, {ctx:?}) finds {got:?}, expected {exp:?}");
        }
    }
    let got = f.find_by_msgid(v);
    let exp = c.entries.iter().find(|e| e.msgid == v).cloned();
    ensure!(got == exp, "find_by_msgid({v:?}) gives {got:?}, expected {exp:?}");
    let got = m.find_by_msgid(v).cloned();
    let exp = m.entries.iter().find(|e| e.msgid == v).cloned();
    ensure!(got == exp, "MO find_by_msgid({v:?}) gives {got:?}, expected {exp:?}");
    if !x.is_empty() {
        let got = f.find_by_msgid_msgctxt(v, x);
        let exp = c.entries.iter().find(|e| e.msgid == v && e.msgctxt.as_deref() == Some(x)).cloned();
        ensure!(got == exp, "find_by_msgid_msgctxt({v:?}, {x:?}) gives {got:?}, expected {exp:?}");
        let got = m.find_by_msgid_msgctxt(v, x).cloned();
        let exp = m.entries.iter().find(|e| e.msgid == v && e.msgctxt.as_deref() == Some(x)).cloned();
        ensure!(got == exp, "MO find_by_msgid_msgctxt({v:?}, {x:?}) gives {got:?}, expected {exp:?}");
    }
    ensure!(f == before && m == mbefore, "the file was changed by a search");
    Ok(!c.entries.is_empty())
}

pub fn c13(c: &Case) -> R {
    let f = build_po(c);
    let m = build_mo(c);
    let v = c.strs.first().map(|s| s.as_str()).unwrap_or("");
    let x = c.strs.get(1).map(|s| s.as_str()).unwrap_or("");
    let mut victims: Vec<POEntry> = c.others.clone();
    victims.extend(c.entries.first().cloned());
    for e in &victims {
        let mut g = f.clone();
        g.remove(e);
        let mut exp = f.clone();
        exp.entries = f.entries.iter().filter(|y| *y != e).cloned().collect();
        ensure!(g == exp, "remove({e:?}) leaves {:?}", g.entries);
        let me = mo(e);
        let mut g = m.clone();
        g.remove(&me);
        let mut exp = m.clone();
        exp.entries = m.entries.iter().filter(|y| **y != me).cloned().collect();
        ensure!(g == exp, "MO remove({me:?}) leaves {:?}", g.entries);
    }
    let mut g = f.clone();
    g.remove_by_msgid(v);
    let mut exp = f.clone();
    exp.entries = f.entries.iter().filter(|y| y.msgid != v).cloned().collect();
    ensure!(g == exp, "remove_by_msgid({v:?}) leaves {:?}", g.entries);
    let mut g = m.clone();
    g.remove_by_msgid(v);
    let mut exp = m.clone();
    exp.entries = m.entries.iter().filter(|y| y.msgid != v).cloned().collect();
    ensure!(g == exp, "MO remove_by_msgid({v:?}) leaves {:?}", g.entries);
    for k in [x, ""] {
        let mut g = f.clone();
        g.remove_by_msgid_msgctxt(v, k);
        let mut exp = f.clone();
        exp.entries =
            f.entries.iter().filter(|y| !(y.msgid == v && y.msgctxt.as_deref().unwrap_or("") == k)).cloned().collect();
        ensure!(g == exp, "remove_by_msgid_msgctxt({v:?}, {k:?}) leaves {:?}", g.entries);
        let mut g = m.clone();
        g.remove_by_msgid_msgctxt(v, k);
        let mut exp = m.clone();
        exp.entries =
            m.entries.iter().filter(|y| !(y.msgid == v && y.msgctxt.as_deref().unwrap_or("") == k)).cloned().collect();
        ensure!(g == exp, "MO remove_by_msgid_msgctxt({v:?}, {k:?}) leaves {:?}", g.entries);
    }
    Ok(!c.entries.is_empty())
}

// ------------------------------------------------------------------ C14

pub fn gen_c14(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case { num: r.next() & 0xffff, ..Default::default() };
    let base = entry(r, true);
    for _ in 0..3 {
        let mut e = if r.chance(70) { base.clone() } else { entry(r, true) };
        // change a few fields only, so that the comparison reaches all of them
        for _ in 0..r.below(3) {
            let o = entry(r, true);
            match r.below(9) {
                0 => e.msgid = o.msgid,
                1 => e.msgstr = if r.chance(20) { Some("\0".into()) } else { o.msgstr },
                2 => e.msgid_plural = if r.chance(20) { Some("\0".into()) } else { o.msgid_plural },
                3 => e.msgstr_plural = o.msgstr_plural,
                4 => e.msgctxt = if r.chance(20) { Some("\0".into()) } else { o.msgctxt },
                5 => e.obsolete = !e.obsolete,
                6 => e.occurrences = o.occurrences,
                7 => e.flags = o.flags,
                _ => {
                    e.flags.reverse();
                    e.occurrences.reverse();
                    e.msgstr_plural.reverse();
                }
            }
        }
        if r.chance(20) {
            e.comment = Some(value(r));
            e.tcomment = Some(value(r));
            e.previous_msgid = Some(value(r));
            e.linenum = r.below(9);
        }
        c.entries.push(e);
    }
    c
}

fn options(mask: u64) -> EntryCmpByOptions {
    EntryCmpByOptions::new()
        .by_all(false)
        .by_msgid(mask & 1 != 0)
        .by_msgstr(mask & 2 != 0)
        .by_msgctxt(mask & 4 != 0)
        .by_obsolete(mask & 8 != 0)
        .by_occurrences(mask & 16 != 0)
        .by_msgid_plural(mask & 32 != 0)
        .by_msgstr_plural(mask & 64 != 0)
        .by_flags(mask & 128 != 0)
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn agree(a: &POEntry, b: &POEntry, mask: u64, po: bool) -> bool {
    let o = |s: &Option<String>| s.clone().unwrap_or("\0".into());
    (mask & 1 == 0 || a.msgid == b.msgid)
        && (mask & 2 == 0 || o(&a.msgstr) == o(&b.msgstr))
        && (mask & 4 == 0 || o(&a.msgctxt) == o(&b.msgctxt))
        && (!po || mask & 8 == 0 || a.obsolete == b.obsolete)
        && (!po || mask & 16 == 0 || sorted(&a.occurrences) == sorted(&b.occurrences))
        && (mask & 32 == 0 || o(&a.msgid_plural) == o(&b.msgid_plural))
        && (mask & 64 == 0 || sorted(&a.msgstr_plural) == sorted(&b.msgstr_plural))
        && (!po || mask & 128 == 0 || sorted(&a.flags) == sorted(&b.flags))
}

/// the selected fields of `a`, the other fields of `b`
fn mix(a: &POEntry, b: &POEntry, mask: u64) -> POEntry {
    let mut e = b.clone();
    if mask & 1 != 0 { e.msgid = a.msgid.clone() }
    if mask & 2 != 0 { e.msgstr = a.msgstr.clone() }
    if mask & 4 != 0 { e.msgctxt = a.msgctxt.clone() }
    if mask & 8 != 0 { e.obsolete = a.obsolete }
    if mask & 16 != 0 { e.occurrences = a.occurrences.clone() }
    if mask & 32 != 0 { e.msgid_plural = a.msgid_plural.clone() }
    if mask & 64 != 0 { e.msgstr_plural = a.msgstr_plural.clone() }
    if mask & 128 != 0 { e.flags = a.flags.clone() }
    e
}

pub fn c14(c: &Case) -> R {
    let e = &c.entries;
    if e.len() < 3 {
        return Ok(false);
    }
    let mut masks: Vec<u64> = (0..8).map(|i| 1 << i).collect();
    masks.extend([0, 255, c.num & 255, (c.num >> 8) & 255]);
    for mask in masks {
        let o = options(mask);
        let po = |i: usize, j: usize| e[i].cmp_by(&e[j], &o);
        let ms: Vec<MOEntry> = e.iter().map(mo).collect();
        let mm = |i: usize, j: usize| ms[i].cmp_by(&ms[j], &o);
        let cmps: [(bool, &dyn Fn(usize, usize) -> Ordering); 2] = [(true, &po), (false, &mm)];
        for (is_po, f) in cmps {
            let what = if is_po { "PO" } else { "MO" };
            for i in 0..3 {
                ensure!(f(i, i) == Ordering::Equal, "{what} fields {mask:08b}: {:?} differs from itself", e[i]);
                for j in 0..3 {
                    ensure!(
                        f(i, j) == f(j, i).reverse(),
                        "{what} fields {mask:08b}: {:?} and {:?} compare {:?} and {:?}",
                        e[i], e[j], f(i, j), f(j, i)
                    );
                    ensure!(
                        (f(i, j) == Ordering::Equal) == agree(&e[i], &e[j], mask, is_po),
                        "{what} fields {mask:08b}: {:?} and {:?} compare {:?}",
                        e[i], e[j], f(i, j)
                    );
                    for k in 0..3 {
                        if f(i, j) != Ordering::Greater && f(j, k) != Ordering::Greater {
                            ensure!(f(i, k) != Ordering::Greater, "{what} fields {mask:08b}: not transitive for {:?}", e);
                            if f(i, j) == Ordering::Less || f(j, k) == Ordering::Less {
                                ensure!(f(i, k) == Ordering::Less, "{what} fields {mask:08b}: not transitive for {:?}", e);
                            }
                        }
                    }
                }
            }
        }
        // other fields do not matter
        let (a, b) = (mix(&e[0], &e[2], mask), mix(&e[1], &e[2], mask));
        ensure!(
            e[0].cmp_by(&e[1], &o) == a.cmp_by(&b, &o),
            "fields {mask:08b}: other fields change the comparison of {:?} and {:?}",
            e[0], e[1]
        );
        ensure!(
            mo(&e[0]).cmp_by(&mo(&e[1]), &o) == mo(&a).cmp_by(&mo(&b), &o),
            "MO fields {mask:08b}: other fields change the comparison of {:?} and {:?}",
            e[0], e[1]
        );
        let named: Vec<(String, bool)> =
            ["msgid", "msgstr", "msgctxt", "obsolete", "occurrences", "msgid_plural", "msgstr_plural", "flags"]
                .iter()
                .enumerate()
                .map(|(i, n)| (n.to_string(), mask >> i & 1 != 0))
                .collect();
        let o2 = EntryCmpByOptions::from(&named);
        ensure!(
            e[0].cmp_by(&e[1], &o) == e[0].cmp_by(&e[1], &o2),
            "options by name {named:?} differ for {:?} and {:?}",
            e[0], e[1]
        );
    }
    let all = options(255);
    for (n, o) in [
        ("new()", EntryCmpByOptions::new()),
        ("default()", EntryCmpByOptions::default()),
        ("by_all(true)", options(0).by_all(true)),
        ("no names", EntryCmpByOptions::from(&vec![])),
    ] {
        ensure!(
            e[0].cmp_by(&e[1], &o) == e[0].cmp_by(&e[1], &all),
            "options {n} are not all fields for {:?} and {:?}",
            e[0], e[1]
        );
    }
    Ok(true)
}

// ------------------------------------------------------------------ C15

pub fn c15(c: &Case) -> R {
    let mut f = build_po(c);
    f.header = Some("header".into());
    let mut g = POFile::new(("", 10).into());
    g.entries = c.others.clone();
    g.header = Some("other".into());
    g.metadata.insert("X-Other".into(), "1".into());
    g.metadata_is_fuzzy = !c.flag;
    let before = f.clone();
    let mut exp: Vec<POEntry> = f.entries.clone();
    for o in &c.others {
        match exp.iter_mut().find(|e| e.msgid == o.msgid && e.msgctxt == o.msgctxt) {
            Some(e) => *e = o.clone(),
            None => exp.push(o.clone()),
        }
    }
    for e in exp.iter_mut() {
        if !c.others.iter().any(|o| e.msgid == o.msgid && e.msgctxt == o.msgctxt) {
            e.obsolete = true;
        }
    }
    f.merge(g);
    ensure!(f.entries == exp, "merging gives {:?}\nexpected {exp:?}", f.entries);
    ensure!(
        f.header == before.header
            && f.metadata == before.metadata
            && f.metadata_is_fuzzy == before.metadata_is_fuzzy
            && f.options == before.options,
        "merging changes the header, metadata or options"
    );
    // messages
    if let (Some(a), Some(b)) = (c.entries.first(), c.others.first()) {
        let mut x = a.clone();
        x.merge(b.clone());
        ensure!(x == *b, "merging {b:?} into {a:?} gives {x:?}");
        let mut x = mo(a);
        x.merge(mo(b));
        ensure!(x == mo(b), "merging MO {b:?} into {a:?} gives {x:?}");
    }
    Ok(!c.entries.is_empty() || !c.others.is_empty())
}

// ------------------------------------------------------------------ C16

const STD_KEYS: [&str; 11] = [
    "Project-Id-Version",
    "Report-Msgid-Bugs-To",
    "POT-Creation-Date",
    "PO-Revision-Date",
    "Last-Translator",
    "Language-Team",
    "Language",
    "MIME-Version",
    "Content-Type",
    "Content-Transfer-Encoding",
    "Plural-Forms",
];

pub fn gen_c16(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case { width: width(r), flag: r.chance(50), num: r.next() & 0xffff, ..Default::default() };
    for _ in 0..1 + r.below(3) {
        for (k, v) in meta(r) {
            if !c.meta.iter().any(|(a, _)| *a == k) {
                c.meta.push((k, v));
            }
        }
    }
    if r.chance(30) {
        let mut e = entry(r, false);
        fix_c04(r, &mut e);
        c.entries.push(e);
    }
    c
}

pub fn c16(c: &Case) -> R {
    let mut keys: Vec<&String> = c.meta.iter().map(|x| &x.0).collect();
    keys.sort();
    keys.dedup();
    if !meta_domain(&c.meta) || keys.len() != c.meta.len() {
        return Ok(false);
    }
    let map: HashMap<String, String> = c.meta.iter().cloned().collect();
    let f = build_po(c);
    let m = build_mo(c);
    // expected order
    let mut exp: Vec<String> = STD_KEYS.iter().filter(|k| map.contains_key(**k)).map(|k| k.to_string()).collect();
    let mut rest: Vec<String> = map.keys().filter(|k| !STD_KEYS.contains(&k.as_str())).cloned().collect();
    rest.sort_by(|a, b| natord::compare(a, b).then(a.cmp(b)));
    let nstd = exp.len();
    exp.extend(rest);
    let line = |k: &String| format!("{k}: {}", map[k]);
    for (what, got) in [("PO", f.metadata_as_entry().msgstr), ("MO", m.metadata_as_entry().msgstr)] {
        let lines: Vec<String> = match got {
            Some(t) => t.split('\n').map(|x| x.to_string()).collect(),
            None => vec![],
        };
        let want: Vec<String> = exp.iter().map(line).collect();
        let mut a = lines.clone();
        let mut b = want.clone();
        a.sort();
        b.sort();
        ensure!(a == b, "{what} metadata {map:?} is written as {lines:?}");
        ensure!(lines[..nstd] == want[..nstd], "{what} metadata lines {lines:?}: the standard keys are not in order");
        for w in lines[nstd..].windows(2) {
            let k = |l: &String| l.split(": ").next().unwrap().to_string();
            ensure!(
                natord::compare(&k(&w[0]), &k(&w[1])) != Ordering::Greater,
                "{what} metadata lines {lines:?} are not in natural order"
            );
        }
    }
    // independent of the insertion order
    let mut rev = POFile::new(("", c.width).into());
    for (k, v) in c.meta.iter().rev() {
        rev.metadata.insert(k.clone(), v.clone());
    }
    ensure!(
        rev.metadata_as_entry().msgstr == f.metadata_as_entry().msgstr,
        "the order of the metadata depends on how the map was built: {:?}",
        f.metadata_as_entry().msgstr
    );
    let t = f.to_string();
    // the written text: one line per key
    let mut w = String::from("msgid \"\"\nmsgstr \"\"\n");
    if c.flag {
        w.insert_str(0, "#, fuzzy\n");
    }
    for l in f.metadata_as_entry().msgstr.unwrap_or_default().lines() {
        w.push_str(&format!("\"{}\\n\"\n", ref_escape(l)));
    }
    ensure!(t.starts_with(&format!("#\n{w}")), "the metadata is written as\n{t}\nexpected\n#\n{w}");
    match pofile(t.as_str()) {
        Ok(g) => {
            ensure!(g.metadata == map, "metadata {map:?} read back as {:?}\n{t}", g.metadata);
            ensure!(map.is_empty() || g.metadata_is_fuzzy == c.flag, "fuzzy mark {} read back as {}\n{t}", c.flag, g.metadata_is_fuzzy);
            // other flags are not the mark
            let u = t.replacen("#\n", "#\n#, c-format\n", 1);
            if let Ok(g) = pofile(u.as_str()) {
                ensure!(map.is_empty() || g.metadata_is_fuzzy == c.flag, "fuzzy mark {} read as {}\n{u}", c.flag, g.metadata_is_fuzzy);
            }
        }
        Err(e) => {
            if c.entries.iter().all(c04_domain) {
                return Err(format!("the written file can not be read: {e}\n{t}"));
            }
        }
    }
    if m.entries.iter().all(|e| !e.msgid.is_empty() || e.msgctxt.is_some()) {
        for b in [m.as_bytes_le().to_vec(), m.as_bytes_be().to_vec()] {
            match mofile(b) {
                Ok(g) => ensure!(g.metadata == map, "metadata {map:?} read back from MO as {:?}", g.metadata),
                Err(e) => return Err(format!("the written MO file can not be read: {e}")),
            }
        }
    }
    Ok(!c.meta.is_empty())
}

// ------------------------------------------------------------------ C17

pub fn c17(c: &Case) -> R {
    let f = build_po(c);
    for e in &f.entries {
        ensure!(e.translated() == ref_translated(e), "{e:?} translated: {}", e.translated());
        ensure!(e.fuzzy() == e.flags.iter().any(|f| f == "fuzzy"), "{e:?} fuzzy: {}", e.fuzzy());
    }
    let same = |got: Vec<&POEntry>, p: &dyn Fn(&POEntry) -> bool, what: &str| -> Result<(), String> {
        let exp: Vec<&POEntry> = f.entries.iter().filter(|e| p(e)).collect();
        ensure!(
            got.len() == exp.len() && got.iter().zip(&exp).all(|(a, b)| std::ptr::eq(*a, *b)),
            "{what} entries {got:?}, expected {exp:?}"
        );
        Ok(())
    };
    same(f.translated_entries(), &ref_translated, "translated")?;
    same(f.untranslated_entries(), &|e| !ref_translated(e), "untranslated")?;
    same(f.obsolete_entries(), &|e| e.obsolete, "obsolete")?;
    same(f.fuzzy_entries(), &|e| !e.obsolete && e.flags.iter().any(|f| f == "fuzzy"), "fuzzy")?;
    let n = f.entries.len();
    let t = f.entries.iter().filter(|e| ref_translated(e)).count();
    let exp = if n == 0 { 0.0 } else { t as f64 * 100.0 / n as f64 };
    let got = f.percent_translated() as f64;
    ensure!((got - exp).abs() < 1e-3, "{t} of {n} messages translated, but {got} percent");
    Ok(n > 0)
}

// ------------------------------------------------------------------ C19

pub fn gen_c19(r: &mut Rng, i: u64) -> Case {
    if i % 2 == 0 {
        let mut c = gen_po(r, i / 2);
        match r.below(8) {
            0 => c.text = c.text.replace('\n', "\r\n"),
            1 => c.text.insert(0, '\u{feff}'),
            2 => c.text = c.text.trim_end().to_string(),
            _ => {}
        }
        c.width = width(r);
        c.num = 0;
        c
    } else {
        let mut c = gen_c04(r, i);
        c.num = 1 + r.below(6) as u64;
        c
    }
}

fn same_read(a: &Result<POFile, SyntaxError>, b: &Result<POFile, SyntaxError>, what: &str) -> Result<(), String> {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            ensure!(x.entries == y.entries, "{what}: messages {:?} and {:?}", x.entries, y.entries);
            ensure!(x.header == y.header, "{what}: header {:?} and {:?}", x.header, y.header);
            ensure!(x.metadata == y.metadata, "{what}: metadata {:?} and {:?}", x.metadata, y.metadata);
            ensure!(x.metadata_is_fuzzy == y.metadata_is_fuzzy, "{what}: fuzzy {} and {}", x.metadata_is_fuzzy, y.metadata_is_fuzzy);
        }
        (Err(x), Err(y)) => ensure!(position(x) == position(y), "{what}: {x:?} and {y:?}"),
        _ => return Err(format!("{what}: {a:?} and {b:?}")),
    }
    Ok(())
}

fn same_source(bytes: &[u8], w: usize, p: &str) -> Result<(), String> {
    std::fs::write(p, bytes).map_err(|e| e.to_string())?;
    let a = pofile(p);
    let b = pofile(bytes.to_vec());
    same_read(&a, &b, "path and bytes")?;
    same_read(&a, &pofile((p, w)), "path with and without a width")?;
    same_read(&b, &pofile((bytes.to_vec(), w)), "bytes with and without a width")?;
    same_read(&a, &pofile(FileOptions::from(Path::new(p))), "text and path")?;
    if let Ok(f) = &a {
        same_read(&Ok(POFile::from(p)), &Ok(f.clone()), "POFile::from and pofile")?;
        same_read(&Ok(POFile::from(Path::new(p))), &Ok(f.clone()), "POFile::from and pofile")?;
        if let Ok(g) = pofile((p, w)) {
            ensure!(g.options.wrapwidth == w, "wrap width {} for {w}", g.options.wrapwidth);
        }
    }
    if let Ok(t) = std::str::from_utf8(bytes) {
        if !is_path(t) {
            same_read(&a, &pofile(t), "path and text")?;
            same_read(&a, &pofile((t, w)), "path and text with a width")?;
        }
    }
    Ok(())
}

pub fn c19(c: &Case) -> R {
    let p = format!("{}/c19-{}.po", crate::scratch(), std::process::id());
    if c.num == 0 {
        let bytes = if c.flag { c.bytes.clone() } else { c.text.clone().into_bytes() };
        ensure!(
            std::str::from_utf8(&bytes).is_ok() || pofile(bytes.clone()).is_err(),
            "bytes that are not UTF-8 are read: {bytes:?}"
        );
        let r = same_source(&bytes, c.width, &p);
        std::fs::remove_file(&p).ok();
        r?;
        return Ok(!bytes.is_empty());
    }
    let mut f = build_po(c);
    if !c.text.is_empty() {
        f.header = Some(c.text.clone());
    }
    let r = saved(c, &f, &p);
    std::fs::remove_file(&p).ok();
    r
}

fn saved(c: &Case, f: &POFile, p: &str) -> R {
    // what is there is overwritten
    std::fs::write(p, "msgid \"z\"\n".repeat(c.num as usize * 40)).map_err(|e| e.to_string())?;
    let m = MOFile::from(f);
    let exp = match c.num {
        1 | 5 => {
            f.save(p);
            f.to_string().into_bytes()
        }
        2 | 6 => {
            f.save_as_pofile(p);
            f.to_string().into_bytes()
        }
        3 => {
            m.save_as_pofile(p);
            m.to_string().into_bytes()
        }
        4 => {
            f.save_as_mofile(p);
            let b = std::fs::read(p).map_err(|e| e.to_string())?;
            m.save(p);
            ensure!(std::fs::read(p).ok().as_ref() == Some(&b), "a PO file and its MO file are saved differently");
            m.save_as_mofile(p);
            m.as_bytes().to_vec()
        }
        _ => return Ok(false),
    };
    let got = std::fs::read(p).map_err(|e| e.to_string())?;
    ensure!(got == exp, "the saved file is not what is written: {:?} for {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&exp));
    if c.num == 4 {
        if let (Ok(x), Ok(y)) = (mofile(p), mofile(exp)) {
            ensure!(x.entries == y.entries && x.metadata == y.metadata, "MO file read from a path {:?}, from bytes {:?}", x.entries, y.entries);
        }
        return Ok(true);
    }
    same_source(&exp, c.width, p)?;
    if c.num != 3 && c.entries.iter().all(c04_domain) {
        let g = pofile(p).map_err(|e| format!("the saved file can not be read: {e}"))?;
        ensure!(g.entries.len() == c.entries.len(), "{} messages saved, {} read", c.entries.len(), g.entries.len());
        let order: Vec<&POEntry> =
            c.entries.iter().filter(|e| !e.obsolete).chain(c.entries.iter().filter(|e| e.obsolete)).collect();
        for (a, b) in order.iter().zip(&g.entries) {
            ensure!(
                a.msgid == b.msgid && a.msgctxt == b.msgctxt && a.msgstr == b.msgstr && a.msgstr_plural == b.msgstr_plural,
                "{a:?} saved, {b:?} read"
            );
        }
    }
    Ok(true)
}

pub type Gen = fn(&mut Rng, u64) -> Case;
pub type Check = fn(&Case) -> R;

pub fn property(id: &str) -> Option<(Gen, Check, &'static str)> {
    Some(match id {
        "C01" => (gen_c01, c01, "all texts of up to 5 characters over 10 special characters, all texts of one character, then random texts"),
        "C02" => (gen_c02, c02, "all texts of up to 5 characters over backslash, quote, the escape letters, a and newline, every character after a backslash, then random escaped texts with mutations"),
        "C03" => (gen_po, c03, "all sequences of up to 2 of the line forms and of 2 common ones and any third, then random line sequences, mutated written files, texts and bytes"),
        "C04" => (gen_c04, c04, "random files of up to 4 messages, any wrap width"),
        "C05" => (gen_c05, c05, "all values of up to 5 characters over 7 characters at 4 widths, then random messages and widths"),
        "C06" => (gen_c06, c06, "all comments of up to 5 characters over 6 characters at 4 widths, then random messages and widths"),
        "C07" => (gen_c07, c07, "random messages written in random well-formed ways"),
        "C08" => (gen_mo, c08, "random MO files of up to 5 messages, both byte orders"),
        "C09" => (gen_mo, c09, "random MO files of up to 5 messages, both byte orders and revisions"),
        "C10" => (gen_c10, c10, "serialised random MO files, truncated and corrupted, and random bytes"),
        "C11" => (gen_file, c11, "random PO files of up to 7 messages"),
        "C12" => (gen_file, c12, "random files of up to 8 messages, all field names, 3 contexts"),
        "C13" => (gen_file, c13, "random files of up to 8 messages, present and absent messages"),
        "C14" => (gen_c14, c14, "random triples of messages that differ in few fields, 12 choices of fields each"),
        "C15" => (gen_file, c15, "random pairs of files of up to 8 messages"),
        "C16" => (gen_c16, c16, "random metadata maps of up to 24 keys"),
        "C17" => (gen_file, c17, "random files of up to 8 messages"),
        "C18" => (gen_po, c18, "all sequences of up to 2 of the line forms and of 2 common ones and any third, then random line sequences"),
        "C19" => (gen_c19, c19, "contents of C03 (with CRLF, BOM or no final newline) read from a path, as text and as bytes, and random files saved and reopened"),
        _ => return None,
    })
}
