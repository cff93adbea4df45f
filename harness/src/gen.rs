//! Random generation
use rspolib::POEntry;

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub const SPECIAL: &[char] = &[
    '"', '\\', '\n', '\r', '\t', '\u{8}', '\u{b}', '\u{c}', '\u{11}', '\u{12}', 'n', 'r', 't', 'b', 'v', 'f', ' ', 'a',
    '\u{7f}', '\u{1b}', '\'', '`', '/', '0', 'x', 'u', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{a0}', '\u{3000}',
    'é', '漢', '😀', '\u{301}', '\u{200b}', '\u{200d}', '\u{10ffff}', '-', ':', '#', '[', ']', ',', '~', '|', '.', '%', '{', '}',
];

pub fn ch(r: &mut Rng) -> char {
    match r.below(10) {
        0..=4 => *r.pick(SPECIAL),
        5..=7 => (b'a' + r.below(26) as u8) as char,
        8 => loop {
            if let Some(c) = char::from_u32(r.below(0x300) as u32) {
                if c != '\u{0}' && c != '\u{4}' {
                    break c;
                }
            }
        },
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                if c != '\u{0}' && c != '\u{4}' {
                    break c;
                }
            }
        },
    }
}

pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| ch(r)).collect()
}

const WORDS: &[&str] = &[
    "a", "of", "the", "message", "translation", "word", "wrap", "well-known", "e.g.", "C:\\dir\\file", "say \"hi\"",
    "tab\there", "line\nbreak", "é", "ñandú", "漢字", "日本語のテキスト", "😀", "https://example.org/a/b?c=d", "100%", "%s",
    "{name}", "\u{a0}nbsp", "a\u{300}", "(x)", "[y]", "--", "—", "\u{200b}", "supercalifragilisticexpialidocious",
    "\\n", "\\\\", "\"", "\\\"", "x\\", "\r\n", "\u{ad}", "a/b/c",
];

/// text with words and line break opportunities
pub fn words(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && r.chance(85) {
            s.push(' ');
        }
        if r.chance(8) {
            s.push_str(&text(r, 4));
        } else if r.chance(6) {
            s.push('\n');
        } else {
            s.push_str(r.pick(WORDS));
        }
    }
    if r.chance(10) {
        s.push('\n');
    }
    if r.chance(6) {
        s.push(' ');
    }
    s
}

pub fn value(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1..=3 => text(r, 8),
        4..=6 => words(r, 6),
        7 => words(r, 40),
        8 => (*r.pick(WORDS)).to_string(),
        _ => text(r, 40),
    }
}

pub fn opt_value(r: &mut Rng, pct: usize) -> Option<String> {
    if r.chance(pct) {
        Some(value(r))
    } else {
        None
    }
}

const FLAGS: &[&str] = &["fuzzy", "c-format", "python-format", "no-wrap", "Fuzzy", "fuzzy2", "x", "range: 0..10", "not fuzzy"];

pub fn flags(r: &mut Rng) -> Vec<String> {
    if r.chance(55) {
        return vec![];
    }
    let n = r.below(4);
    (0..n).map(|_| r.pick(FLAGS).to_string()).collect()
}

const FILES: &[&str] = &["a.c", "src/main.rs", "dir/very/long/path/to/some/source/file.py", "x", "é.c", "#", "a\"b", "漢.c", "a-b.c", "f,g"];

pub fn occs(r: &mut Rng, max: usize) -> Vec<(String, String)> {
    if r.chance(50) {
        return vec![];
    }
    let n = r.below(max + 1);
    (0..n)
        .map(|_| {
            (
                r.pick(FILES).to_string(),
                match r.below(4) {
                    0 => String::new(),
                    1 => format!("{}", r.below(10)),
                    2 => format!("{}", r.below(1000000)),
                    _ => format!("0{}", r.below(100)),
                },
            )
        })
        .collect()
}

pub fn comment(r: &mut Rng) -> Option<String> {
    if r.chance(60) {
        return None;
    }
    let mut s = words(r, 12);
    if r.chance(30) {
        s.push('\n');
        s.push_str(&words(r, 30));
    }
    Some(s)
}

/// Message with arbitrary content; short values repeat to get collisions
pub fn entry(r: &mut Rng, small: bool) -> POEntry {
    let mut e = POEntry::new(0);
    let small_vals = ["", "a", "b", "ab", "\0"];
    let mut val = |r: &mut Rng| -> String {
        if small {
            r.pick(&small_vals[..4]).to_string()
        } else {
            value(r)
        }
    };
    e.msgid = val(r);
    if r.chance(60) {
        e.msgstr = Some(val(r));
    }
    if r.chance(30) {
        e.msgid_plural = Some(val(r));
    }
    if r.chance(40) {
        let n = r.below(4);
        e.msgstr_plural = (0..n).map(|_| val(r)).collect();
    }
    if r.chance(40) {
        e.msgctxt = Some(val(r));
    }
    e.obsolete = r.chance(20);
    if r.chance(25) {
        e.previous_msgid = Some(val(r));
    }
    if r.chance(20) {
        e.previous_msgid_plural = Some(val(r));
    }
    if r.chance(20) {
        e.previous_msgctxt = Some(val(r));
    }
    e.flags = if small {
        let f = ["fuzzy", "x", "y"];
        let n = r.below(3);
        (0..n).map(|_| r.pick(&f).to_string()).collect()
    } else {
        flags(r)
    };
    e.occurrences = if small {
        let n = r.below(3);
        (0..n).map(|_| (r.pick(&["a", "b"]).to_string(), r.pick(&["", "1", "2"]).to_string())).collect()
    } else {
        occs(r, 8)
    };
    if !small || r.chance(30) {
        e.comment = comment(r);
        e.tcomment = comment(r);
    }
    e.linenum = if r.chance(30) { r.below(5) } else { 0 };
    e
}

pub fn meta(r: &mut Rng) -> Vec<(String, String)> {
    const KEYS: &[&str] = &[
        "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator",
        "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
        "X-Generator", "X-1", "X-10", "X-2", "x-2", "X-01", "X-001", "a", "Z", "é", "\"q\"", "\\b", "key with spaces", "language", "X-", "#",
        " lead", "trail ", "\t",
    ];
    const VALS: &[&str] = &["", "1.0", "text/plain; charset=UTF-8", "a: b", "\"q\"", "back\\slash", "x", "é漢", "tab\tin", "nplurals=2; plural=(n != 1);\u{8}", "a  b", ":", "\\n"];
    if r.chance(25) {
        return vec![];
    }
    let n = r.below(8);
    let mut out: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = if r.chance(85) {
            r.pick(KEYS).to_string()
        } else {
            let t = text(r, 6);
            t.chars().filter(|c| *c != ':' && *c != '\n' && *c != '\r' && *c != '\0').collect()
        };
        if k.is_empty() || out.iter().any(|(a, _)| *a == k) {
            continue;
        }
        let v = if r.chance(70) {
            r.pick(VALS).to_string()
        } else {
            text(r, 10).chars().filter(|c| *c != '\n' && *c != '\r' && *c != '\0').collect::<String>().trim().to_string()
        };
        out.push((k, v));
    }
    out
}

pub fn width(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 78,
        1 => r.below(4),
        2 => 80 + r.below(100),
        3 => usize::MAX,
        _ => r.below(80),
    }
}
