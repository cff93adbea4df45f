//! Tests of what the proofs take from the standard library and the other
//! crates: the axioms in verus/spec and the meaning given to functions of `str`
use std::cmp::Ordering;
use std::io::{BufRead, BufReader};
use unicode_width::UnicodeWidthChar;

fn texts(abc: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|s| abc.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn is_ws(c: char) -> bool {
    ('\u{9}'..='\u{d}').contains(&c)
        || ('\u{2000}'..='\u{200a}').contains(&c)
        || " \u{85}\u{a0}\u{1680}\u{2028}\u{2029}\u{202f}\u{205f}\u{3000}".contains(c)
}

fn cpos(s: &[char], c: char) -> usize {
    s.iter().position(|x| *x == c).unwrap_or(s.len())
}

fn split(s: &[char], c: char) -> Vec<String> {
    let k = cpos(s, c);
    if k >= s.len() {
        return vec![s.iter().collect()];
    }
    let mut v = vec![s[..k].iter().collect()];
    v.extend(split(&s[k + 1..], c));
    v
}

fn lines(s: &[char]) -> Vec<String> {
    if s.is_empty() {
        return vec![];
    }
    let k = cpos(s, '\n');
    if k >= s.len() {
        return vec![s.iter().collect()];
    }
    let mut l = &s[..k];
    if l.last() == Some(&'\r') {
        l = &l[..k - 1];
    }
    let mut v = vec![l.iter().collect()];
    v.extend(lines(&s[k + 1..]));
    v
}

fn trim(s: &[char]) -> String {
    let a = s.iter().position(|c| !is_ws(*c)).unwrap_or(s.len());
    let b = s.iter().rposition(|c| !is_ws(*c)).map_or(a, |i| i + 1);
    s[a..b].iter().collect()
}

fn spos(s: &[char], p: &[char]) -> usize {
    if s.starts_with(p) || s.is_empty() {
        0
    } else {
        1 + spos(&s[1..], p)
    }
}

pub fn check() {
    let mut n = 0u64;
    for c in '\0'..=char::MAX {
        assert_eq!(is_ws(c), c.is_whitespace(), "is_ws {c:?}");
        if let Some(w) = c.width() {
            assert!(w <= c.len_utf8(), "axiom_cw {c:?}");
        }
        assert_eq!(String::from_utf8_lossy(c.to_string().as_bytes()), c.to_string(), "axiom_lossy {c:?}");
        n += 1;
    }
    for s in texts(&['a', '\n', '\r', 'é', ' ', ':'], 7) {
        let c = chars(&s);
        let b: Vec<String> = BufReader::with_capacity(3, s.as_bytes()).lines().map(|l| l.unwrap()).collect();
        assert_eq!(b, lines(&c), "axiom_byte_lines {s:?}");
        assert_eq!(s.lines().collect::<Vec<_>>(), lines(&c), "lines {s:?}");
        assert_eq!(s.split('\n').collect::<Vec<_>>(), split(&c, '\n'), "split {s:?}");
        assert_eq!(s.trim(), trim(&c), "trim {s:?}");
        let k = cpos(&c, ':');
        let two: Vec<String> = if k >= c.len() {
            vec![s.clone()]
        } else {
            vec![c[..k].iter().collect(), c[k + 1..].iter().collect()]
        };
        assert_eq!(s.splitn(2, ':').collect::<Vec<_>>(), two, "splitn2 {s:?}");
        let p = [':', ' '];
        let k = spos(&c, &p);
        let once = (k < c.len()).then(|| (c[..k].iter().collect::<String>(), c[k + 2..].iter().collect::<String>()));
        assert_eq!(s.split_once(": ").map(|(a, b)| (a.to_string(), b.to_string())), once, "split_once {s:?}");
        n += 1;
    }
    // a total preorder that only makes equal texts equal
    for (abc, max) in [(&['a', 'B', '-', '0', '1', '2', ' ', 'é'][..], 3), (&['a', '0', '1', ' '][..], 5), (&['0', '1', '2'][..], 6), (&['X', '\t', '\u{660}', '9', '0'][..], 4)] {
        let t = texts(abc, max);
        let m: Vec<Vec<Ordering>> = t.iter().map(|a| t.iter().map(|b| natord::compare(a, b).then(a.cmp(b))).collect()).collect();
        for i in 0..t.len() {
            for j in 0..t.len() {
                assert_eq!(m[i][j], m[j][i].reverse(), "axiom_natord {:?} {:?}", t[i], t[j]);
                assert_eq!(m[i][j] == Ordering::Equal, i == j, "natord {:?} {:?}", t[i], t[j]);
                if m[i][j] != Ordering::Greater {
                    for k in 0..t.len() {
                        if m[j][k] != Ordering::Greater {
                            assert_ne!(m[i][k], Ordering::Greater, "axiom_natord {:?} {:?} {:?}", t[i], t[j], t[k]);
                        }
                    }
                }
            }
        }
        n += (t.len() * t.len()) as u64;
    }
    println!("{n} cases of the axioms tried");
}
