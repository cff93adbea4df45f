//! Inputs of the properties, as JSON so that they can be replayed
use rspolib::{MOEntry, POEntry};
use serde_json::{json, Value};

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Case {
    pub text: String,
    pub bytes: Vec<u8>,
    pub entries: Vec<POEntry>,
    pub others: Vec<POEntry>,
    pub meta: Vec<(String, String)>,
    pub width: usize,
    pub flag: bool,
    pub num: u64,
    pub strs: Vec<String>,
}

fn opt(v: &Option<String>) -> Value {
    match v {
        Some(s) => json!(s),
        None => Value::Null,
    }
}

fn unopt(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

pub fn entry_json(e: &POEntry) -> Value {
    json!({
        "msgid": e.msgid, "msgstr": opt(&e.msgstr), "msgid_plural": opt(&e.msgid_plural),
        "msgstr_plural": e.msgstr_plural, "msgctxt": opt(&e.msgctxt), "obsolete": e.obsolete,
        "comment": opt(&e.comment), "tcomment": opt(&e.tcomment), "occurrences": e.occurrences,
        "flags": e.flags, "previous_msgid": opt(&e.previous_msgid),
        "previous_msgid_plural": opt(&e.previous_msgid_plural),
        "previous_msgctxt": opt(&e.previous_msgctxt), "linenum": e.linenum,
    })
}

pub fn entry_unjson(v: &Value) -> POEntry {
    let mut e = POEntry::new(v["linenum"].as_u64().unwrap_or(0) as usize);
    e.msgid = v["msgid"].as_str().unwrap_or("").to_string();
    e.msgstr = unopt(&v["msgstr"]);
    e.msgid_plural = unopt(&v["msgid_plural"]);
    e.msgstr_plural = strs(&v["msgstr_plural"]);
    e.msgctxt = unopt(&v["msgctxt"]);
    e.obsolete = v["obsolete"].as_bool().unwrap_or(false);
    e.comment = unopt(&v["comment"]);
    e.tcomment = unopt(&v["tcomment"]);
    e.occurrences = pairs(&v["occurrences"]);
    e.flags = strs(&v["flags"]);
    e.previous_msgid = unopt(&v["previous_msgid"]);
    e.previous_msgid_plural = unopt(&v["previous_msgid_plural"]);
    e.previous_msgctxt = unopt(&v["previous_msgctxt"]);
    e
}

pub fn mo(e: &POEntry) -> MOEntry {
    MOEntry::new(
        e.msgid.clone(),
        e.msgstr.clone(),
        e.msgid_plural.clone(),
        e.msgstr_plural.clone(),
        e.msgctxt.clone(),
    )
}

impl Case {
    pub fn json(&self) -> Value {
        json!({
            "text": self.text, "bytes": self.bytes,
            "entries": self.entries.iter().map(entry_json).collect::<Vec<_>>(),
            "others": self.others.iter().map(entry_json).collect::<Vec<_>>(),
            "meta": self.meta, "width": self.width, "flag": self.flag, "num": self.num, "strs": self.strs,
        })
    }
    pub fn unjson(v: &Value) -> Case {
        Case {
            text: v["text"].as_str().unwrap_or("").to_string(),
            bytes: v["bytes"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect())
                .unwrap_or_default(),
            entries: v["entries"].as_array().map(|a| a.iter().map(entry_unjson).collect()).unwrap_or_default(),
            others: v["others"].as_array().map(|a| a.iter().map(entry_unjson).collect()).unwrap_or_default(),
            meta: pairs(&v["meta"]),
            width: v["width"].as_u64().unwrap_or(0) as usize,
            flag: v["flag"].as_bool().unwrap_or(false),
            num: v["num"].as_u64().unwrap_or(0),
            strs: strs(&v["strs"]),
        }
    }

    /// Smaller variants of the case
    pub fn shrinks(&self) -> Vec<Case> {
        let mut out = vec![];
        fn sub(s: &str) -> Vec<String> {
            let c: Vec<char> = s.chars().collect();
            let mut r = vec![];
            if c.is_empty() {
                return r;
            }
            let n = c.len();
            let mut step = n;
            while step >= 1 {
                let mut i = 0;
                while i < n {
                    let e = (i + step).min(n);
                    r.push(c[..i].iter().chain(&c[e..]).collect());
                    i += step;
                }
                step /= 2;
                if r.len() > 80 {
                    break;
                }
            }
            r
        }
        for t in sub(&self.text) {
            out.push(Case { text: t, ..self.clone() });
        }
        if !self.bytes.is_empty() {
            let n = self.bytes.len();
            let mut step = n;
            while step >= 1 && out.len() < 400 {
                let mut i = 0;
                while i < n {
                    let e = (i + step).min(n);
                    let mut b = self.bytes[..i].to_vec();
                    b.extend(&self.bytes[e..]);
                    out.push(Case { bytes: b, ..self.clone() });
                    i += step;
                }
                step /= 2;
            }
        }
        for which in 0..2 {
            let v = if which == 0 { &self.entries } else { &self.others };
            for i in 0..v.len() {
                let mut put = |nv: Vec<POEntry>| {
                    let mut c = self.clone();
                    if which == 0 { c.entries = nv } else { c.others = nv }
                    out.push(c);
                };
                let mut nv = v.clone();
                nv.remove(i);
                put(nv);
                let e = &v[i];
                let mut vars: Vec<POEntry> = vec![];
                for f in 0..8 {
                    let cur: Option<String> = match f {
                        0 => Some(e.msgid.clone()),
                        1 => e.msgstr.clone(),
                        2 => e.msgid_plural.clone(),
                        3 => e.msgctxt.clone(),
                        4 => e.comment.clone(),
                        5 => e.tcomment.clone(),
                        6 => e.previous_msgid.clone(),
                        _ => e.previous_msgctxt.clone(),
                    };
                    if let Some(c) = cur {
                        let mut ss: Vec<Option<String>> = sub(&c).into_iter().take(24).map(Some).collect();
                        if f != 0 {
                            ss.insert(0, None);
                        }
                        for s in ss {
                            let mut n = e.clone();
                            match f {
                                0 => n.msgid = s.unwrap_or_default(),
                                1 => n.msgstr = s,
                                2 => n.msgid_plural = s,
                                3 => n.msgctxt = s,
                                4 => n.comment = s,
                                5 => n.tcomment = s,
                                6 => n.previous_msgid = s,
                                _ => n.previous_msgctxt = s,
                            }
                            vars.push(n);
                        }
                    }
                }
                if e.previous_msgid_plural.is_some() {
                    let mut n = e.clone();
                    n.previous_msgid_plural = None;
                    vars.push(n);
                }
                for k in 0..e.flags.len() {
                    let mut n = e.clone();
                    n.flags.remove(k);
                    vars.push(n);
                }
                for k in 0..e.occurrences.len() {
                    let mut n = e.clone();
                    n.occurrences.remove(k);
                    vars.push(n);
                }
                for k in 0..e.msgstr_plural.len() {
                    let mut n = e.clone();
                    n.msgstr_plural.remove(k);
                    vars.push(n);
                    for s in sub(&e.msgstr_plural[k]).into_iter().take(12) {
                        let mut n = e.clone();
                        n.msgstr_plural[k] = s;
                        vars.push(n);
                    }
                }
                if e.obsolete {
                    let mut n = e.clone();
                    n.obsolete = false;
                    vars.push(n);
                }
                for n in vars {
                    let mut nv = v.clone();
                    nv[i] = n;
                    put(nv);
                }
            }
        }
        for i in 0..self.meta.len() {
            let mut c = self.clone();
            c.meta.remove(i);
            out.push(c);
        }
        out
    }
}
