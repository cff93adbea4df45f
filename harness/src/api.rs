//! `oracle api`: runs operations of the Rust API, one JSON request per line.
//! The Python driver (py/c20.py) compares the Python package with it.
use crate::case::{entry_json, entry_unjson};
use rspolib::escaping::{escape, unescape};
use rspolib::{
    mofile, pofile, AsBytes, EntryCmpByOptions, FileOptions, MOEntry, MOFile, Merge, MsgidEotMsgctxt, POEntry, POFile, Save,
    SaveAsMOFile, SaveAsPOFile, TranslatedEntry, MAGIC, MAGIC_SWAPPED,
};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Obj {
    PE(POEntry),
    ME(MOEntry),
    PF(POFile),
    MF(MOFile),
}

fn ot(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
fn tx(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn nm(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
fn map(v: &Value) -> HashMap<String, String> {
    v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), tx(v))).collect()).unwrap_or_default()
}
fn me_json(e: &MOEntry) -> Value {
    json!({"msgid": e.msgid, "msgstr": e.msgstr, "msgid_plural": e.msgid_plural, "msgstr_plural": e.msgstr_plural, "msgctxt": e.msgctxt})
}
fn me_unjson(v: &Value) -> MOEntry {
    MOEntry {
        msgid: tx(&v["msgid"]),
        msgstr: ot(&v["msgstr"]),
        msgid_plural: ot(&v["msgid_plural"]),
        msgstr_plural: v["msgstr_plural"].as_array().map(|a| a.iter().map(tx).collect()).unwrap_or_default(),
        msgctxt: ot(&v["msgctxt"]),
    }
}
fn opts(v: &Value) -> EntryCmpByOptions {
    let l: Vec<(String, bool)> = v.as_object().map(|m| m.iter().map(|(k, b)| (k.clone(), b == true)).collect()).unwrap_or_default();
    EntryCmpByOptions::from(&l)
}
fn code(o: Ordering) -> Value {
    json!(match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    })
}
fn pes(v: Vec<&POEntry>) -> Value {
    Value::Array(v.into_iter().map(entry_json).collect())
}
fn mes(v: Vec<&MOEntry>) -> Value {
    Value::Array(v.into_iter().map(me_json).collect())
}

fn step(o: &mut Vec<Obj>, r: &Value) -> Result<Value, Value> {
    let op = r["op"].as_str().unwrap_or("");
    let h = nm(&r["h"]);
    let a = &r["a"];
    match op {
        "escape" => return Ok(json!(escape(&tx(&a[0])).to_string())),
        "unescape" => return unescape(&tx(&a[0])).map(|t| json!(t.to_string())).map_err(|e| json!({"err": "EscapingError", "text": e.to_string()})),
        "magic" => return Ok(json!([MAGIC, MAGIC_SWAPPED])),
        "POEntry" => {
            o.push(Obj::PE(entry_unjson(&a[0])));
            return Ok(json!(o.len() - 1));
        }
        "MOEntry" => {
            o.push(Obj::ME(me_unjson(&a[0])));
            return Ok(json!(o.len() - 1));
        }
        "pofile" => {
            let t = tx(&a[0]);
            let f = pofile(FileOptions::from((t.as_str(), nm(&a[1])))).map_err(|e| json!({"err": "SyntaxError", "text": e.to_string()}))?;
            o.push(Obj::PF(f));
            return Ok(json!(o.len() - 1));
        }
        "mofile" => {
            let t = tx(&a[0]);
            let f = mofile(FileOptions::from((t.as_str(), nm(&a[1])))).map_err(|e| json!({"err": "IOError", "text": e.to_string()}))?;
            o.push(Obj::MF(f));
            return Ok(json!(o.len() - 1));
        }
        _ => {}
    }
    // objects named in the arguments
    let pe = |i: &Value| match o.get(nm(i)) {
        Some(Obj::PE(e)) => e.clone(),
        _ => POEntry::new(0),
    };
    let me = |i: &Value| match o.get(nm(i)) {
        Some(Obj::ME(e)) => e.clone(),
        _ => me_unjson(&Value::Null),
    };
    let (pe0, me0) = (pe(&a[0]), me(&a[0]));
    let (pel, mel): (Vec<POEntry>, Vec<MOEntry>) = match a[0].as_array() {
        Some(l) if op == "set_entries" => (l.iter().map(pe).collect(), l.iter().map(me).collect()),
        _ => (vec![], vec![]),
    };
    let other = match o.get(nm(&a[0])) {
        Some(Obj::PF(f)) if op == "eq" => f.to_string(),
        Some(Obj::MF(f)) if op == "eq" => f.to_string(),
        _ => String::new(),
    };
    let t0 = tx(&a[0]);
    let t1 = tx(&a[1]);
    Ok(match &mut o[h] {
        Obj::PE(e) => match op {
            "dump" => entry_json(e),
            "set" => {
                let mut j = entry_json(e);
                j[&t0] = a[1].clone();
                *e = entry_unjson(&j);
                Value::Null
            }
            "fuzzy" => json!(e.fuzzy()),
            "translated" => json!(e.translated()),
            "str" => json!(e.to_string()),
            "width" => json!(e.to_string_with_wrapwidth(nm(&a[0]))),
            "eot" => json!(e.msgid_eot_msgctxt()),
            "merge" => {
                e.merge(pe0);
                Value::Null
            }
            "cmp" => code(e.cmp_by(&pe0, &EntryCmpByOptions::default())),
            "cmp_by" => code(e.cmp_by(&pe0, &opts(&a[1]))),
            _ => panic!("no operation {op}"),
        },
        Obj::ME(e) => match op {
            "dump" => me_json(e),
            "set" => {
                let mut j = me_json(e);
                j[&t0] = a[1].clone();
                *e = me_unjson(&j);
                Value::Null
            }
            "translated" => json!(e.translated()),
            "str" => json!(e.to_string()),
            "width" => json!(e.to_string_with_wrapwidth(nm(&a[0]))),
            "eot" => json!(e.msgid_eot_msgctxt()),
            "merge" => {
                e.merge(me0);
                Value::Null
            }
            "cmp" => code(e.cmp_by(&me0, &EntryCmpByOptions::default())),
            "cmp_by" => code(e.cmp_by(&me0, &opts(&a[1]))),
            _ => panic!("no operation {op}"),
        },
        Obj::PF(f) => match op {
            "dump" => json!({"entries": pes(f.entries.iter().collect()), "header": f.header.clone().unwrap_or_default(), "metadata": f.metadata,
                "metadata_is_fuzzy": f.metadata_is_fuzzy, "wrapwidth": f.options.wrapwidth, "path_or_content": f.options.path_or_content,
                "bytes": f.options.byte_content}),
            "set_entries" => {
                f.entries = pel;
                Value::Null
            }
            "set_header" => {
                f.header = ot(&a[0]);
                Value::Null
            }
            "set_metadata" => {
                f.metadata = map(&a[0]);
                Value::Null
            }
            "update_metadata" => {
                f.metadata.extend(map(&a[0]));
                Value::Null
            }
            "remove_metadata_field" => {
                f.metadata.remove(&t0);
                Value::Null
            }
            "set_metadata_is_fuzzy" => {
                f.metadata_is_fuzzy = a[0] == true;
                Value::Null
            }
            "set_wrapwidth" => {
                f.options.wrapwidth = nm(&a[0]);
                Value::Null
            }
            "save" => {
                f.save(&t0);
                Value::Null
            }
            "save_as_pofile" => {
                f.save_as_pofile(&t0);
                Value::Null
            }
            "save_as_mofile" => {
                f.save_as_mofile(&t0);
                Value::Null
            }
            "remove" => {
                f.remove(&pe0);
                Value::Null
            }
            "remove_by_msgid" => {
                f.remove_by_msgid(&t0);
                Value::Null
            }
            "remove_by_msgid_msgctxt" => {
                f.remove_by_msgid_msgctxt(&t0, &t1);
                Value::Null
            }
            "append" => {
                f.entries.push(pe0);
                Value::Null
            }
            "find" => pes(f.find(&t0, &t1, a[2].as_str(), a[3] == true)),
            "find_by_msgid" => f.find_by_msgid(&t0).map_or(Value::Null, |e| entry_json(&e)),
            "find_by_msgid_msgctxt" => f.find_by_msgid_msgctxt(&t0, &t1).map_or(Value::Null, |e| entry_json(&e)),
            "percent_translated" => json!(f.percent_translated() as f64),
            "translated_entries" => pes(f.translated_entries()),
            "untranslated_entries" => pes(f.untranslated_entries()),
            "obsolete_entries" => pes(f.obsolete_entries()),
            "fuzzy_entries" => pes(f.fuzzy_entries()),
            "metadata_as_entry" => entry_json(&f.metadata_as_entry()),
            "as_bytes" => json!(f.as_bytes().to_vec()),
            "as_bytes_le" => json!(f.as_bytes_le().to_vec()),
            "as_bytes_be" => json!(f.as_bytes_be().to_vec()),
            "as_bytes_with" => json!(MOFile::from(&*f).as_bytes_with(nm(&a[0]) as u32, nm(&a[1]) as u32).to_vec()),
            "len" => json!(f.entries.len()),
            "contains" => json!(match &pe0.msgctxt {
                Some(c) => f.find_by_msgid_msgctxt(&pe0.msgid, c).is_some(),
                None => f.find_by_msgid(&pe0.msgid).is_some(),
            }),
            "getitem" => entry_json(f.entries.get(nm(&a[0])).ok_or_else(|| json!({"err": "IndexError"}))?),
            "str" => json!(f.to_string()),
            "eq" => json!(f.to_string() == other),
            _ => panic!("no operation {op}"),
        },
        Obj::MF(f) => match op {
            "dump" => json!({"entries": mes(f.entries.iter().collect()), "metadata": f.metadata, "wrapwidth": f.options.wrapwidth,
                "path_or_content": f.options.path_or_content, "bytes": f.options.byte_content,
                "magic_number": f.magic_number.unwrap_or(MAGIC), "version": f.version.unwrap_or(0)}),
            "set_entries" => {
                f.entries = mel;
                Value::Null
            }
            "set_metadata" => {
                f.metadata = map(&a[0]);
                Value::Null
            }
            "update_metadata" => {
                f.metadata.extend(map(&a[0]));
                Value::Null
            }
            "remove_metadata_field" => {
                f.metadata.remove(&t0);
                Value::Null
            }
            "set_wrapwidth" => {
                f.options.wrapwidth = nm(&a[0]);
                Value::Null
            }
            "save" => {
                f.save(&t0);
                Value::Null
            }
            "save_as_pofile" => {
                f.save_as_pofile(&t0);
                Value::Null
            }
            "save_as_mofile" => {
                f.save_as_mofile(&t0);
                Value::Null
            }
            "remove" => {
                f.remove(&me0);
                Value::Null
            }
            "remove_by_msgid" => {
                f.remove_by_msgid(&t0);
                Value::Null
            }
            "remove_by_msgid_msgctxt" => {
                f.remove_by_msgid_msgctxt(&t0, &t1);
                Value::Null
            }
            "append" => {
                f.entries.push(me0);
                Value::Null
            }
            "find" => mes(f.find(&t0, &t1, a[2].as_str())),
            "find_by_msgid" => f.find_by_msgid(&t0).map_or(Value::Null, me_json),
            "find_by_msgid_msgctxt" => f.find_by_msgid_msgctxt(&t0, &t1).map_or(Value::Null, me_json),
            "metadata_as_entry" => me_json(&f.metadata_as_entry()),
            "as_bytes" => json!(f.as_bytes().to_vec()),
            "as_bytes_le" => json!(f.as_bytes_le().to_vec()),
            "as_bytes_be" => json!(f.as_bytes_be().to_vec()),
            "as_bytes_with" => json!(f.as_bytes_with(nm(&a[0]) as u32, nm(&a[1]) as u32).to_vec()),
            "len" => json!(f.entries.len()),
            "contains" => json!(match &me0.msgctxt {
                Some(c) => f.find_by_msgid_msgctxt(&me0.msgid, c).is_some(),
                None => f.find_by_msgid(&me0.msgid).is_some(),
            }),
            "getitem" => me_json(f.entries.get(nm(&a[0])).ok_or_else(|| json!({"err": "IndexError"}))?),
            "str" => json!(f.to_string()),
            "eq" => json!(f.to_string() == other),
            _ => panic!("no operation {op}"),
        },
    })
}

pub fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut o: Vec<Obj> = vec![];
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => return,
        };
        let r: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
        let ans = if r["op"] == "reset" {
            o.clear();
            json!({"ok": null})
        } else {
            match catch_unwind(AssertUnwindSafe(|| step(&mut o, &r))) {
                Ok(Ok(v)) => json!({"ok": v}),
                Ok(Err(k)) => k,
                Err(_) => json!({"err": "panic"}),
            }
        };
        let mut w = out.lock();
        if writeln!(w, "{ans}").and_then(|_| w.flush()).is_err() {
            return;
        }
    }
}
