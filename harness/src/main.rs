mod api;
mod axioms;
mod case;
mod gen;
mod props;

use case::Case;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Watch;
static WATCH: AtomicBool = AtomicBool::new(false);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
const HARD_LIMIT: usize = 1 << 30;

fn seen(n: usize) {
    if WATCH.load(SeqCst) {
        BIGGEST.fetch_max(n, SeqCst);
        if n > HARD_LIMIT {
            WATCH.store(false, SeqCst);
            stop(&format!("asks for {n} bytes of memory at once"));
        }
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        seen(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        seen(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Watch = Watch;

pub fn alloc_watch(on: bool) -> usize {
    if on {
        BIGGEST.store(0, SeqCst);
    }
    WATCH.store(on, SeqCst);
    BIGGEST.load(SeqCst)
}

static CURRENT: Mutex<Option<(String, Case, String)>> = Mutex::new(None);
static BEAT: AtomicU64 = AtomicU64::new(0);

pub fn scratch() -> String {
    std::env::var("ORACLE_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}

/// Ends the run with the current case as the violation
fn stop(what: &str) -> ! {
    if let Ok(g) = CURRENT.try_lock() {
        if let Some((id, c, out)) = &*g {
            let v = json!({"property": id, "violation": what, "case": c.json()});
            std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).ok();
            println!("{}", json!({"property": id, "evaluations": BEAT.load(SeqCst), "distinct_nontrivial": 0, "samples": [], "violation": what, "case": c.json()}));
        }
    }
    std::process::exit(1)
}

fn run(check: props::Check, c: &Case) -> props::R {
    match catch_unwind(AssertUnwindSafe(|| check(c))) {
        Ok(r) => r,
        Err(p) => {
            alloc_watch(false);
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("?".into());
            Err(format!("panics: {m}"))
        }
    }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    if id == "api" {
        api::serve();
        return;
    }
    if id == "axioms" {
        axioms::check();
        return;
    }
    let (gen, check, rule) = match props::property(&id) {
        Some(p) => p,
        None => {
            eprintln!("no oracle for {id}");
            std::process::exit(3)
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    let out = arg(&a, "--out").unwrap_or("/dev/null".into());

    // a case that does not end is a violation
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(SeqCst);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(20) {
                stop("does not end within 20 seconds");
            }
        }
    });

    if let Some(f) = arg(&a, "--replay") {
        let t = std::fs::read_to_string(&f).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("replay file");
        let c = Case::unjson(&v["case"]);
        *CURRENT.lock().unwrap() = Some((id.clone(), c.clone(), out));
        match run(check, &c) {
            Ok(_) => {
                println!("holds");
                std::process::exit(0)
            }
            Err(e) => {
                println!("VIOLATED {id}: {e}");
                std::process::exit(1)
            }
        }
    }

    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(0);
    let ms: u64 = arg(&a, "--ms").and_then(|s| s.parse().ok()).unwrap_or(5000);
    let max: u64 = arg(&a, "--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    // this run takes every `parts`-th case, starting at `part`
    let part: u64 = arg(&a, "--part").and_then(|s| s.parse().ok()).unwrap_or(0);
    let parts: u64 = arg(&a, "--parts").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = gen::Rng::new(seed);
    let start = Instant::now();
    let mut seen_h: HashSet<u64> = HashSet::new();
    let mut n: u64 = 0;
    let mut samples: Vec<serde_json::Value> = vec![];
    while n < max {
        if n % 64 == 0 && start.elapsed() > Duration::from_millis(ms) {
            break;
        }
        // generation calls the code under test too
        let c = match catch_unwind(AssertUnwindSafe(|| gen(&mut r, n * parts + part))) {
            Ok(c) => c,
            Err(_) => {
                n += 1;
                continue;
            }
        };
        BEAT.fetch_add(1, SeqCst);
        n += 1;
        *CURRENT.lock().unwrap() = Some((id.clone(), c, out.clone()));
        let c = CURRENT.lock().unwrap().as_ref().unwrap().1.clone();
        match run(check, &c) {
            Ok(nt) => {
                if nt {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (&c.text, &c.bytes, c.width, c.flag, c.num, &c.strs, &c.meta).hash(&mut h);
                    for e in c.entries.iter().chain(&c.others) {
                        (&e.msgid, &e.msgstr, &e.msgid_plural, &e.msgstr_plural, &e.msgctxt, e.obsolete, &e.comment, &e.occurrences, &e.flags).hash(&mut h);
                        (&e.tcomment, &e.previous_msgid, &e.previous_msgctxt, &e.previous_msgid_plural, e.linenum).hash(&mut h);
                    }
                    if seen_h.len() < 4_000_000 {
                        seen_h.insert(h.finish());
                    }
                    if samples.len() < 3 || (n.is_power_of_two() && samples.len() < 12) {
                        samples.push(c.json());
                    }
                }
            }
            Err(e) => {
                // shrink
                let mut best = (c, e);
                let t0 = Instant::now();
                'outer: loop {
                    for s in best.0.shrinks() {
                        if t0.elapsed() > Duration::from_secs(5) {
                            break 'outer;
                        }
                        if s == best.0 {
                            continue;
                        }
                        *CURRENT.lock().unwrap() = Some((id.clone(), s.clone(), out.clone()));
                        BEAT.fetch_add(1, SeqCst);
                        // generated expectations of C07 belong to the text
                        if id == "C07" {
                            continue;
                        }
                        if let Err(e) = run(check, &s) {
                            best = (s, e);
                            continue 'outer;
                        }
                    }
                    break;
                }
                let v = json!({"property": id, "violation": best.1, "case": best.0.json()});
                std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).ok();
                println!(
                    "{}",
                    json!({"property": id, "evaluations": n, "distinct_nontrivial": seen_h.len(), "rule": rule,
                        "samples": samples, "violation": best.1, "case": best.0.json()})
                );
                std::process::exit(1);
            }
        }
    }
    println!(
        "{}",
        json!({"property": id, "evaluations": n, "distinct_nontrivial": seen_h.len(), "rule": rule, "samples": samples,
            "ms": start.elapsed().as_millis() as u64})
    );
}
