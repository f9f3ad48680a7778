mod alloc;
mod data;
mod rd;
mod util;
mod wr;
mod zip;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

type Suite = fn(&mut Rng, &mut Cx) -> R;
fn suite(n: &str) -> Option<Suite> {
    Some(match n {
        "C01" => rd::c01, "C02" => rd::c02, "C03" => rd::c03, "C04" => rd::c04, "C05" => rd::c05, "C06" => data::c06, "C07" => data::c07, "C08" => data::c08,
        "C09" => wr::c09, "C10" => wr::c10, "C11" => wr::c11, "C12" => wr::c12, "C13" => wr::c13, "C14" => wr::c14, "C15" => wr::c15, "C16" => rd::c16, "C17" => rd::c17,
        "C18" => wr::c18, "C19" => data::c19, "C20" => wr::c20, "C21" => wr::c21,
        _ => return None,
    })
}
fn case(name: &str, seed: u64, index: u64, thorough: bool) -> (Cx, R) {
    let mut cx = Cx { index, thorough, ..Default::default() };
    let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h64(&name) ^ index.wrapping_mul(0xD1B5_4A32_D192_ED03));
    rng.next();
    let f = suite(name).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, &mut cx)));
    let r = r.unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if zip::known_panic(&last()) { return Ok(()); }
        Err(format!("panic: {m} ({})", last()))
    });
    (cx, r)
}
thread_local! { pub static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn last() -> String { LAST.with(|l| l.borrow().clone()) }
/// what each worker is doing, for the watchdog: index+1 and start
static CUR: [(AtomicU64, AtomicU64); 64] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; 64];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| l.to_string()).unwrap_or_default(); LAST.with(|x| *x.borrow_mut() = l); }));
    rd::probe_known();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let name = a[2].clone();
            let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
            let secs: f64 = get("--secs").map_or(10.0, |s| s.parse().unwrap());
            let min: u64 = get("--min").map_or(0, |s| s.parse().unwrap());
            let thorough = get("--tier").as_deref() == Some("thorough");
            let threads: usize = get("--threads").map_or(8, |s| s.parse().unwrap());
            std::process::exit(run(&name, seed, secs, min, thorough, threads, get("--out"), get("--replay")));
        }
        Some("known") => println!("{}", serde_json::json!({"C07-deflate64-descriptor": data::known_deflate64(), "last-four-bytes": zip::QUIRK_LAST.get() == Some(&true), "overlong-extra-field": zip::QUIRK_PANIC.get().is_some_and(|l| !l.is_empty())})),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let (s, seed, i) = (v["suite"].as_str().unwrap(), v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap());
            // a hang is reported after a minute
            std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(120)); println!("FAILS: no progress within 120 s"); std::process::exit(1) });
            match case(s, seed, i, v["thorough"].as_bool().unwrap_or(false)).1 {
                Ok(()) => println!("holds"),
                Err(e) => { println!("FAILS: {e}"); std::process::exit(1) }
            }
        }
        _ => { eprintln!("native run SUITE [--seed N] [--secs S] [--min N] [--tier T] [--threads N] [--out F] [--replay F] | native replay FILE"); std::process::exit(2) }
    }
}
fn run(name: &str, seed: u64, secs: f64, min: u64, thorough: bool, threads: usize, out: Option<String>, replay: Option<String>) -> i32 {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new((0u64, 0u64, HashSet::<u64>::new(), Vec::<String>::new()));
    let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let report = |bad: &Option<(u64, String)>| {
        let t = total.lock().unwrap();
        let j = serde_json::json!({"suite": name, "seed": seed, "cases": t.0, "evals": t.1, "distinct": t.2.len(), "samples": t.3, "secs": t0.elapsed().as_secs_f64(),
            "violation": bad.as_ref().map(|(i, e)| serde_json::json!({"index": i, "what": e}))});
        if let Some(o) = &out { std::fs::write(o, serde_json::to_string_pretty(&j).unwrap()).unwrap(); }
        if let (Some(p), Some((i, e))) = (&replay, bad) {
            let j = serde_json::json!({"suite": name, "seed": seed, "index": i, "thorough": thorough, "what": e.lines().collect::<Vec<_>>()});
            std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        }
        println!("{name}: {} cases, {} evaluations, {} distinct, {:.1} s{}", t.0, t.1, t.2.len(), t0.elapsed().as_secs_f64(), bad.as_ref().map_or(String::new(), |(i, e)| format!("\ncase {i} FAILS: {}", e.chars().take(1500).collect::<String>())));
    };
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, total, bad, t0) = (&next, &stop, &total, &bad, &t0);
            s.spawn(move || {
                loop {
                    if stop.load(Ordering::Relaxed) { break; }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= min && t0.elapsed().as_secs_f64() > secs { break; }
                    CUR[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    CUR[w].0.store(i + 1, Ordering::SeqCst);
                    let (cx, r) = case(name, seed, i, thorough);
                    CUR[w].0.store(0, Ordering::SeqCst);
                    let mut t = total.lock().unwrap();
                    t.0 += 1;
                    t.1 += cx.evals;
                    if t.2.len() < 3_000_000 { t.2.extend(cx.seen); }
                    if t.3.len() < 5 { if let Some(s) = cx.sample { t.3.push(format!("case {i}: {}", s.chars().take(400).collect::<String>())); } }
                    drop(t);
                    if let Err(e) = r {
                        let mut b = bad.lock().unwrap();
                        if b.as_ref().map_or(true, |(j, _)| i < *j) { *b = Some((i, e)); }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                CUR[w].1.store(u64::MAX, Ordering::SeqCst);
            });
        }
        // watchdog: a case takes far less than this unless it does not end
        let (bad, t0, report) = (&bad, &t0, &report);
        s.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(50));
                if CUR[..threads].iter().all(|c| c.1.load(Ordering::SeqCst) == u64::MAX) { break; }
                let now = t0.elapsed().as_millis() as u64;
                for c in &CUR[..threads] {
                    let (i, st) = (c.0.load(Ordering::SeqCst), c.1.load(Ordering::SeqCst));
                    if i > 0 && st != u64::MAX && now > st + 120_000 {
                        let b = Some((i - 1, "no progress within 120 s: the code under test does not end".to_string()));
                        *bad.lock().unwrap() = b.clone();
                        report(&b);
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    let b = bad.into_inner().unwrap();
    report(&b);
    if b.is_some() { 1 } else { 0 }
}
