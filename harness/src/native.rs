//! Runs the contract harnesses natively: bounded search, and replay of a counterexample.
//!
//! native list
//! native run --seed N --seconds S [--threads T] [--only h,h] [--trace FILE]
//! native replay HARNESS HEX|seed:N
use liblofty_contracts::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern crate lofty_contracts as liblofty_contracts;

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

enum Outcome { Ok, Rejected, Fail(String) }

fn once(f: fn()) -> Outcome {
    LAST.with(|l| l.borrow_mut().clear());
    match std::panic::catch_unwind(f) {
        Ok(()) => Outcome::Ok,
        Err(p) => {
            if p.is::<nd::Rejected>() { return Outcome::Rejected }
            if let Some(v) = p.downcast_ref::<Violated>() { return Outcome::Fail(v.0.to_string()) }
            Outcome::Fail(format!("panic: {}", LAST.with(|l| l.borrow().clone())))
        },
    }
}

fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{b:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => { o.push('\\'); o.push(c) },
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stat { iters: u64, rejected: u64, reached: BTreeMap<String, u64>, fail: Option<(String, String, u64)>, done: bool }

/// Zeroes and shrinks input bytes while the same obligation still fails
fn shrink(f: fn(), mut v: Vec<u8>, label: &str) -> Vec<u8> {
    let t = Instant::now();
    let fails = |v: &[u8]| {
        nd::start(Some(v.to_vec()), 1);
        matches!(once(f), Outcome::Fail(l) if l == label)
    };
    if !fails(&v) || v.len() > 4096 { return v }
    for i in 0..v.len() {
        if t.elapsed() > Duration::from_secs(3) { break }
        if v[i] != 0 {
            let o = v[i];
            v[i] = 0;
            if !fails(&v) { v[i] = o }
        }
    }
    v
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { (*s).to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{loc}: {m}"));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let all = all();
    match args.first().map(String::as_str) {
        Some("list") => for (n, k, _) in &all { println!("{k} {n}") },
        Some("replay") => {
            let f = all.iter().find(|h| h.0 == args[1]).expect("no such harness").2;
            let f2 = f;
            match args[2].strip_prefix("seed:") {
                Some(s) => nd::start(None, s.parse().unwrap()),
                None => nd::start(Some(unhex(&args[2])), 1),
            }
            match once(f2) {
                Outcome::Ok => println!("ok"),
                Outcome::Rejected => println!("rejected"),
                Outcome::Fail(l) => { println!("violated: {l}"); println!("input: {}", hex(&nd::log())); std::process::exit(1) },
            }
        },
        Some("run") => {
            let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
            let secs: f64 = opt("--seconds").map_or(10.0, |s| s.parse().unwrap());
            let threads: usize = opt("--threads").map_or(8, |s| s.parse().unwrap());
            let only = opt("--only");
            let trace = opt("--trace");
            let hs: Vec<_> = all.iter().filter(|h| only.as_ref().is_none_or(|o| o.split(',').any(|x| x == h.0))).copied().collect();
            if hs.is_empty() { return }
            let stats: Arc<Vec<Mutex<Stat>>> = Arc::new(hs.iter().map(|_| Mutex::new(Stat::default())).collect());
            let stop = Arc::new(AtomicBool::new(false));
            // (harness index + 1, seed, start in ms)
            let cur: Arc<Vec<[AtomicU64; 3]>> = Arc::new((0..threads).map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect());
            let t0 = Instant::now();
            let live = Arc::new(AtomicU64::new(threads as u64));
            for t in 0..threads {
                let (stats, hs, stop, cur, live, trace) = (stats.clone(), hs.clone(), stop.clone(), cur.clone(), live.clone(), trace.clone());
                std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                    let mut tf = trace.map(|p| std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap());
                    // `once` harnesses are enumerations: one run, on one thread
                    for (i, h) in hs.iter().enumerate() {
                        if h.1 == "once" && i % threads != t { continue }
                        if h.1 != "once" { continue }
                        cur[t][1].store(0, Ordering::SeqCst);
                        cur[t][2].store(t0.elapsed().as_millis() as u64 + 600_000, Ordering::SeqCst);
                        cur[t][0].store(i as u64 + 1, Ordering::SeqCst);
                        if let Some(f) = &mut tf { let _ = writeln!(f, "{} 0", h.0); }
                        nd::start(None, 0);
                        let o = once(h.2);
                        let mut s = stats[i].lock().unwrap();
                        s.iters = 1;
                        s.done = true;
                        if let Outcome::Fail(l) = o { s.fail = Some((l, hex(&nd::log()), 0)) }
                        nd::REACHED.with(|r| for (k, v) in std::mem::take(&mut *r.borrow_mut()) { *s.reached.entry(k.to_string()).or_insert(0) += v });
                    }
                    let rest: Vec<usize> = (0..hs.len()).filter(|&i| hs[i].1 != "once").collect();
                    let mut round = 0u64;
                    while !rest.is_empty() && !stop.load(Ordering::Relaxed) {
                        for j in 0..rest.len() {
                            let i = rest[(j + t * rest.len() / threads) % rest.len()];
                            let f = hs[i].2;
                            if stop.load(Ordering::Relaxed) { break }
                            if stats[i].lock().unwrap().fail.is_some() { continue }
                            let (mut n, mut rej) = (0u64, 0u64);
                            let mut fail = None;
                            let b = Instant::now();
                            let slice = Duration::from_millis(if round == 0 { 20 } else { 100 });
                            while b.elapsed() < slice {
                                for _ in 0..8 {
                                    let sd = seed.wrapping_mul(0x0100_0000_01B3) ^ (t as u64) << 56 ^ round << 40 ^ (i as u64) << 34 ^ n;
                                    cur[t][1].store(sd, Ordering::Relaxed);
                                    cur[t][2].store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                    cur[t][0].store(i as u64 + 1, Ordering::SeqCst);
                                    if let Some(f) = &mut tf { let _ = writeln!(f, "{} {}", hs[i].0, sd); }
                                    nd::start(None, sd);
                                    n += 1;
                                    match once(f) {
                                        Outcome::Ok => {},
                                        Outcome::Rejected => rej += 1,
                                        Outcome::Fail(l) => { fail = Some((l, nd::log(), sd)); break },
                                    }
                                    cur[t][0].store(0, Ordering::SeqCst);
                                }
                                if fail.is_some() { break }
                            }
                            let fail = fail.map(|(l, v, sd)| { let s = shrink(f, v, &l); (l, hex(&s), sd) });
                            cur[t][0].store(0, Ordering::SeqCst);
                            let mut s = stats[i].lock().unwrap();
                            s.iters += n;
                            s.rejected += rej;
                            if s.fail.is_none() { s.fail = fail }
                            nd::REACHED.with(|r| for (k, v) in std::mem::take(&mut *r.borrow_mut()) { *s.reached.entry(k.to_string()).or_insert(0) += v });
                        }
                        round += 1;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                }).unwrap();
            }
            let only_once = hs.iter().all(|h| h.1 == "once");
            let hang = loop {
                std::thread::sleep(Duration::from_millis(20));
                if live.load(Ordering::SeqCst) == 0 { break None }
                let now = t0.elapsed().as_millis() as u64;
                let h = cur.iter().find(|c| c[0].load(Ordering::SeqCst) != 0 && now > c[2].load(Ordering::Relaxed) + 15_000);
                if let Some(c) = h { break Some((c[0].load(Ordering::SeqCst), c[1].load(Ordering::SeqCst))) }
                if !only_once && t0.elapsed().as_secs_f64() > secs { stop.store(true, Ordering::SeqCst) }
                if stats.iter().all(|s| s.lock().unwrap().fail.is_some()) { stop.store(true, Ordering::SeqCst) }
            };
            for (i, h) in hs.iter().enumerate() {
                let s = stats[i].lock().unwrap();
                let mut fail = s.fail.as_ref().map(|(l, x, sd)| (l.clone(), x.clone(), *sd));
                if let Some((hi, sd)) = hang { if hi == i as u64 + 1 { fail = Some(("does not terminate".into(), String::new(), sd)) } }
                let r: Vec<String> = s.reached.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
                let f = fail.map_or("null".to_string(), |(l, x, sd)| format!("{{\"label\":{},\"hex\":\"{x}\",\"seed\":{sd}}}", esc(&l)));
                println!("{{\"harness\":\"{}\",\"kind\":\"{}\",\"iters\":{},\"rejected\":{},\"reached\":{{{}}},\"fail\":{f}}}", h.0, h.1, s.iters, s.rejected, r.join(","));
            }
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        },
        _ => panic!("list | run | replay"),
    }
}
