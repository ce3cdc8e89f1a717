//! Bounded exploration of the real crate, one property at a time.
//!
//!   harness search PROP --seed S --budget SECONDS [--dir D] [--max N]
//!   harness replay PROP --seed S --case N
//!
//! Prints `FAIL case=N` with the input on the first failing case (exit 1), or
//! `OK {json}` (exit 0). The case being run by each thread is kept in D, so
//! that a crash or a hang can be attributed by the caller.
mod alloc;
mod cx;
mod dec;
mod gen;
mod hist;
#[cfg(feature = "macros")]
mod mac;
mod props;
mod refjson;
mod rng;

use cx::Cx;
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run one case; the failure, if any, and what it was about.
fn one(prop: &str, id: u64, seed: u64, cx: &mut Cx) -> Option<String> {
    let before = alloc::live();
    let res = catch_unwind(AssertUnwindSafe(|| props::run(prop, id, seed, cx)));
    let bad = match res {
        Err(_) => Some(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
        Ok(Err(e)) => Some(e),
        Ok(Ok(())) => None,
    };
    if let Some(e) = alloc::error() {
        return Some(format!("memory error: {}", e));
    }
    if bad.is_some() {
        return bad;
    }
    let cap = cx.desc.capacity() as i64;
    let after = alloc::live();
    let extra = (after.0 - before.0 - cap, after.1 - before.1 - if cap > 0 { 1 } else { 0 });
    if extra != (0, 0) {
        return Some(format!("memory leak: {} bytes in {} allocations", extra.0, extra.1));
    }
    None
}

fn case(prop: &str, id: u64, seed: u64) -> (Option<String>, Cx) {
    let mut cx = Cx::new();
    let mut bad = one(prop, id, seed, &mut cx);
    if let Some(ref e) = bad {
        if e.starts_with("memory leak") {
            // lazily initialised memory is not allocated twice
            cx = Cx::new();
            bad = one(prop, id, seed, &mut cx);
        }
    }
    (bad, cx)
}

fn arg(args: &[String], name: &str, default: &str) -> String {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(default.to_string())
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "..." }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).cloned().unwrap_or_default();
    let prop = args.get(2).cloned().unwrap_or_default();
    let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{:?}{}", msg, at));
    }));
    if !props::IDS.contains(&prop.as_str()) {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    }
    if mode == "replay" {
        let id: u64 = arg(&args, "--case", "0").parse().unwrap();
        // the input first: the case may crash
        let p = prop.clone();
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let (bad, cx) = case(&p, id, seed);
            match bad {
                Some(e) => {
                    println!("FAIL case={}\ninput: {}\n{}", id, cx.desc, e);
                    1
                }
                None => {
                    println!("OK case={}\ninput: {}", id, cx.desc);
                    0
                }
            }
        }).unwrap();
        std::process::exit(t.join().unwrap_or(1));
    }
    let budget: f64 = arg(&args, "--budget", "10").parse().unwrap();
    let max: u64 = arg(&args, "--max", "18446744073709551615").parse().unwrap();
    let dir = arg(&args, "--dir", "");
    let n: usize = arg(&args, "--threads", "8").parse().unwrap();
    let file = if dir.is_empty() { None } else { Some(Arc::new(File::create(format!("{}/cases", dir)).unwrap())) };
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, String, String)>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let current: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..n).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let mut threads = Vec::new();
    for t in 0..n {
        let (prop, stop, found, samples, current, file) = (prop.clone(), stop.clone(), found.clone(), samples.clone(), current.clone(), file.clone());
        threads.push(std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let mut seen: HashSet<u64> = HashSet::new();
            let (mut runs, mut distinct) = (0u64, 0u64);
            let mut id = t as u64;
            while !stop.load(Ordering::Relaxed) && id < max {
                current[t].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                current[t].0.store(id, Ordering::Relaxed);
                if let Some(ref f) = file {
                    let _ = f.write_at(&id.to_le_bytes(), 8 * t as u64);
                }
                let (bad, cx) = case(&prop, id, seed);
                runs += 1;
                if let Some(e) = bad {
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map(|x| x.0 > id).unwrap_or(true) {
                        *f = Some((id, cx.desc, e));
                    }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
                if cx.nontrivial && seen.len() < 3_000_000 && seen.insert(cx.key) {
                    distinct += 1;
                    if distinct == 40 || distinct == 4000 {
                        samples.lock().unwrap().push(cut(&cx.desc, 300));
                    }
                }
                id += n as u64;
            }
            current[t].0.store(u64::MAX, Ordering::Relaxed);
            (runs, distinct)
        }).unwrap());
    }
    // time limit, and a watch for cases that do not end
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed();
        if now.as_secs_f64() > budget {
            stop.store(true, Ordering::Relaxed);
        }
        if threads.iter().all(|t| t.is_finished()) {
            break;
        }
        for c in current.iter() {
            let id = c.0.load(Ordering::Relaxed);
            if id != u64::MAX && now.as_millis() as u64 > c.1.load(Ordering::Relaxed) + 20_000 {
                println!("HANG case={}", id);
                std::process::exit(1);
            }
        }
    }
    let (mut runs, mut distinct) = (0, 0);
    for t in threads {
        match t.join() {
            Ok((a, b)) => {
                runs += a;
                distinct += b;
            }
            Err(_) => std::process::exit(3),
        }
    }
    if let Some((id, input, e)) = found.lock().unwrap().take() {
        println!("FAIL case={}\ninput: {}\n{}", id, input, e);
        std::process::exit(1);
    }
    let s: Vec<String> = samples.lock().unwrap().iter().take(8).map(|s| quote(s)).collect();
    println!("OK {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]}}", runs, distinct, quote(props::rule(&prop)), s.join(","));
}
