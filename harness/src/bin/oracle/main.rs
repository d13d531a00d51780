mod gen;
mod oracles;
use gen::*;
use oracles::*;
use std::io::Write;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 || (127..160).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jcase(c: &Case) -> String { format!("[{}]", c.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")) }
/// parses a JSON array of strings
fn pcase(s: &str) -> Case {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] != '"' { i += 1; continue; }
        i += 1;
        let mut w = String::new();
        while c[i] != '"' {
            if c[i] == '\\' {
                i += 1;
                match c[i] { 'n' => w.push('\n'), 'r' => w.push('\r'), 't' => w.push('\t'), 'b' => w.push('\u{8}'), 'f' => w.push('\u{c}'),
                    'u' => {
                        let h = |i: usize| u32::from_str_radix(&c[i..i + 4].iter().collect::<String>(), 16).unwrap();
                        let mut x = h(i + 1); i += 4;
                        if (0xd800..0xdc00).contains(&x) { let y = h(i + 3); x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00); i += 6; }
                        w.push(char::from_u32(x).unwrap());
                    }
                    x => w.push(x) }
            } else { w.push(c[i]); }
            i += 1;
        }
        i += 1;
        v.push(w);
    }
    v
}
fn guarded(id: &str, c: &Case) -> Verdict {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| run(id, c))) {
        Ok(v) => v,
        Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); Err(format!("panic: {}", m)) }
    }
}
/// greedy shrinking of the first text of a failing case without readings
fn shrink(id: &str, c: &Case, t0: Instant) -> Case {
    let mut best = c.clone();
    let free: Vec<usize> = match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C17" | "C18" | "C19" | "C20" | "C21" => vec![0],
        "C10" | "C11" => vec![0],
        "C07" | "C12" | "C13" | "C14" | "C15" | "C23" => vec![1],
        _ => vec![],
    };
    // drop the readings if the failure does not need them
    if best.len() > 1 && free == [0] && !["C06", "C11", "C16"].contains(&id) { let x = vec![best[0].clone()]; if guarded(id, &x).is_err() { best = x; } else { return best; } }
    let mut step = 8;
    while step > 0 && t0.elapsed() < Duration::from_secs(20) {
        let mut any = false;
        for &f in &free {
            let mut i = 0;
            loop {
                let ch: Vec<char> = best[f].chars().collect();
                if i >= ch.len() || t0.elapsed() > Duration::from_secs(20) { break; }
                let j = (i + step).min(ch.len());
                let mut x = best.clone();
                x[f] = ch[..i].iter().chain(&ch[j..]).collect();
                if guarded(id, &x).is_err() { best = x; any = true; } else { i += 1; }
            }
        }
        if !any { step /= 2; }
    }
    best
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a[1].clone();
    panic::set_hook(Box::new(|_| {}));
    if let Some(f) = get("--replay") {
        let c = pcase(&std::fs::read_to_string(&f).unwrap());
        // long inputs are replayed on the stack size of an ordinary thread
        let stack = if c.iter().map(|x| x.len()).sum::<usize>() > 100_000 { 2 << 20 } else { 64 << 20 };
        let id2 = id.clone();
        match std::thread::Builder::new().stack_size(stack).spawn(move || guarded(&id2, &c)).unwrap().join().unwrap() {
            Ok(_) => { println!("HOLDS"); }
            Err(e) => { println!("FAILS {}", e); std::process::exit(1); }
        }
        return;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = Duration::from_millis(get("--ms").and_then(|s| s.parse().ok()).unwrap_or(3000));
    let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(4);
    let repo = get("--repo").unwrap_or("/repo".into());
    let trace = get("--trace");
    let dict = Arc::new(harvest(&repo));
    let mut corpus = vec![];
    for d in ["tests", "examples", "."] {
        if let Ok(rd) = std::fs::read_dir(format!("{}/{}", repo, d)) { for e in rd.flatten() { let p = e.path(); if p.to_string_lossy().contains("ockerfile") { if let Ok(s) = std::fs::read_to_string(&p) { if s.len() < 3000 { corpus.push(s); } } } } }
    }
    corpus.sort();
    let corpus = Arc::new(corpus);
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(vec![]));
    let distinct: Arc<Mutex<std::collections::HashSet<u64>>> = Arc::new(Mutex::new(Default::default()));
    let t0 = Instant::now();
    if id == "C01" {
        // no construct may recurse once per repetition: long inputs on an ordinary thread's stack
        let found0 = found.clone();
        let (trace, found, evals) = (trace.clone(), found.clone(), evals.clone());
        std::thread::Builder::new().stack_size(2 << 20).spawn(move || for c in long_inputs() {
            if let Some(tr) = &trace { let mut f = std::fs::File::create(format!("{}.0", tr)).unwrap(); f.write_all(jcase(&c).as_bytes()).unwrap(); }
            evals.fetch_add(1, Ordering::Relaxed);
            if let Err(e) = guarded("C01", &c) { *found.lock().unwrap() = Some((c, e)); return; }
        }).unwrap().join().unwrap();
        if found0.lock().unwrap().is_some() { stop.store(true, Ordering::Relaxed); }
    }
    let t0 = if id == "C01" { Instant::now() } else { t0 };
    let mut hs = vec![];
    let current: Arc<Vec<Mutex<(Instant, Option<Case>)>>> = Arc::new((0..threads).map(|_| Mutex::new((Instant::now(), None))).collect());
    for th in 0..threads {
        let (dict, corpus, stop, found, evals, nontriv, samples, distinct, id, current, trace) = (dict.clone(), corpus.clone(), stop.clone(), found.clone(), evals.clone(), nontriv.clone(), samples.clone(), distinct.clone(), id.clone(), current.clone(), trace.clone());
        let pn = IDS.iter().position(|x| *x == id).unwrap() as u64;
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut g = G { r: Rng::new(seed ^ (th << 32) ^ (pn << 48)), d: &dict, corpus: &corpus, big: false };
            let mut hashes = vec![];
            let mut n = 0u64;
            while !stop.load(Ordering::Relaxed) && t0.elapsed() < budget && n * threads < max {
                n += 1;
                let c = g.case(&id);
                if let Some(tr) = &trace { let mut f = std::fs::File::create(format!("{}.{}", tr, th)).unwrap(); f.write_all(jcase(&c).as_bytes()).unwrap(); }
                *current[th as usize].lock().unwrap() = (Instant::now(), Some(c.clone()));
                let v = guarded(&id, &c);
                evals.fetch_add(1, Ordering::Relaxed);
                match v {
                    Ok(nt) => if nt {
                        nontriv.fetch_add(1, Ordering::Relaxed);
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        c.hash(&mut h);
                        hashes.push(h.finish());
                        if n % 97 == 1 { let mut s = samples.lock().unwrap(); if s.len() < 6 && c.iter().map(|x| x.len()).sum::<usize>() < 400 { s.push(c); } }
                    },
                    Err(e) => { let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((c, e)); } stop.store(true, Ordering::Relaxed); }
                }
            }
            *current[th as usize].lock().unwrap() = (Instant::now(), None);
            distinct.lock().unwrap().extend(hashes);
        }).unwrap());
    }
    // watchdog: a single case must not run for very long
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        for m in current.iter() {
            let g = m.lock().unwrap();
            if let (t, Some(c)) = (&g.0, &g.1) { if t.elapsed() > Duration::from_secs(20) {
                println!("{{\"violation\": {{\"case\": {}, \"message\": {}}}}}", jcase(c), js("no result within 20 s"));
                std::process::exit(1);
            } }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for h in hs { let _ = h.join(); }
    let v = found.lock().unwrap().clone();
    let viol = match v {
        None => "null".to_string(),
        Some((c, e)) => {
            let s = if c[0].len() > 100_000 { c.clone() } else { shrink(&id, &c, Instant::now()) };
            let e2 = guarded(&id, &s).err().unwrap_or(e);
            format!("{{\"case\": {}, \"message\": {}}}", jcase(&s), js(&e2))
        }
    };
    let smp = samples.lock().unwrap().iter().map(|c| jcase(c)).collect::<Vec<_>>().join(", ");
    let dn = distinct.lock().unwrap().len();
    println!("{{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"violation\": {}}}", evals.load(Ordering::Relaxed), nontriv.load(Ordering::Relaxed), dn, smp, viol);
    std::process::exit(if viol == "null" { 0 } else { 1 });
}
