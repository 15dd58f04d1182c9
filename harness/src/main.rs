mod city; mod client; mod oracle; mod props; mod rng; mod server;
use rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case { pub n: u64, pub rng: Rng, pub tag: String, pub desc: String }
pub type PropFn = fn(&mut Case, &tokio::runtime::Runtime) -> Result<(), String>;

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
fn run_case(f: PropFn, seed: u64, n: u64) -> (Case, Result<(), String>) {
    let mut c = Case { n, rng: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n)), tag: String::new(), desc: String::new() };
    let r = rt();
    PANIC.with(|p| *p.borrow_mut() = None);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c, &r)));
    r.shutdown_timeout(Duration::from_millis(10));
    server::recycle();
    let res = match res { Ok(x) => x, Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()).unwrap_or_default())) };
    (c, res)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "list" { for (k, _) in props::all() { println!("{k}"); } return; }
    if let Some(n) = id.strip_prefix("probe:") {
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(|| props::probe(n, &rt()));
        match r { Ok(Ok(())) => { println!("PASS"); return; } Ok(Err(e)) => println!("FAIL {e}"), Err(_) => println!("FAIL panic") }
        std::process::exit(1);
    }
    let trace = std::env::var("VH_TRACE").is_ok();
    let f = match props::all().iter().find(|x| x.0 == id) { Some(x) => x.1, None => { eprintln!("no harness for {id}"); std::process::exit(2) } };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}"); PANIC.with(|p| *p.borrow_mut() = Some(m.clone())); *LAST_PANIC.lock().unwrap() = Some(m);
    }));
    let one = get("--case", "");
    if !one.is_empty() {
        let (c, r) = run_case(f, seed, one.parse().unwrap());
        println!("case {} tag={} desc={}", c.n, c.tag, c.desc);
        match r { Ok(()) => println!("PASS"), Err(e) => { println!("FAIL {e}"); std::process::exit(1) } }
        return;
    }
    let budget = Duration::from_secs_f64(get("--budget", "10").parse().unwrap());
    let maxc: u64 = get("--max", "1000000").parse().unwrap();
    let minc: u64 = get("--min", "0").parse().unwrap();
    let threads: usize = get("--threads", "8").parse().unwrap();
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0)); let done = Arc::new(AtomicU64::new(0)); let stop = Arc::new(AtomicBool::new(false));
    let tags = Arc::new(Mutex::new(std::collections::BTreeMap::<String, u64>::new()));
    let fail = Arc::new(Mutex::new(None::<(u64, String, String)>)); let flaky = Arc::new(AtomicU64::new(0)); let lastflaky = Arc::new(Mutex::new(String::new()));
    let samples = Arc::new(Mutex::new(vec![]));
    let running: Arc<Mutex<std::collections::HashMap<usize, (u64, Instant)>>> = Default::default();
    let mut hs = vec![];
    for w in 0..threads {
        let (next, done, stop, tags, fail, flaky, samples, running, lastflaky) = (next.clone(), done.clone(), stop.clone(), tags.clone(), fail.clone(), flaky.clone(), samples.clone(), running.clone(), lastflaky.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || loop {
            if stop.load(Ordering::Relaxed) { return; }
            let n = next.fetch_add(1, Ordering::Relaxed);
            if n >= maxc || (t0.elapsed() > budget && n >= minc) { return; }
            if trace { eprintln!("case {n}"); }
            running.lock().unwrap().insert(w, (n, Instant::now()));
            let (c, r) = run_case(f, seed, n);
            if let Err(e) = r {
                // confirm, so that a machine hiccup is not taken for a failure
                let again = (0..6).any(|_| run_case(f, seed, n).1.is_err());
                if again { let mut g = fail.lock().unwrap(); if g.is_none() { *g = Some((n, e, c.desc)); } stop.store(true, Ordering::Relaxed); }
                else { flaky.fetch_add(1, Ordering::Relaxed); *lastflaky.lock().unwrap() = format!("case {n}: {e}"); }
            } else {
                *tags.lock().unwrap().entry(c.tag.clone()).or_insert(0) += 1;
                let mut s = samples.lock().unwrap(); if s.len() < 5 { s.push(format!("case {n}: {} {}", c.tag, c.desc.chars().take(300).collect::<String>())); }
            }
            done.fetch_add(1, Ordering::Relaxed);
            running.lock().unwrap().remove(&w);
        }).unwrap());
    }
    // watchdog: a case that never returns
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        let stuck = running.lock().unwrap().values().find(|x| x.1.elapsed() > Duration::from_secs(150)).map(|x| x.0);
        if let Some(n) = stuck { let mut g = fail.lock().unwrap(); if g.is_none() { *g = Some((n, "the call never returned (150 s)".into(), String::new())); } break; }
    }
    let tags = tags.lock().unwrap();
    let fl = fail.lock().unwrap().clone();
    println!("{{\"property\":{},\"seed\":{seed},\"cases\":{},\"distinct\":{},\"flaky\":{},\"last_flaky\":{},\"wall\":{:.2},\"samples\":[{}],\"fail\":{}}}",
        js(&id), done.load(Ordering::Relaxed), tags.len(), flaky.load(Ordering::Relaxed), js(&lastflaky.lock().unwrap()), t0.elapsed().as_secs_f64(),
        samples.lock().unwrap().iter().map(|s: &String| js(s)).collect::<Vec<_>>().join(","),
        match &fl { None => "null".into(), Some((n, e, d)) => format!("{{\"case\":{n},\"error\":{},\"desc\":{}}}", js(e), js(d)) });
    std::process::exit(if fl.is_some() { 1 } else { 0 });
}
