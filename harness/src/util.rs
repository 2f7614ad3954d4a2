use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Counts live blocks of the current thread, so that leaks of reference cycles are observable.
pub struct CountAlloc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        System.dealloc(p, l)
    }
}

pub fn live_blocks() -> i64 { LIVE.with(|c| c.get()) }

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub trait Case: Clone {
    const KIND: &'static str;
    fn encode(&self) -> String;
    fn decode(s: &str) -> Self;
    fn check(&self, prop: &str) -> Result<(), String>;
    fn shrinks(&self) -> Vec<Self>;
    fn trivial(&self) -> bool { false }
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(String, String, String, String)>> = Mutex::new(None); // prop, kind, body, out

/// A case that runs for 20 s is a hang (cases normally take microseconds).
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = CASE_NO.load(Ordering::SeqCst);
            let running = CURRENT.lock().map(|c| c.is_some()).unwrap_or(false);
            if running && n == last {
                same += 1;
                if same >= 20 {
                    let c = CURRENT.lock().unwrap().clone();
                    if let Some((prop, kind, body, out)) = c {
                        if !out.is_empty() { write_replay(&out, &prop, &kind, &body, "the call does not terminate"); }
                        println!("FAIL {}", "the call does not terminate (20 s)");
                        println!("JSON {{\"failed\":true}}");
                    }
                    std::process::exit(1);
                }
            } else {
                same = 0;
                last = n;
            }
        }
    });
}

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("HARNESS_VERBOSE").is_ok() {
            eprintln!("{}", info);
        }
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

pub fn check_caught<C: Case>(c: &C, prop: &str) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| c.check(prop))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub deadline: Instant,
    pub out: String,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub failure: Option<String>,
    pub notes: Vec<String>,
    pub exhaustive_parts: Vec<String>,
    trace: bool,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, deadline: Instant, out: &str) -> Self {
        let mut h = DefaultHasher::new();
        prop.hash(&mut h);
        Ctx {
            prop: prop.to_string(),
            rng: Rng(seed.wrapping_mul(0x1234567) ^ h.finish()),
            deadline,
            out: out.to_string(),
            evaluations: 0,
            nontrivial: HashSet::new(),
            samples: Vec::new(),
            failure: None,
            notes: Vec::new(),
            exhaustive_parts: Vec::new(),
            trace: std::env::var("HARNESS_TRACE").is_ok(),
        }
    }

    pub fn more(&self) -> bool { self.failure.is_none() && Instant::now() < self.deadline }

    /// Runs one case. Returns false if the property failed (after shrinking).
    pub fn case<C: Case>(&mut self, c: &C) -> bool {
        if self.failure.is_some() { return false; }
        self.evaluations += 1;
        let body = c.encode();
        if !c.trivial() && self.nontrivial.len() < 2_000_000 {
            let mut h = DefaultHasher::new();
            body.hash(&mut h);
            self.nontrivial.insert(h.finish());
        }
        if self.samples.len() < 3 && (self.evaluations == 1 || self.evaluations % 997 == 0) {
            self.samples.push(body.clone());
        }
        if self.trace {
            write_replay(&self.out, &self.prop, C::KIND, &body, "the process was killed (abort or stack overflow)");
        }
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        *CURRENT.lock().unwrap() = Some((self.prop.clone(), C::KIND.to_string(), body, self.out.clone()));
        let res = check_caught(c, &self.prop);
        *CURRENT.lock().unwrap() = None;
        match res {
            Ok(()) => true,
            Err(mut msg) => {
                let mut cur = c.clone();
                let t0 = Instant::now();
                'outer: while t0.elapsed().as_secs() < 20 {
                    for s in cur.shrinks() {
                        CASE_NO.fetch_add(1, Ordering::SeqCst);
                        if let Err(m) = check_caught(&s, &self.prop) {
                            cur = s;
                            msg = m;
                            continue 'outer;
                        }
                    }
                    break;
                }
                write_replay(&self.out, &self.prop, C::KIND, &cur.encode(), &msg);
                self.failure = Some(msg);
                false
            }
        }
    }

    pub fn finish(&mut self) -> i32 {
        if let Some(ref m) = self.failure { println!("FAIL {}", m.replace('\n', " | ")); }
        let s: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let ex: Vec<String> = self.exhaustive_parts.iter().map(|s| json_str(s)).collect();
        println!("JSON {{\"failed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"exhaustive_parts\":[{}]}}",
            self.failure.is_some(), self.evaluations, self.nontrivial.len(), s.join(","), ex.join(","));
        if self.failure.is_some() { 1 } else { 0 }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(path: &str, prop: &str, kind: &str, body: &str, msg: &str) {
    let t = format!("property: {}\nreason: {}\nkind: {}\n---\n{}", prop, msg.replace('\n', " | "), kind, body);
    let _ = std::fs::write(path, t);
}

pub fn parse_replay(t: &str) -> Option<(String, String, String)> {
    let i = t.find("\n---\n")?;
    let (head, body) = (&t[..i], &t[i + 5..]);
    let mut prop = None;
    let mut kind = None;
    for l in head.lines() {
        if l.starts_with("property: ") { prop = Some(l[10..].to_string()); }
        if l.starts_with("kind: ") { kind = Some(l[6..].to_string()); }
    }
    Some((prop?, kind?, body.to_string()))
}
