//! Shared by the native drivers: generator, watchdog, reporting.
#![allow(dead_code)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

/// What one run of a property's driver covered.
#[derive(Default)]
pub struct Stats { pub evaluations: u64, pub nontrivial: u64, pub rule: String, pub samples: Vec<String> }

static BEAT: AtomicU64 = AtomicU64::new(0);
static CASE: Mutex<String> = Mutex::new(String::new());

pub struct Ctx { pub seed: u64, pub thorough: bool, pub stats: Stats, pub deadline: Instant }

impl Ctx {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn out_of_time(&self) -> bool { Instant::now() > self.deadline }
    /// Runs one case; `desc` is only called when the case fails (or is sampled).
    pub fn case<D: Fn() -> String, R: FnOnce() -> Result<bool, String>>(&mut self, desc: D, run: R) -> Result<(), String> {
        BEAT.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut g) = CASE.try_lock() { *g = desc(); }
        self.stats.evaluations += 1;
        let r = catch_unwind(AssertUnwindSafe(run));
        match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    self.stats.nontrivial += 1;
                    if self.stats.samples.len() < 3 && (self.stats.nontrivial % 97 == 1) { let d = desc(); self.stats.samples.push(d); }
                }
                Ok(())
            }
            Ok(Err(e)) => Err(format!("case: {}\nfailure: {}", desc(), e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("case: {}\nfailure: the code panicked: {}", desc(), m))
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

fn emit(id: &str, st: &Stats, fails: &[String]) {
    println!("RESULT {{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
        esc(id), st.evaluations, st.nontrivial, esc(&st.rule),
        st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        fails.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
}

pub type Prop = fn(&mut Ctx) -> Result<(), String>;

/// `<bin> <property> <seed> <quick|thorough> [seconds]`; last line of output is `RESULT {json}`.
pub fn main_with(table: &[(&str, Prop)]) {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let seed = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    let secs: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(if thorough { 300 } else { 40 });
    let id2 = id.clone();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last.0 { last = (b, Instant::now()); }
            if last.1.elapsed() > Duration::from_secs(30) {
                let d = CASE.lock().map(|g| g.clone()).unwrap_or_default();
                emit(&id2, &Stats { evaluations: b, ..Default::default() }, &[format!("case: {}\nfailure: no answer within 30 s (does not terminate)", d)]);
                std::process::exit(1);
            }
        }
    });
    for (k, f) in table {
        if *k == id {
            let f = *f;
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut c = Ctx { seed, thorough, stats: Stats::default(), deadline: Instant::now() + Duration::from_secs(secs) };
                let r = f(&mut c);
                (c.stats, r)
            }).unwrap();
            match h.join() {
                Ok((st, r)) => {
                    let fails: Vec<String> = r.err().into_iter().collect();
                    emit(&id, &st, &fails);
                    std::process::exit(if fails.is_empty() { 0 } else { 1 });
                }
                Err(e) => { eprintln!("driver itself failed: {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()))); std::process::exit(3); }
            }
        }
    }
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}
