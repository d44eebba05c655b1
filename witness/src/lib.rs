//! Native search for concrete failing inputs, against the public API of the real crate.
//! Used to turn a failed proof obligation into a replayable input, and as a bounded
//! stand-in (labelled as such) for functions outside the verifier's reach.
//!
//! usage of every binary: BIN PART SECONDS SEED [CASE]
//! exit 0: nothing found; exit 1: `WITNESS ...` printed; a crash counts as found, the last
//! `case N` line then names the failing case.
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn us(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.us(s.len())] }
}

static TICK: AtomicU64 = AtomicU64::new(0);
static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
pub fn tick() { TICK.fetch_add(1, Relaxed); }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// report a concrete failing input and stop
pub fn found(msg: &str) -> ! {
    println!("WITNESS case={} {}", CASE.load(SeqCst) as i64, msg);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::found(&format!($($t)*)); } } }

/// Run `case(part, rng)` until the time is used up.
pub fn drive(parts: &[&str], mut case: impl FnMut(&str, u64, &mut Rng)) {
    let a: Vec<String> = std::env::args().collect();
    let part = a[1].clone();
    assert!(parts.contains(&part.as_str()));
    let secs: u64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        println!("WITNESS case={} panic: {}", CASE.load(SeqCst) as i64, i.to_string().replace('\n', " "));
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }));
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Relaxed);
            if t != last.0 { last = (t, Instant::now()); }
            if last.1.elapsed() > Duration::from_secs(60) { found("an operation does not finish (60 s without progress)"); }
        }
    });
    if let Some(c) = a.get(4) {
        let c: u64 = c.parse().unwrap();
        CASE.store(c, SeqCst);
        let mut r = Rng::new(seed, c);
        case(&part, c, &mut r);
        println!("QUIET case={c}");
        return;
    }
    let t0 = Instant::now();
    let mut n = 0u64;
    while t0.elapsed() < Duration::from_secs(secs) {
        CASE.store(n, SeqCst);
        println!("case {n}");
        let _ = std::io::stdout().flush();
        let mut r = Rng::new(seed, n);
        case(&part, n, &mut r);
        tick();
        n += 1;
    }
    println!("QUIET cases={n} seconds={secs} seed={seed}");
}
