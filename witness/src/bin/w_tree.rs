//! Differential test of the whole tree (real nodes of width 24) against an ordered map.
use masstree::{MassTree24, MassTree24Inline, MassTreeIndex};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use witness::*;

// ---------------------------------------------------------------- allocator: balance, poison
struct Count;
static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static COUNTING: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNTING.load(Relaxed) { BYTES.fetch_add(l.size() as i64, Relaxed); BLOCKS.fetch_add(1, Relaxed); }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNTING.load(Relaxed) { BYTES.fetch_sub(l.size() as i64, Relaxed); BLOCKS.fetch_sub(1, Relaxed); }
        // released memory is overwritten, so that a use after release shows
        unsafe { std::ptr::write_bytes(p, 0xDB, l.size()); System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Count = Count;

// ---------------------------------------------------------------- uniform view of the maps
trait Map {
    fn make() -> Self;
    fn ins(&mut self, k: &[u8], v: u64) -> Option<u64>;
    fn get(&self, k: &[u8]) -> Option<u64>;
    fn get_ref(&self, k: &[u8]) -> Option<u64>;
    fn len(&self) -> usize;
}
impl Map for MassTree24<u64> {
    fn make() -> Self { MassTree24::new() }
    fn ins(&mut self, k: &[u8], v: u64) -> Option<u64> { self.insert(k, v).unwrap_or_else(|e| found(&format!("insert({}) fails: {e:?}", hex(k)))).map(|a| *a) }
    fn get(&self, k: &[u8]) -> Option<u64> { MassTree24::get(self, k).map(|a| *a) }
    fn get_ref(&self, k: &[u8]) -> Option<u64> { let g = self.guard(); MassTree24::get_ref(self, k, &g).copied() }
    fn len(&self) -> usize { MassTree24::len(self) }
}
impl Map for MassTree24Inline<u64> {
    fn make() -> Self { MassTree24Inline::new() }
    fn ins(&mut self, k: &[u8], v: u64) -> Option<u64> { self.insert(k, v).unwrap_or_else(|e| found(&format!("insert({}) fails: {e:?}", hex(k)))) }
    fn get(&self, k: &[u8]) -> Option<u64> { MassTree24Inline::get(self, k) }
    fn get_ref(&self, k: &[u8]) -> Option<u64> { let g = self.guard(); MassTree24Inline::get_with_guard(self, k, &g) }
    fn len(&self) -> usize { MassTree24Inline::len(self) }
}
impl Map for MassTreeIndex<u64> {
    fn make() -> Self { MassTreeIndex::new() }
    fn ins(&mut self, k: &[u8], v: u64) -> Option<u64> { self.insert(k, v).unwrap_or_else(|e| found(&format!("insert({}) fails: {e:?}", hex(k)))) }
    fn get(&self, k: &[u8]) -> Option<u64> { MassTreeIndex::get(self, k) }
    fn get_ref(&self, k: &[u8]) -> Option<u64> { MassTreeIndex::get(self, k) }
    fn len(&self) -> usize { MassTreeIndex::len(self) }
}

// ---------------------------------------------------------------- keys
struct Gen { shape: u64, pre: Vec<u8>, n: u64, step: u64, chunks: Vec<[u8; 8]> }
impl Gen {
    fn new(r: &mut Rng) -> Self {
        let plen = match r.below(4) { 0 => 0, 1 => r.us(20), 2 => r.us(30) * 8, _ => r.us(240) };
        let b = r.next() as u8;
        let pre = (0..plen).map(|_| if r.chance(1, 2) { b } else { r.pick(&[0u8, 1, 255]) }).collect();
        let nc = 2 + r.us(3);
        let chunks = (0..nc).map(|_| { let mut c = [0u8; 8]; for x in &mut c { *x = r.pick(&[0, 0, 1, 255]); } c }).collect();
        Gen { shape: r.below(9), pre, n: r.below(1 << 20), step: r.pick(&[1, 1, 3, 255, 257, 65537]), chunks }
    }
    fn key(&mut self, r: &mut Rng) -> Vec<u8> {
        let mut k;
        match self.shape {
            // chunk strings over a small set, tails over a small alphabet
            0 | 1 => {
                k = vec![];
                let n = if self.shape == 0 { r.us(4) } else { r.us(31) };
                for _ in 0..n { let i = r.us(self.chunks.len()); k.extend(self.chunks[i]); }
                for _ in 0..r.us(9) { k.push(r.pick(&[0u8, 1, 255])); }
            }
            // counters: rising, falling, random, behind a common prefix
            2 | 3 | 4 => {
                self.n = match self.shape { 2 => self.n.wrapping_add(self.step), 3 => self.n.wrapping_sub(self.step), _ => r.below(1 << 13) };
                k = self.pre.clone();
                let w = r.pick(&[8usize, 8, 8, 4, 12]);
                let mut b = vec![0u8; w];
                for i in 0..w.min(8) { b[w - 1 - i] = (self.n >> (8 * i)) as u8; }
                k.extend(b);
                if r.chance(1, 4) { for _ in 0..r.us(12) { k.push(r.pick(&[0u8, 7])); } }
            }
            // the same first chunk at many lengths, trailing zeros
            5 => {
                k = self.pre.clone();
                for _ in 0..r.us(7) { k.push(r.pick(&[0u8, 1, 2])); }
                for _ in 0..r.us(12) { k.push(0); }
            }
            // long common prefix, then one differing byte anywhere, then a tail
            6 => {
                k = self.pre.clone();
                if !k.is_empty() && r.chance(1, 2) { let i = r.us(k.len()); k[i] = k[i].wrapping_add(1 + r.us(2) as u8); }
                for _ in 0..r.us(20) { k.push(r.pick(&[0u8, 9, 255])); }
            }
            // prefixes of one another
            7 => { k = vec![r.pick(&[0u8, 255, 3]); r.us(257)]; if r.chance(1, 3) && !k.is_empty() { let i = r.us(k.len()); k[i] ^= 1; } }
            _ => { k = (0..r.us(257)).map(|_| r.next() as u8).collect(); }
        }
        k.truncate(256);
        k
    }
}
fn near(k: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut k = k.to_vec();
    match r.below(6) {
        0 => k.push(0),
        1 => { k.pop(); }
        2 => if !k.is_empty() { let i = r.us(k.len()); k[i] ^= 1 << r.us(8); },
        3 => { let n = k.len(); if n > 0 { let i = r.us(n); k[i] = k[i].wrapping_add(1); } }
        4 => { let n = r.us(k.len() + 1); k.truncate(n); }
        _ => for _ in 0..1 + r.us(9) { k.push(r.pick(&[0u8, 1, 255])); },
    }
    k.truncate(256);
    k
}
fn history(h: &[(Vec<u8>, u64)]) -> String {
    let t: Vec<String> = h.iter().map(|(k, v)| format!("insert({},{v})", if k.is_empty() { "''".into() } else { hex(k) })).collect();
    if t.len() <= 60 { t.join(" ") } else { format!("{} inserts, the last: {}", t.len(), t[t.len() - 20..].join(" ")) }
}
fn differ<M: Map>(r: &mut Rng, what: &str) {
    let mut t = M::make();
    let mut m: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let mut h: Vec<(Vec<u8>, u64)> = vec![];
    let mut keys: Vec<Vec<u8>> = vec![];
    let n = match r.below(4) { 0 => 6, 1 => 60, 2 => 400, _ => 2500 };
    let mut g = Gen::new(r);
    let probe = |t: &M, m: &BTreeMap<Vec<u8>, u64>, h: &[(Vec<u8>, u64)], k: &[u8]| {
        let (a, b, w) = (t.get(k), t.get_ref(k), m.get(k).copied());
        ensure!(a == w && b == w, "{what}: after {}: get({}) = {a:?}, by reference {b:?}, instead of {w:?}", history(h), hex(k));
    };
    for i in 0..n {
        if r.chance(1, 200) { g = Gen::new(r); }
        let k = match r.below(10) {
            0 if !keys.is_empty() => keys[r.us(keys.len())].clone(),
            1 if !keys.is_empty() => { let j = r.us(keys.len()); near(&keys[j].clone(), r) }
            _ => g.key(r),
        };
        let v = (i as u64) << 8 | r.below(256);
        let old = t.ins(&k, v);
        h.push((k.clone(), v));
        let want = m.insert(k.clone(), v);
        ensure!(old == want, "{what}: {} returned {old:?} instead of {want:?}", history(&h));
        ensure!(t.len() == m.len(), "{what}: after {}: len {} instead of {}", history(&h), t.len(), m.len());
        if want.is_none() { keys.push(k.clone()); }
        probe(&t, &m, &h, &k);
        let j = r.us(keys.len());
        probe(&t, &m, &h, &keys[j]);
        let x = near(&keys[j], r);
        probe(&t, &m, &h, &x);
        if i % 32 == 0 { tick(); }
    }
    for k in &keys {
        probe(&t, &m, &h, k);
        let x = near(k, r);
        probe(&t, &m, &h, &x);
    }
}

// ---------------------------------------------------------------- ownership of values
const ND: usize = 4096;
static DROPS: [AtomicUsize; ND] = [const { AtomicUsize::new(0) }; ND];
struct D(usize, u64);
const LIVE: u64 = 0x600d_600d_600d_600d;
impl Drop for D {
    fn drop(&mut self) {
        ensure!(self.1 == LIVE, "a value is released twice (id {})", self.0);
        self.1 = 0xdead;
        DROPS[self.0].fetch_add(1, SeqCst);
    }
}
fn owned(r: &mut Rng) {
    for d in &DROPS { d.store(0, SeqCst); }
    let mut used = 0;
    let mut held: Vec<Arc<D>> = vec![];
    {
        let t: MassTree24<D> = MassTree24::new();
        let mut m: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        let mut g = Gen::new(r);
        let n = r.pick(&[40usize, 300, 1500]);
        for _ in 0..n {
            let k = if !m.is_empty() && r.chance(1, 3) { let i = r.us(m.len()); m.keys().nth(i).unwrap().clone() } else { g.key(r) };
            let id = used;
            used += 1;
            let gd = t.guard();
            let before = t.get_ref(&k, &gd);
            let (bid, ok) = (before.map(|d| d.0), before.map(|d| d.1));
            ensure!(ok.is_none() || ok == Some(LIVE), "get_ref returns a released value");
            let old = t.insert(&k, D(id, LIVE)).unwrap_or_else(|e| found(&format!("insert fails: {e:?}")));
            let want = m.insert(k.clone(), id);
            ensure!(old.as_ref().map(|d| d.0) == want && bid == want, "insert({}) returns the wrong old value", hex(&k));
            if let Some(o) = old {
                ensure!(o.1 == LIVE && DROPS[o.0].load(SeqCst) == 0, "insert({}) returns a released value", hex(&k));
                if r.chance(1, 4) { held.push(o); } else { drop(o); }
            }
            if let Some(d) = before {
                ensure!(DROPS[d.0].load(SeqCst) == 0 && d.1 == LIVE, "a replaced value is released while a reader still holds a guard ({})", hex(&k));
            }
            drop(gd);
            let i = r.us(m.len());
            let (k, &id) = m.iter().nth(i).unwrap();
            let a = t.get(k);
            ensure!(a.as_ref().map(|a| (a.0, a.1)) == Some((id, LIVE)), "get({}) returns a wrong or released value", hex(k));
            if r.chance(1, 30) { held.push(a.unwrap()); }
        }
        for (k, &id) in &m {
            ensure!(DROPS[id].load(SeqCst) == 0, "a stored value is released while in the tree ({})", hex(k));
            let a = t.get(k);
            let c = a.as_ref().map(|a| Arc::strong_count(a) - held.iter().filter(|h| h.0 == id).count());
            ensure!(c >= Some(2), "the tree holds the value of {} {:?} times (plus this handle)", hex(k), c);
        }
        for h in &held { ensure!(h.1 == LIVE && DROPS[h.0].load(SeqCst) == 0, "a value held by a caller is released"); }
    }
    for h in &held {
        ensure!(h.1 == LIVE && DROPS[h.0].load(SeqCst) == 0, "a value held by a caller is released with the tree");
    }
    held.sort_by_key(|h| h.0);
    held.dedup_by_key(|h| h.0);
    for h in &held { ensure!(Arc::strong_count(h) == 1, "the tree's hold on a replaced value is never released"); }
    drop(held);
    for i in 0..used { ensure!(DROPS[i].load(SeqCst) == 1, "value {i} released {} times after the tree is gone", DROPS[i].load(SeqCst)); }
}

// ---------------------------------------------------------------- memory balance
fn balance(r: &mut Rng, case: u64) {
    let keys: Vec<Vec<u8>> = {
        let mut g = Gen::new(r);
        let n = r.pick(&[1usize, 30, 400, 4000]);
        (0..n).map(|i| { if i % 300 == 299 { g = Gen::new(r); } g.key(r) }).collect()
    };
    let kind = r.below(2);
    let run = |m: u64| if kind == 0 {
        let t: MassTree24<u64> = MassTree24::new();
        for (i, k) in keys.iter().enumerate() { let _ = t.insert(k, i as u64 + m); }
        for k in &keys { ensure!(t.get(k).is_some(), "key {} lost", hex(k)); }
    } else {
        let t: MassTree24Inline<u64> = MassTree24Inline::new();
        for (i, k) in keys.iter().enumerate() { let _ = t.insert(k, i as u64 + m); }
        for k in &keys { ensure!(t.get(k).is_some(), "key {} lost", hex(k)); }
    };
    run(0); // thread-local set-up of the reclamation library happens here
    COUNTING.store(true, SeqCst);
    let (a, b) = (BYTES.load(SeqCst), BLOCKS.load(SeqCst));
    run(1);
    let (c, d) = (BYTES.load(SeqCst), BLOCKS.load(SeqCst));
    COUNTING.store(false, SeqCst);
    ensure!((a, b) == (c, d), "case {case}: {} inserts: {} blocks, {} bytes are not released with the tree", keys.len(), d - b, c - a);
}

// ---------------------------------------------------------------- threads
fn race(r: &mut Rng, case: u64) {
    // every key has one writer; value = number of that writer's inserts of the key
    let nw = 2 + r.us(3);
    let n = r.pick(&[30usize, 200, 1200]);
    let mut seen = BTreeMap::new();
    let mut g = Gen::new(r);
    let mut tries = 0;
    while seen.len() < n && tries < 20 * n { seen.insert(g.key(r), ()); tries += 1; if tries % 400 == 399 { g = Gen::new(r); } }
    let mut keys: Vec<Vec<u8>> = seen.into_keys().collect();
    if r.chance(1, 2) { for i in (1..keys.len()).rev() { keys.swap(i, r.us(i + 1)); } }
    let n = keys.len();
    let started: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let t: MassTree24<u64> = MassTree24::new();
    let stop = AtomicBool::new(false);
    let bar = Barrier::new(nw + 2);
    let (seed, rounds) = (r.next(), 1 + r.us(3) as u64);
    let end = Instant::now() + Duration::from_millis(1500);
    std::thread::scope(|s| {
        let mut ws = vec![];
        for w in 0..nw {
            let (t, keys, started, done, bar) = (&t, &keys, &started, &done, &bar);
            ws.push(s.spawn(move || {
                bar.wait();
                for v in 1..=rounds {
                    for i in (w..n).step_by(nw) {
                        started[i].store(v, SeqCst);
                        let old = t.insert(&keys[i], v).unwrap_or_else(|e| found(&format!("insert fails: {e:?}"))).map(|a| *a);
                        ensure!(old == if v == 1 { None } else { Some(v - 1) }, "case {case}: insert({}) returned {old:?}, the last stored value is {}", hex(&keys[i]), v - 1);
                        done[i].store(v, SeqCst);
                        tick();
                    }
                    if Instant::now() > end { break; }
                }
            }));
        }
        for q in 0..2u64 {
            let (t, keys, started, done, bar, stop) = (&t, &keys, &started, &done, &bar, &stop);
            s.spawn(move || {
                let mut r = Rng::new(seed, q);
                bar.wait();
                while !stop.load(Relaxed) {
                    let i = r.us(n);
                    let lo = done[i].load(SeqCst);
                    let v = if r.chance(1, 2) { t.get(&keys[i]).map(|a| *a) } else { let g = t.guard(); t.get_ref(&keys[i], &g).copied() }.unwrap_or(0);
                    let hi = started[i].load(SeqCst);
                    ensure!(lo <= v && v <= hi, "case {case}: get({}) read {v}; {lo} was stored before the lookup began and {hi} was the latest when it ended (0: absent)", hex(&keys[i]));
                }
            });
        }
        for w in ws { w.join().unwrap(); }
        stop.store(true, SeqCst);
    });
    ensure!(t.len() == n, "case {case}: len {} after all threads inserted {n} keys", t.len());
    for i in 0..n {
        let v = t.get(&keys[i]).map(|a| *a).unwrap_or(0);
        ensure!(v == done[i].load(SeqCst), "case {case}: after all threads finished, get({}) = {v} instead of {}", hex(&keys[i]), done[i].load(SeqCst));
    }
}
fn main() {
    drive(&["M01", "M02", "M03", "M04", "M09", "M11", "M12"], |part, n, r| match part {
        "M09" => race(r, n),
        "M11" => owned(r),
        "M12" => balance(r, n),
        _ => match n % 7 {
            0 | 3 => differ::<MassTree24<u64>>(r, "MassTree24"),
            1 | 4 => differ::<MassTree24Inline<u64>>(r, "MassTree24Inline"),
            2 => differ::<MassTreeIndex<u64>>(r, "MassTreeIndex"),
            5 => race(r, n),
            _ => owned(r),
        },
    });
}
