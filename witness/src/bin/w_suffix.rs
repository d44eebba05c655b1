use masstree::suffix::SuffixBag;
use masstree::{LeafNode24, LeafValue};
use witness::*;
type L = LeafNode24<LeafValue<u64>>;
const W: usize = 24;
fn bytes(r: &mut Rng, big: bool) -> Vec<u8> {
    let n = if big { 200 + r.us(49) } else { match r.below(3) { 0 => r.us(6), 1 => r.us(30), _ => r.us(249) } };
    let (a, b) = (r.next() as u8, r.next() as u8 | 1);
    (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(b))).collect()
}
fn check(b: &SuffixBag<W>, m: &[Option<Vec<u8>>], op: &str) {
    for s in 0..W {
        ensure!(b.get(s) == m[s].as_deref(), "{op}: slot {s} (bag: {} bytes used) reads {:?} instead of {:?}", b.used(), b.get(s).map(hex), m[s].as_deref().map(hex));
        ensure!(b.has_suffix(s) == m[s].is_some() && b.get_or_empty(s) == m[s].as_deref().unwrap_or(&[]), "{op}: slot {s}");
    }
    ensure!(b.count() == m.iter().filter(|x| x.is_some()).count(), "{op}: count");
}
fn main() {
    drive(&["M10", "M03"], |_, n, r| match n % 3 {
        0 => for _ in 0..20 {
            let mut b = if r.chance(1, 2) { SuffixBag::<W>::new() } else { SuffixBag::with_capacity(r.us(400)) };
            let mut m: Vec<Option<Vec<u8>>> = vec![None; W];
            for _ in 0..150 {
                let s = r.us(W);
                match r.below(10) {
                    0..=4 => { let x = bytes(r, false); b.assign(s, &x); m[s] = Some(x); check(&b, &m, "assign"); }
                    5 | 6 => { let x = bytes(r, false); if b.try_assign_in_place(s, &x) { m[s] = Some(x); } check(&b, &m, "try_assign_in_place"); }
                    7 => { b.clear(s); m[s] = None; check(&b, &m, "clear"); }
                    8 => { b = b.clone(); check(&b, &m, "clone"); }
                    _ => {
                        let keep: Vec<usize> = (0..W).filter(|_| r.chance(9, 10)).collect();
                        for i in 0..W { if !keep.contains(&i) { m[i] = None; } }
                        b.compact(keep.into_iter());
                        check(&b, &m, "compact");
                    }
                }
                let x = if r.chance(1, 2) { m[s].clone().unwrap_or_default() } else { bytes(r, false) };
                ensure!(b.suffix_equals(s, &x) == (m[s].as_deref() == Some(&x[..])), "suffix_equals");
                ensure!(b.suffix_compare(s, &x) == m[s].as_deref().map(|y| y.cmp(&x[..])), "suffix_compare");
            }
        },
        1 => {
            // one bag grown far beyond 64 KiB by replacing suffixes with longer or fresh ones
            let mut b = SuffixBag::<W>::new();
            let mut m: Vec<Option<Vec<u8>>> = vec![None; W];
            for i in 0..700 {
                let s = r.us(W);
                if r.chance(1, 3) { b.clear(s); m[s] = None; }
                let x = bytes(r, true);
                b.assign(s, &x);
                m[s] = Some(x);
                if i % 16 == 0 || i > 250 { check(&b, &m, "assign (large bag)"); }
                if i % 200 == 199 { let c = b.clone(); check(&c, &m, "clone (large bag)"); }
            }
            b.compact(0..W);
            check(&b, &m, "compact (large bag)");
        }
        _ => {
            let col = seize::Collector::new();
            let l: Box<L> = L::new();
            let mut m: Vec<Option<Vec<u8>>> = vec![None; W];
            let rounds = if r.chance(1, 3) { 800 } else { 150 };
            for _ in 0..rounds {
                let g = col.enter();
                let s = r.us(W);
                // a concurrent reader's view: bytes read under the guard stay as they are
                let held: Vec<(usize, Option<&[u8]>, Option<Vec<u8>>)> = (0..W).filter(|&i| i != s).map(|i| (i, l.ksuf(i), m[i].clone())).collect();
                if r.chance(1, 6) { unsafe { l.clear_ksuf(s, &g) }; m[s] = None; }
                else { let x = bytes(r, rounds == 800); unsafe { l.assign_ksuf(s, &x, &g) }; m[s] = Some(x); }
                for i in 0..W {
                    ensure!(l.ksuf(i) == m[i].as_deref(), "leaf, slot {i} after a change of slot {s}: {:?} instead of {:?}", l.ksuf(i).map(hex), m[i].as_deref().map(hex));
                }
                for (i, x, y) in held { ensure!(x == y.as_deref(), "leaf: bytes of slot {i} read earlier under the same guard changed"); }
                let x = if r.chance(1, 2) { m[s].clone().unwrap_or_default() } else { bytes(r, false) };
                ensure!(l.ksuf_equals(s, &x) == (m[s].as_deref() == Some(&x[..])), "ksuf_equals");
                ensure!(l.ksuf_compare(s, &x) == m[s].as_deref().map(|y| y.cmp(&x[..])), "ksuf_compare");
            }
        }
    });
}
