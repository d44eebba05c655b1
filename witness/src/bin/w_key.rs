use masstree::key::Key;
use witness::*;
fn chunk(d: &[u8], l: usize) -> u64 {
    let mut b = [0u8; 8];
    for i in 0..8 { if l * 8 + i < d.len() { b[i] = d[l * 8 + i]; } }
    u64::from_be_bytes(b)
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) { 0 => r.us(10), 1 => r.us(40), 2 => (r.us(33) * 8).saturating_add(r.us(3)).saturating_sub(1).min(256), _ => r.us(257) };
    let al: &[u8] = if r.chance(1, 2) { &[0, 1, 255] } else { &[0, 1, 2, 65, 127, 128, 254, 255] };
    (0..n).map(|_| r.pick(al)).collect()
}
fn check(d: &[u8], k: &Key, l: usize) {
    let at = l * 8;
    let rest = d.len().saturating_sub(at);
    ensure!(k.ikey() == chunk(d, l), "key {} layer {l}: chunk {:x} instead of {:x}", hex(d), k.ikey(), chunk(d, l));
    ensure!(k.current_len() == rest, "key {} layer {l}: current_len {} instead of {rest}", hex(d), k.current_len());
    ensure!(k.has_suffix() == (rest > 8), "key {} layer {l}: has_suffix", hex(d));
    let s: &[u8] = if rest > 8 { &d[at + 8..] } else { &[] };
    ensure!(k.suffix() == s && k.suffix_len() == s.len(), "key {} layer {l}: suffix {} instead of {}", hex(d), hex(k.suffix()), hex(s));
    ensure!(k.full_data() == d, "key {}: full_data", hex(d));
    ensure!(k.shift_count() == l, "key {} layer {l}: shift_count {}", hex(d), k.shift_count());
}
fn main() {
    drive(&["M05", "M03"], |_, _, r| {
        for _ in 0..2000 {
            let d = bytes(r);
            let mut k = Key::new(&d);
            let mut l = 0;
            check(&d, &k, 0);
            while (l + 1) * 8 < d.len() {
                if r.chance(1, 4) {
                    let n = 1 + r.us((d.len() - 1) / 8 - l);
                    k.shift_by(8 * n);
                    l += n;
                } else { k.shift(); l += 1; }
                check(&d, &k, l);
                if r.chance(1, 6) { k.unshift(); l -= 1; check(&d, &k, l); }
                if r.chance(1, 30) { k.unshift_all(); l = 0; check(&d, &k, l); }
            }
            for o in [0, 1, 7, 8, 9, d.len() / 2, d.len().saturating_sub(8), d.len().saturating_sub(1), d.len()] {
                if o <= d.len() {
                    ensure!(Key::read_ikey(&d, o) == chunk(&d[o..], 0), "read_ikey({}, {o}) = {:x}", hex(&d), Key::read_ikey(&d, o));
                }
            }
            // order: chunk by chunk comparison is the bytewise order
            let mut e = d.clone();
            match r.below(5) { 0 => e.push(0), 1 => { e.pop(); } 2 => if !e.is_empty() { let i = r.us(e.len()); e[i] ^= 1 << r.us(8); }, 3 => e.truncate(r.us(d.len() + 1)), _ => e = bytes(r) }
            if e.len() > 256 { continue; }
            let (mut a, mut b) = (Key::new(&d), Key::new(&e));
            let o = loop {
                let lx = if b.has_suffix() { 9 } else { b.current_len() };
                let c = a.compare(b.ikey(), lx);
                if c != std::cmp::Ordering::Equal { break c; }
                if a.has_suffix() && b.has_suffix() { a.shift(); b.shift(); continue; }
                break a.current_len().cmp(&b.current_len());
            };
            ensure!(o == d.cmp(&e), "order of {} and {}: {o:?} instead of {:?}", hex(&d), hex(&e), d.cmp(&e));
        }
    });
}
