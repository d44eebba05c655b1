//! Contracts of `masstree::key::Key` on the real code, for every key of legal length.
use crate::ghost::pack;
use core::cmp::Ordering;
use masstree::key::{IKEY_SIZE, Key, MAX_KEY_LENGTH};

const M: usize = 256;
fn any_len(max: usize) -> usize {
    let l: usize = kani::any();
    kani::assume(l <= max);
    l
}
/// chunk at `offset` = the next eight bytes, big endian, zero padded
#[kani::proof]
#[kani::unwind(9)]
fn key_read_ikey() {
    let b: [u8; M] = kani::any();
    let d = &b[..any_len(M)];
    let off: usize = kani::any();
    kani::assume(off <= M + 8);
    let r = Key::read_ikey(d, off);
    assert!(r == pack(d, off), "a chunk is the next eight bytes, big-endian and zero-padded");
    kani::cover!(off + 3 == d.len() && r != 0);
}
/// the view of a key positioned at layer `s`
fn at_layer(k: &Key<'_>, d: &[u8], s: usize) {
    let lo = 8 * s;
    assert!(k.ikey() == pack(d, lo), "the chunk of layer s starts at byte 8s");
    assert!(k.shift_count() == s && k.is_shifted() == (s > 0));
    assert!(k.len() == d.len() && k.full_data().as_ptr() == d.as_ptr() && k.full_data().len() == d.len(), "the full key is kept");
    let rest = d.len() - if lo < d.len() { lo } else { d.len() };
    assert!(k.current_len() == rest, "remaining length");
    assert!(k.has_suffix() == (rest > 8), "a suffix exists exactly when more than eight bytes remain");
    let sl = if rest > 8 { rest - 8 } else { 0 };
    assert!(k.suffix_len() == sl && k.suffix().len() == sl, "suffix length");
    if sl > 0 {
        assert!(k.suffix().as_ptr() == unsafe { d.as_ptr().add(lo + 8) }, "the suffix is the rest of the key");
    }
}
/// every layer of every key: new/shift/shift_by/unshift/unshift_all
fn layers(from: usize, to: usize) {
    let b: [u8; M] = kani::any();
    let d = &b[..any_len(M)];
    let mut k = Key::new(d);
    at_layer(&k, d, 0);
    let mut s = 0;
    while s < to && k.has_suffix() {
        k.shift();
        s += 1;
        if s > from {
            at_layer(&k, d, s);
            let mut u = k;
            u.unshift();
            at_layer(&u, d, s - 1);
            u.shift_by(8);
            at_layer(&u, d, s);
            u.unshift_all();
            at_layer(&u, d, 0);
        }
    }
    kani::cover!(s == to);
}
#[kani::proof]
#[kani::unwind(36)]
#[kani::stub(masstree::key::Key::read_ikey, Spec::read_ikey)]
fn key_layers_low() {
    layers(0, 4);
}
#[kani::proof]
#[kani::unwind(36)]
#[kani::stub(masstree::key::Key::read_ikey, Spec::read_ikey)]
fn key_layers_high() {
    layers(28, 31);
}
pub struct Spec<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> Spec<'a> {
    pub fn read_ikey(data: &[u8], offset: usize) -> u64 {
        pack(data, offset)
    }
}
/// keys longer than the limit are rejected, all others accepted
#[kani::proof]
#[kani::unwind(9)]
fn key_limit() {
    assert!(MAX_KEY_LENGTH == M && IKEY_SIZE == 8);
    let b: [u8; M] = kani::any();
    let d = &b[..any_len(M)];
    let k = Key::new(d);
    let s = Key::from_suffix(d);
    assert!(k.is_empty() == d.is_empty() && s.is_empty() == d.is_empty());
    at_layer(&k, d, 0);
    at_layer(&s, d, 0);
}
#[kani::proof]
#[kani::unwind(9)]
#[kani::should_panic]
fn key_too_long() {
    let b: [u8; M + 1] = [0; M + 1];
    let _ = Key::new(&b);
}
/// Injectivity and order of one chunk: chunk first, then remaining length.
/// `compare` orders inline keys as their bytes; a longer key follows its prefix.
#[kani::proof]
#[kani::unwind(10)]
fn key_order_inline() {
    let x: [u8; 12] = kani::any();
    let y: [u8; 8] = kani::any();
    let (a, c) = (&x[..any_len(12)], &y[..any_len(8)]);
    let (k, o) = (Key::new(a), Key::new(c));
    let r = k.compare(o.ikey(), c.len());
    // byte-wise lexicographic order of the first eight bytes, then length
    let mut ord = Ordering::Equal;
    let mut i = 0;
    while i < 8 {
        if ord.is_eq() {
            ord = match (i < a.len(), i < c.len()) {
                (true, true) => a[i].cmp(&c[i]),
                (true, false) => Ordering::Greater,
                (false, true) => Ordering::Less,
                (false, false) => Ordering::Equal,
            };
        }
        i += 1;
    }
    if ord.is_eq() && a.len() > 8 && c.len() == 8 {
        ord = Ordering::Greater;
    }
    assert!(r == ord, "chunk and length order keys exactly as their bytes do");
    assert!(Key::compare_ikey(k.ikey(), o.ikey()) == k.ikey().cmp(&o.ikey()));
    kani::cover!(r.is_eq() && a.len() == 5);
    kani::cover!(r.is_gt() && k.ikey() == o.ikey());
}
/// suffixed keys: equal chunk and stored suffix/layer class compare equal in this layer
#[kani::proof]
#[kani::unwind(10)]
fn key_order_suffixed() {
    let x: [u8; 20] = kani::any();
    let a = &x[..any_len(20)];
    let k = Key::new(a);
    let (ik, kx): (u64, u8) = (kani::any(), kani::any());
    kani::assume(kx <= 8 || kx == 64 || kx >= 128);
    let r = k.compare(ik, kx as usize);
    if k.ikey() != ik {
        assert!(r == k.ikey().cmp(&ik));
    } else if a.len() > 8 {
        assert!(r == if kx <= 8 { Ordering::Greater } else { Ordering::Equal }, "a suffixed key follows the inline key of the same chunk");
    } else {
        assert!(r == a.len().cmp(&(kx as usize)));
    }
}
