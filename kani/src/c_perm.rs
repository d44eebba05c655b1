//! Contracts of `Permuter24` on the real code: complete over every valid permutation.
use masstree::leaf_trait::TreePermutation;
use masstree::permuter24::Permuter24;

const N: usize = 24;
pub fn slot(v: u128, i: usize) -> usize {
    ((v >> (5 * (i + 1))) & 31) as usize
}
/// representation invariant: size <= 24 and the 24 positions name 24 different slots
pub fn valid(v: u128) -> bool {
    if (v & 31) > N as u128 {
        return false;
    }
    let mut seen: u32 = 0;
    let mut i = 0;
    while i < N {
        let s = slot(v, i);
        if s >= N {
            return false;
        }
        seen |= 1 << s;
        i += 1;
    }
    seen == (1 << N) - 1
}
pub fn any_valid() -> Permuter24 {
    let v: u128 = kani::any();
    kani::assume(valid(v));
    Permuter24::from_value(v)
}
fn any_pos() -> usize {
    let j: usize = kani::any();
    kani::assume(j < N);
    j
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_make() {
    let n: usize = kani::any();
    kani::assume(n <= N);
    let p = Permuter24::make_sorted(n);
    let j = any_pos();
    assert!(valid(p.value()) && p.size() == n, "make_sorted is a permutation of n live slots");
    assert!(j >= n || p.get(j) == j, "make_sorted lists slots in order");
    let e = <Permuter24 as TreePermutation>::empty();
    assert!(valid(e.value()) && e.size() == 0);
    assert!(e.value() == Permuter24::empty().value() && <Permuter24 as TreePermutation>::make_sorted(n).value() == p.value());
    assert!(p.get(j) == slot(p.value(), j));
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_insert() {
    let p = any_valid();
    let n = p.size();
    let i: usize = kani::any();
    kani::assume(n < N && i <= n);
    let mut q = p;
    let s = <Permuter24 as TreePermutation>::insert_from_back(&mut q, i);
    let (r, s2) = <Permuter24 as TreePermutation>::insert_from_back_immutable(&p, i);
    assert!(valid(q.value()) && q.size() == n + 1, "inserting keeps a permutation and adds one live slot");
    assert!(s == p.back() && q.get(i) == s, "the allocated free slot lands at the requested position");
    let j = any_pos();
    assert!(j >= i || q.get(j) == p.get(j), "positions before the insertion keep their slot");
    assert!(j < i || j + 1 >= N || q.get(j + 1) == p.get(j), "positions after the insertion move up by one");
    assert!(s2 == s && r.size() == q.size() && r.get(j) == q.get(j), "the copying variant agrees");
    kani::cover!(n == 23 && i == 0);
}
/// any word with in-range size: the pointwise contracts below pin every position, so a
/// permutation stays one
fn any_word() -> Permuter24 {
    let v: u128 = kani::any();
    kani::assume(v & 31 <= N as u128 && v >> 125 == 0);
    Permuter24::from_value(v)
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_remove() {
    let p = any_word();
    let n = p.size();
    let i: usize = kani::any();
    kani::assume(n > 0 && i < n);
    let j = any_pos();
    let mut q = p;
    q.remove(i);
    assert!(q.size() == n - 1, "removing drops one live slot");
    let exp = if j < i || j >= n { p.get(j) } else if j == n - 1 { p.get(i) } else { p.get(j + 1) };
    assert!(q.get(j) == exp, "the removed slot becomes free, the order of the others stays");
    let mut b = p;
    b.remove_to_back(i);
    let exp = if j < i { p.get(j) } else if j == N - 1 { p.get(i) } else { p.get(j + 1) };
    assert!(b.size() == n - 1 && b.get(j) == exp, "remove_to_back rotates the tail");
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_swap() {
    let p = any_word();
    let n = p.size();
    let (a, b, j) = (any_pos(), any_pos(), any_pos());
    let exp = if j == a { p.get(b) } else if j == b { p.get(a) } else { p.get(j) };
    if a >= n && b >= n {
        let mut f = p;
        <Permuter24 as TreePermutation>::swap_free_slots(&mut f, a, b);
        assert!(f.size() == n && f.get(j) == exp, "swap_free_slots swaps two free positions and nothing else");
    }
    let mut q = p;
    q.exchange(a, b);
    assert!(q.size() == n && q.get(j) == exp, "exchange swaps exactly two positions");
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_access() {
    let p = any_word();
    let n = p.size();
    let (m, j): (usize, usize) = (kani::any(), any_pos());
    kani::assume(m <= N);
    let mut t = p;
    <Permuter24 as TreePermutation>::set_size(&mut t, m);
    assert!(t.size() == m && t.get(j) == p.get(j), "set_size changes only the size");
    assert!(p.get(j) == slot(p.value(), j) && <Permuter24 as TreePermutation>::get(&p, j) == p.get(j));
    let off: usize = kani::any();
    if off < N && n + off < N {
        assert!(<Permuter24 as TreePermutation>::back_at_offset(&p, off) == p.get(N - 1 - off) && p.back() == p.get(N - 1));
    }
    let sl: usize = kani::any();
    kani::assume(sl < N);
    let k = any_pos();
    let mut s = p;
    s.set(j, sl);
    assert!(s.size() == n && s.get(k) == if k == j { sl } else { p.get(k) }, "set changes one position");
}
#[kani::proof]
#[kani::unwind(26)]
fn perm_rotate() {
    let p = any_word();
    let (i, j): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= j && j <= N);
    let mut q = p;
    q.rotate(i, j);
    let k = any_pos();
    assert!(q.size() == p.size());
    let exp = if k < i { p.get(k) } else { let t = k + (j - i); p.get(if t >= N { t - (N - i) } else { t }) };
    assert!(q.get(k) == exp, "rotate moves the tail block forward");
}
/// frozen words are told apart from every valid word and only the size field is replaced
#[kani::proof]
#[kani::unwind(26)]
fn perm_freeze() {
    let p = any_valid();
    let v = p.value();
    assert!(!<Permuter24 as TreePermutation>::is_frozen_raw(v), "a published permutation is never mistaken for a frozen one");
    let f = <Permuter24 as TreePermutation>::freeze_raw(v);
    assert!(<Permuter24 as TreePermutation>::is_frozen_raw(f) && f != v);
    assert!((f ^ v) & ((1u128 << 120) - 1) == 0, "freezing keeps the size and every position but the last");
    assert!(masstree::freeze24::Freeze24Utils::is_frozen(f));
}
