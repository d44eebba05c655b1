//! Contracts of the narrow permuter `Permuter<WIDTH>` (one 64-bit word) on the real code,
//! at its default width 15 and at a smaller width.
use masstree::leaf_trait::TreePermutation;
use masstree::permuter::Permuter;

/// any word with in-range size; every contract is pointwise, so a permutation stays one
fn any_word<const W: usize>() -> Permuter<W> {
    let v: u64 = kani::any();
    kani::assume(v & 15 <= W as u64);
    if W < 15 { kani::assume(v >> (4 * (W + 1)) == 0); }
    Permuter::from_value(v)
}
fn pos<const W: usize>() -> usize {
    let j: usize = kani::any();
    kani::assume(j < W);
    j
}
fn slot(v: u64, i: usize) -> usize { ((v >> (4 * (i + 1))) & 15) as usize }

fn make<const W: usize>() {
    let n: usize = kani::any();
    kani::assume(n <= W);
    let (p, j) = (Permuter::<W>::make_sorted(n), pos::<W>());
    assert!(p.size() == n && (j >= n || p.get(j) == j), "make_sorted lists the slots in order");
    let k = pos::<W>();
    assert!(p.get(j) < W && (j == k || p.get(j) != p.get(k)), "every slot appears once");
    let e = Permuter::<W>::empty();
    assert!(e.size() == 0 && e.get(j) < W && (j == k || e.get(j) != e.get(k)), "the empty permuter is a permutation");
    assert!(<Permuter<W> as TreePermutation>::empty().value() == e.value() && <Permuter<W> as TreePermutation>::make_sorted(n).value() == p.value());
}
fn insert<const W: usize>() {
    let (p, j) = (any_word::<W>(), pos::<W>());
    let n = p.size();
    let i: usize = kani::any();
    kani::assume(n < W && i <= n);
    let mut q = p;
    let s = <Permuter<W> as TreePermutation>::insert_from_back(&mut q, i);
    assert!(s == p.get(W - 1) && s == p.back() && q.size() == n + 1, "the last free slot is taken");
    let exp = if j < i { p.get(j) } else if j == i { s } else { p.get(j - 1) };
    assert!(q.get(j) == exp, "the slot lands at the position, the order of the others stays");
    let (r, t) = <Permuter<W> as TreePermutation>::insert_from_back_immutable(&p, i);
    assert!(t == s && r.size() == q.size() && r.get(j) == q.get(j), "the copying variant agrees");
}
fn remove<const W: usize>() {
    let (p, j) = (any_word::<W>(), pos::<W>());
    let n = p.size();
    let i: usize = kani::any();
    kani::assume(i < n);
    let mut q = p;
    q.remove(i);
    let exp = if j < i || j >= n { p.get(j) } else if j == n - 1 { p.get(i) } else { p.get(j + 1) };
    assert!(q.size() == n - 1 && q.get(j) == exp, "the removed slot becomes free, the order of the others stays");
    let mut b = p;
    b.remove_to_back(i);
    let exp = if j < i { p.get(j) } else if j == W - 1 { p.get(i) } else { p.get(j + 1) };
    assert!(b.size() == n - 1 && b.get(j) == exp, "remove_to_back rotates the tail");
}
fn swap<const W: usize>() {
    let p = any_word::<W>();
    let n = p.size();
    let (a, b, j) = (pos::<W>(), pos::<W>(), pos::<W>());
    let exp = if j == a { p.get(b) } else if j == b { p.get(a) } else { p.get(j) };
    if a >= n && b >= n {
        let mut f = p;
        <Permuter<W> as TreePermutation>::swap_free_slots(&mut f, a, b);
        assert!(f.size() == n && f.get(j) == exp, "swap_free_slots swaps two free positions and nothing else");
    }
    let mut q = p;
    q.exchange(a, b);
    assert!(q.size() == n && q.get(j) == exp, "exchange swaps exactly two positions");
    let (i, e): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= e && e <= W);
    let mut r = p;
    r.rotate(i, e);
    let exp = if j < i { p.get(j) } else { let t = j + (e - i); p.get(if t >= W { t - (W - i) } else { t }) };
    assert!(r.size() == n && r.get(j) == exp, "rotate moves the tail block forward");
}
fn access<const W: usize>() {
    let (p, j, k) = (any_word::<W>(), pos::<W>(), pos::<W>());
    let n = p.size();
    assert!(n == (p.value() & 15) as usize && p.get(j) == slot(p.value(), j));
    assert!(<Permuter<W> as TreePermutation>::size(&p) == n && <Permuter<W> as TreePermutation>::get(&p, j) == p.get(j));
    let m: usize = kani::any();
    kani::assume(m <= W);
    let mut t = p;
    <Permuter<W> as TreePermutation>::set_size(&mut t, m);
    assert!(t.size() == m && t.get(j) == p.get(j), "set_size changes only the size");
    let off: usize = kani::any();
    if off < W && n + off < W {
        assert!(<Permuter<W> as TreePermutation>::back_at_offset(&p, off) == p.get(W - 1 - off));
    }
    let sl = pos::<W>();
    let mut s = p;
    s.set(j, sl);
    assert!(s.size() == n && s.get(k) == if k == j { sl } else { p.get(k) }, "set changes one position");
}
#[kani::proof]
#[kani::unwind(17)]
fn p15_make() { make::<15>(); make::<7>(); }
#[kani::proof]
#[kani::unwind(17)]
fn p15_insert() { insert::<15>(); insert::<7>(); }
#[kani::proof]
#[kani::unwind(17)]
fn p15_remove() { remove::<15>(); remove::<7>(); }
#[kani::proof]
#[kani::unwind(17)]
fn p15_swap() { swap::<15>(); swap::<7>(); }
#[kani::proof]
#[kani::unwind(17)]
fn p15_access() { access::<15>(); access::<7>(); }
#[kani::proof]
#[kani::unwind(17)]
fn p15_freeze() {
    let p = any_word::<15>();
    let (j, v) = (pos::<15>(), p.value());
    kani::assume(p.get(0) < 15 && p.get(1) < 15 && p.get(2) < 15 && p.get(3) < 15 && p.get(4) < 15 && p.get(5) < 15 && p.get(6) < 15 && p.get(7) < 15);
    kani::assume(p.get(8) < 15 && p.get(9) < 15 && p.get(10) < 15 && p.get(11) < 15 && p.get(12) < 15 && p.get(13) < 15 && p.get(14) < 15);
    type T = Permuter<15>;
    assert!(!<T as TreePermutation>::is_frozen_raw(v), "a published permutation is never mistaken for a frozen one");
    let f = <T as TreePermutation>::freeze_raw(v);
    assert!(<T as TreePermutation>::is_frozen_raw(f) && f & 15 == v & 15, "freezing is recognised and keeps the size");
    let _ = j;
    // at most one position is used for the mark
    let d = f ^ v;
    let k = pos::<15>();
    let l = pos::<15>();
    assert!(k == l || slot(d, k) == 0 || slot(d, l) == 0, "freezing touches one position only");
}
