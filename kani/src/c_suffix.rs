//! Contracts of the suffix storage: `SuffixBag<24>` and the suffix API of the real leaf.
//! Contents are arbitrary; lengths are enumerated (every order relation between an old, a
//! new and the remaining room occurs), slots are enumerated.
use masstree::leaf24::LeafNode24;
use masstree::leaf_trait::*;
use masstree::nodeversion::NodeVersion;
use masstree::permuter24::Permuter24;
use masstree::suffix::SuffixBag;
use masstree::value::LeafValueIndex;

type B = SuffixBag<24>;
type SV = LeafValueIndex<u64>;
type L = LeafNode24<SV>;

/// same bytes (loop over concrete lengths)
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut r = true;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
fn is(b: &B, slot: usize, s: &[u8]) -> bool {
    b.has_suffix(slot)
        && match b.get(slot) {
            Some(x) => same(x, s),
            None => false,
        }
}
/// slots: each one's suffix is its own
#[kani::proof]
#[kani::unwind(26)]
fn suffix_slots() {
    let mut b = B::new();
    let mut c = B::with_capacity(0);
    let v: [u8; 24] = kani::any();
    let mut i = 0;
    while i < 24 {
        assert!(!b.has_suffix(i) && b.get(i).is_none(), "a new bag is empty");
        assert!(b.try_assign_in_place(i, &[v[i]]));
        c.assign(i, &[v[i], 7]);
        i += 1;
    }
    i = 0;
    while i < 24 {
        assert!(is(&b, i, &[v[i]]) && is(&c, i, &[v[i], 7]), "every slot keeps its own suffix");
        i += 1;
    }
    assert!(b.count() == 24);
    i = 0;
    while i < 24 {
        b.clear(i);
        assert!(!b.has_suffix(i) && b.get(i).is_none(), "a cleared slot has no suffix");
        if i < 23 {
            assert!(is(&b, i + 1, &[v[i + 1]]), "clearing touches one slot");
        }
        if i > 0 {
            assert!(b.try_assign_in_place(i - 1, &[v[i], 9]));
            assert!(is(&b, i - 1, &[v[i], 9]));
            if i < 23 {
                assert!(is(&b, i + 1, &[v[i + 1]]));
            }
        }
        i += 1;
    }
    kani::cover!(true);
}
/// one operation on slot `q` next to a watched slot `p`: `la`, `lb` old lengths, `ls` new one
fn bag_op(p: usize, q: usize, p_first: bool, cap: usize, la: usize, lb: usize, ls: usize, op: u8) {
    let a: [u8; 4] = kani::any();
    let o: [u8; 4] = kani::any();
    let s: [u8; 4] = kani::any();
    let mut b = B::with_capacity(cap);
    if p_first {
        b.assign(p, &a[..la]);
    }
    b.assign(q, &o[..lb]);
    if !p_first {
        b.assign(p, &a[..la]);
    }
    match op {
        0 => {
            let before = b.get(p).map(|x| x.as_ptr());
            if b.try_assign_in_place(q, &s[..ls]) {
                assert!(is(&b, q, &s[..ls]), "the stored suffix is read back");
                assert!(la == 0 || b.get(p).map(|x| x.as_ptr()) == before, "an in-place assignment does not move what readers may be reading");
            } else {
                assert!(is(&b, q, &o[..lb]), "a refused assignment changes nothing");
            }
        }
        1 => {
            b.assign(q, &s[..ls]);
            assert!(is(&b, q, &s[..ls]), "the stored suffix is read back");
        }
        2 => {
            b.clear(q);
            assert!(b.get(q).is_none() && !b.has_suffix(q), "a cleared slot has no suffix");
            // the freed room may be used again
            if b.try_assign_in_place(q, &s[..ls]) {
                assert!(is(&b, q, &s[..ls]));
            }
        }
        3 => {
            // shrink, then grow again
            let t = b.try_assign_in_place(q, &s[..ls]);
            b.assign(q, &o[..lb]);
            assert!(is(&b, q, &o[..lb]));
            let _ = t;
        }
        _ => {
            let c = b.clone();
            b.clear(q);
            b.assign(p, &s[..ls]);
            assert!(is(&c, p, &a[..la]) && is(&c, q, &o[..lb]), "a clone is independent and equal");
            assert!(is(&b, p, &s[..ls]));
            return;
        }
    }
    assert!(is(&b, p, &a[..la]), "another slot's suffix is not disturbed");
    let r: [u8; 4] = kani::any();
    assert!(b.suffix_equals(p, &r[..la]) == same(&r[..la], &a[..la]) && !b.suffix_equals(p, &r[..la + 1 - 2 * (la == 4) as usize]), "equality is bytewise and includes the length");
}
fn bag_ops(op: u8) {
    // (old, new) lengths; room: none, one more byte, plenty
    const C: [(usize, usize); 6] = [(0, 0), (0, 2), (2, 1), (2, 2), (1, 3), (3, 0)];
    let mut i = 0;
    while i < 6 {
        let (lb, ls) = C[i];
        if i % 2 == 0 {
            bag_op(3, 21, true, 2 + lb, 2, lb, ls, op);
        } else {
            bag_op(0, 1, false, 2 + lb + 1, 2, lb, ls, op);
        }
        bag_op(23, 0, i % 2 == 1, 32, 2, lb, ls, op);
        i += 1;
    }
    kani::cover!(true);
}
macro_rules! hl { ($($n:ident = $e:expr;)*) => { $(
    #[kani::proof]
    #[kani::solver(minisat)]
    #[kani::unwind(26)]
    #[kani::stub(std::boxed::Box::new, pool_box)]
    fn $n() { $e }
)* } }
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(26)]
    fn $n() { $e }
)* } }
h! {
    suffix_try_assign = bag_ops(0);
    suffix_assign = bag_ops(1);
    suffix_clear = bag_ops(2);
    suffix_reassign = bag_ops(3);
    suffix_clone = bag_ops(4);
    suffix_compact = compact(false);
    suffix_compact_drop = compact(true);
    suffix_long = long();
}
hl! {
    leaf_suffix_assign = leaf_assign(true);
    leaf_suffix_assign_shorter = leaf_assign(false);
    leaf_suffix_clear = leaf_clear();
    leaf_suffix_match = leaf_match();
    leaf_suffix_grow = leaf_grow();
}
/// compaction keeps exactly the active suffixes
fn compact(drop20: bool) {
    let v: [u8; 8] = kani::any();
    let mut b = B::new();
    b.assign(2, &v[0..2]);
    b.assign(20, &v[2..5]);
    b.assign(7, &v[5..6]);
    b.clear(7);
    b.assign(2, &v[4..7]);
    let mut c = b.clone();
    if drop20 {
        b.compact([2usize, 9].iter().copied());
    } else {
        b.compact([20usize, 2, 9].iter().copied());
    }
    assert!(is(&b, 2, &v[4..7]) && b.get(7).is_none() && b.get(9).is_none());
    assert!(if drop20 { b.get(20).is_none() } else { is(&b, 20, &v[2..5]) }, "compaction keeps exactly the active suffixes");
    struct P;
    impl masstree::suffix::PermutationProvider for P {
        fn size(&self) -> usize {
            2
        }
        fn get(&self, i: usize) -> usize {
            if i == 0 { 20 } else { 2 }
        }
    }
    c.compact_with_permuter(&P, if drop20 { Some(20) } else { None });
    assert!(is(&c, 2, &v[4..7]));
    assert!(if drop20 { c.get(20).is_none() } else { is(&c, 20, &v[2..5]) });
    kani::cover!(true);
}
/// longest suffixes (248 bytes): lengths and offsets are not truncated
fn long() {
    let mut a = [1u8; 248];
    let mut c = [2u8; 248];
    a[247] = kani::any();
    c[0] = kani::any();
    let mut b = B::new();
    b.assign(0, &a);
    b.assign(23, &c);
    b.assign(11, &a);
    let x = b.get(23).unwrap();
    assert!(x.len() == 248 && x[0] == c[0] && x[247] == 2, "a long suffix is stored in full");
    let y = b.get(0).unwrap();
    assert!(y.len() == 248 && y[247] == a[247] && y[0] == 1);
    let z = b.get(11).unwrap();
    assert!(z.len() == 248 && z[247] == a[247] && z[0] == 1);
    kani::cover!(a[247] == 9);
}

// ---------------------------------------------------------------- the leaf's suffix API
static mut A: L = unsafe { core::mem::zeroed() };
// Boxes of suffix bags live in typed static storage (the verifier keeps field precision).
static mut P0: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut P1: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut P2: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut P3: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut P4: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut P5: core::mem::MaybeUninit<B> = core::mem::MaybeUninit::uninit();
static mut NP: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_7777_0001 };
pub fn pool_box<T>(x: T) -> Box<T> {
    assert!(core::mem::size_of::<T>() == core::mem::size_of::<B>(), "only suffix bags are boxed");
    unsafe {
        let p = match NP.v { 0 => &raw mut P0, 1 => &raw mut P1, 2 => &raw mut P2, 3 => &raw mut P3, 4 => &raw mut P4, _ => &raw mut P5 } as *mut T;
        NP.v += 1;
        core::ptr::write(p, x);
        Box::from_raw(p)
    }
}
fn leaf() -> &'static L {
    let l = unsafe { &mut *(&raw mut A) };
    *l.version_mut() = NodeVersion::new(true);
    unsafe { seize::EAGER.v = false };
    l
}
fn lis(l: &L, slot: usize, s: &[u8]) -> bool {
    TreeLeafNode::keylenx(l, slot) == 64
        && TreeLeafNode::has_ksuf(l, slot)
        && match TreeLeafNode::ksuf(l, slot) {
            Some(x) => same(x, s),
            None => false,
        }
}
fn collector() -> seize::Collector {
    seize::Collector::new()
}
fn put(l: &L, slot: usize, s: &[u8], g: &seize::LocalGuard<'_>) {
    unsafe { TreeLeafNode::assign_ksuf(l, slot, s, g) };
    assert!(lis(l, slot, s), "the stored suffix is read back");
}
fn leaf_assign(longer: bool) {
    let l = leaf();
    let c = collector();
    let g = c.enter();
    let (a, o, s): ([u8; 3], [u8; 3], [u8; 5]) = (kani::any(), kani::any(), kani::any());
    assert!(TreeLeafNode::ksuf(l, 4).is_none());
    put(l, 4, &a, &g);
    put(l, 22, &o, &g);
    assert!(lis(l, 4, &a), "another slot's suffix is not disturbed");
    if longer {
        put(l, 22, &s, &g);
        assert!(lis(l, 4, &a), "another slot's suffix is not disturbed");
    } else {
        put(l, 22, &s[..2], &g);
        put(l, 3, &o[..1], &g);
        assert!(lis(l, 4, &a) && lis(l, 22, &s[..2]), "another slot's suffix is not disturbed");
    }
    kani::cover!(a[0] == 1);
}
fn leaf_clear() {
    let l = leaf();
    let c = collector();
    let g = c.enter();
    let (a, o, s): ([u8; 3], [u8; 3], [u8; 5]) = (kani::any(), kani::any(), kani::any());
    TreeLeafNode::set_keylenx(l, 9, 64);
    unsafe { TreeLeafNode::clear_ksuf(l, 9, &g) };
    assert!(TreeLeafNode::keylenx(l, 9) == 0);
    put(l, 4, &a, &g);
    put(l, 22, &o, &g);
    unsafe { TreeLeafNode::clear_ksuf(l, 22, &g) };
    assert!(TreeLeafNode::keylenx(l, 22) == 0 && TreeLeafNode::ksuf(l, 22).is_none(), "a cleared slot has no suffix");
    TreeLeafNode::set_keylenx(l, 22, 64);
    assert!(TreeLeafNode::ksuf(l, 22).is_none() && !TreeLeafNode::ksuf_equals(l, 22, &o), "a removed suffix does not come back");
    assert!(lis(l, 4, &a), "another slot's suffix is not disturbed");
    put(l, 22, &s, &g);
    assert!(lis(l, 4, &a));
    unsafe { TreeLeafNode::clear_ksuf(l, 4, &g) };
    assert!(lis(l, 22, &s) && TreeLeafNode::keylenx(l, 4) == 0);
    kani::cover!(a[0] == 1);
}
fn sgn(o: core::cmp::Ordering) -> i32 {
    o as i32
}
/// bytewise order of short strings
fn order(a: &[u8], b: &[u8]) -> i32 {
    let mut r = if a.len() < b.len() { -1 } else if a.len() > b.len() { 1 } else { 0 };
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = n;
    while i > 0 {
        i -= 1;
        if a[i] < b[i] {
            r = -1
        } else if a[i] > b[i] {
            r = 1
        }
    }
    r
}
fn leaf_match() {
    let l = leaf();
    let c = collector();
    let g = c.enter();
    let (a, o, q): ([u8; 3], [u8; 2], [u8; 4]) = (kani::any(), kani::any(), kani::any());
    let ik: u64 = kani::any();
    let ik2: u64 = kani::any();
    put(l, 4, &a, &g);
    put(l, 5, &o, &g);
    TreeLeafNode::set_ikey(l, 4, ik);
    TreeLeafNode::set_ikey(l, 6, ik);
    let kx: u8 = kani::any();
    kani::assume(kx <= 8);
    TreeLeafNode::set_keylenx(l, 6, kx);
    TreeLeafNode::set_keylenx(l, 7, 128);
    let mut n = 0;
    while n <= 4 {
        let s = &q[..n];
        let e = same(s, &a);
        assert!(TreeLeafNode::ksuf_equals(l, 4, s) == e, "suffix equality is bytewise");
        assert!(!TreeLeafNode::ksuf_equals(l, 6, s) && !TreeLeafNode::ksuf_equals(l, 7, s));
        assert!(TreeLeafNode::ksuf_compare(l, 4, s).map(sgn) == Some(order(&a, s)), "suffix order is bytewise");
        assert!(TreeLeafNode::ksuf_compare(l, 6, s).is_none());
        if n > 0 {
            assert!(TreeLeafNode::ksuf_matches(l, 4, ik2, s) == (ik == ik2 && e), "a match needs chunk and suffix");
            assert!(!TreeLeafNode::ksuf_matches(l, 6, ik, s));
        }
        let k2: u8 = kani::any();
        kani::assume(k2 <= 8 && (n == 0 || k2 == 64) || k2 == 64 && n > 0);
        assert!(TreeLeafNode::ksuf_match_result(l, 4, k2, s) == (n > 0 && e) as i32);
        assert!(TreeLeafNode::ksuf_match_result(l, 6, k2, s) == (n == 0 && kx == k2) as i32, "an inline entry matches by its length");
        assert!(TreeLeafNode::ksuf_match_result(l, 7, k2, s) == -8, "a layer is reported as such");
        n += 1;
    }
    assert!(!TreeLeafNode::ksuf_matches(l, 4, ik, &[]), "a suffixed entry is not the bare chunk");
    assert!(TreeLeafNode::ksuf_matches(l, 6, ik, &[]));
    kani::cover!(same(&a, &q[..3]));
}
/// the storage overflows its first buffer: everything moves, nothing is lost
fn leaf_grow() {
    let l = leaf();
    let c = collector();
    let g = c.enter();
    let mut x = [5u8; 70];
    let mut y = [6u8; 80];
    x[69] = kani::any();
    y[0] = kani::any();
    let z: [u8; 2] = kani::any();
    unsafe {
        TreeLeafNode::assign_ksuf(l, 0, &x, &g);
        TreeLeafNode::assign_ksuf(l, 23, &y, &g);
        TreeLeafNode::assign_ksuf(l, 1, &z, &g);
    }
    let (p, q) = (TreeLeafNode::ksuf(l, 0).unwrap(), TreeLeafNode::ksuf(l, 23).unwrap());
    assert!(p.len() == 70 && p[0] == 5 && p[69] == x[69] && q.len() == 80 && q[0] == y[0] && q[79] == 6, "growing keeps every suffix");
    assert!(lis(l, 1, &z));
    // explicit compaction with slot 1 excluded
    TreeLeafNode::set_permutation(l, Permuter24::make_sorted(2));
    unsafe { l.compact_ksuf(Some(1), &g) };
    let p = TreeLeafNode::ksuf(l, 0).unwrap();
    assert!(p.len() == 70 && p[0] == 5 && p[69] == x[69]);
    assert!(TreeLeafNode::ksuf(l, 23).is_none() && TreeLeafNode::ksuf(l, 1).is_none());
    kani::cover!(x[69] == 1);
}
