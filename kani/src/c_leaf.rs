//! Contracts of the real `LeafNode24` (width 24), complete over its contents.
use crate::c_perm::{any_valid, valid};
use masstree::leaf_trait::*;
use masstree::leaf24::LeafNode24;
use masstree::nodeversion::NodeVersion;
use masstree::permuter24::Permuter24;
use masstree::value::LeafValueIndex;
use seize::LocalGuard;

type SV = LeafValueIndex<u64>;
type L = LeafNode24<SV>;
const N: usize = 24;
static mut A: L = unsafe { core::mem::zeroed() };
static mut B: L = unsafe { core::mem::zeroed() };

pub fn any_ptr() -> *mut u8 {
    let a: usize = kani::any();
    a as *mut u8
}
fn any_upto(n: usize) -> usize {
    let v: usize = kani::any();
    kani::assume(v <= n);
    v
}
fn node(l: &'static mut L) -> &'static L {
    *l.version_mut() = NodeVersion::new(true);
    l
}
/// Every accessor reads and writes its own slot and field only.
#[kani::proof]
#[kani::unwind(26)]
fn leaf_frame() {
    let l = node(unsafe { &mut *(&raw mut A) });
    let mut k = [0u64; N];
    let mut x = [0u8; N];
    let mut v = [core::ptr::null_mut::<u8>(); N];
    macro_rules! same { () => {{
        let mut j = 0;
        while j < N {
            assert!(TreeLeafNode::ikey(l, j) == k[j] && TreeLeafNode::keylenx(l, j) == x[j], "key accessors touch one slot");
            assert!(TreeLeafNode::leaf_value_ptr(l, j) == v[j] && TreeLeafNode::load_slot_value(l, j) == v[j], "value accessors touch one slot");
            j += 1;
        }
    }} }
    let w: u128 = kani::any();
    let (nx, pv, pa) = (any_ptr() as *mut L, any_ptr() as *mut L, any_ptr());
    TreeLeafNode::set_permutation(l, Permuter24::from_value(w));
    TreeLeafNode::set_next(l, nx);
    TreeLeafNode::set_prev(l, pv);
    TreeLeafNode::set_parent(l, pa);
    let mut i = 0;
    while i < N {
        k[i] = kani::any();
        x[i] = kani::any();
        v[i] = any_ptr();
        TreeLeafNode::set_ikey(l, i, k[i]);
        TreeLeafNode::set_keylenx(l, i, x[i]);
        TreeLeafNode::set_leaf_value_ptr(l, i, v[i]);
        i += 1;
    }
    same!();
    assert!(TreeLeafNode::ikey_bound(l) == k[0], "the lower bound is the first slot's chunk");
    let all = l.load_all_ikeys();
    i = 0;
    while i < N {
        assert!(all[i] == k[i]);
        assert!(TreeLeafNode::is_layer(l, i) == (x[i] >= 128) && TreeLeafNode::has_ksuf(l, i) == (x[i] == 64), "key length classes");
        let e = any_ptr();
        let n = any_ptr();
        let r = TreeLeafNode::cas_slot_value(l, i, e, n);
        assert!(r.is_ok() == (e == v[i]) && (r.is_ok() || r == Err(v[i])), "a slot is claimed only from its expected value");
        if r.is_ok() {
            v[i] = n;
        }
        let t = TreeLeafNode::take_leaf_value_ptr(l, i);
        assert!(t == v[i], "take hands out the value");
        v[i] = core::ptr::null_mut();
        k[i] = kani::any();
        x[i] = kani::any();
        unsafe { TreeLeafNode::store_key_data_for_cas(l, i, k[i], x[i]) };
        i += 1;
    }
    same!();
    assert!(TreeLeafNode::permutation_raw(l) == w && TreeLeafNode::permutation(l).value() == w);
    assert!(TreeLeafNode::next_raw(l) == nx && TreeLeafNode::prev(l) == pv && TreeLeafNode::parent(l) == pa);
    assert!(TreeLeafNode::can_reuse_slot0(l, k[0]), "the lower bound may be rewritten with itself");
    let o: u64 = kani::any();
    assert!(TreeLeafNode::can_reuse_slot0(l, o) == (pv.is_null() || o == k[0]), "only the leftmost leaf may change its lower bound");
    // link marks
    let (nu, b) = ((nx as usize & !1) as *mut L, nx as usize & 1 == 1);
    assert!(TreeLeafNode::safe_next(l) == nu && TreeLeafNode::next_is_marked(l) == b, "a marked link still names the right neighbour");
    TreeLeafNode::mark_next(l);
    assert!(TreeLeafNode::next_is_marked(l) && TreeLeafNode::safe_next(l) == nu);
    TreeLeafNode::unmark_next(l);
    assert!(!TreeLeafNode::next_is_marked(l) && TreeLeafNode::safe_next(l) == nu && TreeLeafNode::next_raw(l) == nu);
}
#[kani::proof]
#[kani::unwind(26)]
fn leaf_new() {
    let a = <L as TreeLeafNode<SV>>::new_boxed();
    let r = <L as TreeLeafNode<SV>>::new_root_boxed();
    let y = <L as TreeLeafNode<SV>>::new_layer_root_boxed();
    macro_rules! blank { ($l:expr, $root:expr) => {
        assert!($l.version().is_leaf() && $l.version().is_root() == $root && !$l.version().is_locked() && !$l.version().is_dirty() && !$l.version().is_deleted());
        assert!($l.size() == 0 && valid($l.permutation().value()), "a new leaf is empty");
        assert!($l.next_raw().is_null() && $l.prev().is_null() && $l.parent().is_null() && $l.ksuf_ptr().is_null());
    } }
    blank!(a, false);
    blank!(r, true);
    blank!(y, true);
    assert!(<L as TreeLeafNode<SV>>::WIDTH == N);
    core::mem::forget((a, r, y));
}

// ---------------------------------------------------------------- split
// One arbitrary entry is followed through the split: the entry at logical position WP,
// in slot WS.  The accessors of the old leaf answer for that slot and are unconstrained
// for every other; the new leaf is recorded in full.  (Accessor contracts: leaf_frame.)
static mut WS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000000b000c };
static mut WK: crate::G<u64> = crate::G { v: 0, magic: 0x5eed0000000c000d };
static mut WX: crate::G<u8> = crate::G { v: 0, magic: 0x5eed0000000d000e };
static mut WV: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000000e000f };
static mut WTAKEN: crate::G<u8> = crate::G { v: 0, magic: 0x5eed0000000f0010 };
static mut WCLEARED: crate::G<u8> = crate::G { v: 0, magic: 0x5eed000000100011 };
static mut NK: crate::G<[u64; N]> = crate::G { v: [0; N], magic: 0x5eed000000110012 };
static mut NX: crate::G<[u8; N]> = crate::G { v: [0; N], magic: 0x5eed000000120013 };
static mut NVAL: crate::G<[usize; N]> = crate::G { v: [0; N], magic: 0x5eed000000130014 };
static mut NS: crate::G<[u8; N]> = crate::G { v: [0; N], magic: 0x5eed000000140015 };
static SUF: [u8; 64] = [0; 64];
fn old<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>) -> bool {
    l as *const LeafNode24<S> as *const u8 == &raw const A as *const u8
}
fn any_class() -> u8 {
    let k: u8 = kani::any();
    kani::assume(k <= 8 || k == 64 || k == 128);
    k
}
fn s_ikey<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize) -> u64 {
    assert!(slot < N);
    unsafe { if !old(l) { NK.v[slot] } else if slot == WS.v { WK.v } else { kani::any() } }
}
fn s_set_ikey<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize, k: u64) {
    assert!(!old(l) || slot != unsafe { WS.v }, "a split leaves the entries of the old leaf's keys alone");
    unsafe { if !old(l) { NK.v[slot] = k } }
}
fn s_keylenx<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize) -> u8 {
    assert!(slot < N);
    unsafe { if !old(l) { NX.v[slot] } else if slot == WS.v { WX.v } else { any_class() } }
}
fn s_set_keylenx<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize, k: u8) {
    unsafe { if !old(l) { NX.v[slot] = k } else if slot == WS.v { WX.v = k } }
}
fn s_val<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize) -> *mut u8 {
    assert!(slot < N);
    unsafe { if !old(l) { NVAL.v[slot] as *mut u8 } else if slot == WS.v { WV.v as *mut u8 } else { any_ptr() } }
}
fn s_set_val<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize, p: *mut u8) {
    unsafe { if !old(l) { NVAL.v[slot] = p as usize } else if slot == WS.v { WV.v = p as usize } }
}
fn s_take<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize) -> *mut u8 {
    let p = s_val(l, slot);
    unsafe {
        if old(l) && slot == WS.v {
            WV.v = 0;
            WTAKEN.v += 1;
        }
    }
    p
}
// suffix storage contracts (proved in c_suffix); a suffix is told apart by its length
unsafe fn s_assign<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize, suffix: &[u8], _g: &LocalGuard<'_>) {
    assert!(!old(l), "a split does not rewrite suffixes of the old leaf");
    unsafe {
        NS.v[slot] = suffix.len() as u8;
        NX.v[slot] = 64;
    }
}
unsafe fn s_clear<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize, _g: &LocalGuard<'_>) {
    assert!(old(l), "a split does not drop suffixes of the new leaf");
    unsafe {
        if slot == WS.v {
            WX.v = 0;
            WCLEARED.v += 1;
        }
    }
}
fn s_ksuf<S: masstree::slot::ValueSlot>(l: &LeafNode24<S>, slot: usize) -> Option<&[u8]> {
    unsafe {
        if !old(l) {
            None
        } else if slot == WS.v {
            if WX.v != 64 { None } else { Some(&SUF[..33]) }
        } else {
            Some(&SUF[..7])
        }
    }
}
/// contract of make_sorted (perm_make): n live slots, slot i at position i
fn s_make_sorted(n: usize) -> Permuter24 {
    assert!(n <= N, "contract: make_sorted size");
    let w: u128 = kani::any();
    kani::assume(w & 31 == n as u128 && w >> 125 == 0);
    let mut i = 0;
    while i < N {
        kani::assume(i >= n || crate::c_perm::slot(w, i) == i);
        i += 1;
    }
    // the top position of a valid word is a slot (never the freeze mark)
    kani::assume(crate::c_perm::slot(w, N - 1) < N);
    Permuter24::from_value(w)
}
/// part 0: everything moves; 1: the watched entry moves; 2: it stays
fn split(part: u8) {
    let all = part == 0;
    let (a, b) = (node(unsafe { &mut *(&raw mut A) }), node(unsafe { &mut *(&raw mut B) }));
    let w: u128 = kani::any();
    let p = Permuter24::from_value(w);
    let n = p.size();
    kani::assume(n > 0 && n <= N);
    // the entry watched: logical position j; no other position names its slot
    let j = any_upto(N - 1);
    kani::assume(j < n);
    let s = p.get(j);
    let mut i = 0;
    while i < N {
        let t = p.get(i);
        kani::assume(t < N && (t != s || i == j));
        i += 1;
    }
    TreeLeafNode::set_permutation(a, p);
    let pos: usize = if all { 0 } else { kani::any() };
    kani::assume(all || (pos > 0 && pos < n && (part == 1) == (j >= pos)));
    let (ik, kx, v): (u64, u8, usize) = (kani::any(), any_class(), kani::any());
    unsafe {
        WS.v = s;
        WK.v = ik;
        WX.v = kx;
        WV.v = v;
    }
    let c = seize::Collector::new();
    let g = &c.enter();
    let mut lg = a.version().lock();
    lg.mark_split();
    let bx = unsafe { Box::from_raw(b as *const L as *mut L) };
    let (nb, sk, _) = unsafe {
        if all { TreeLeafNode::split_all_to_right_preallocated(a, bx, g) } else { TreeLeafNode::split_into_preallocated(a, pos, bx, g) }
    };
    let b = unsafe { &*Box::into_raw(nb) };
    assert!(a.size() == pos && b.size() == n - pos, "entries are divided at the split position");
    unsafe {
        if j < pos {
            assert!(a.permutation().get(j) == s && WK.v == ik && WX.v == kx && WV.v == v && WTAKEN.v == 0 && WCLEARED.v == 0, "an entry left of the split stays untouched");
        } else {
            let t = b.permutation().get(j - pos);
            assert!(t < N && NK.v[t] == ik && NX.v[t] == kx && NVAL.v[t] == v, "a moved entry keeps its key, value and order");
            assert!(kx != 64 || NS.v[t] == 33, "a moved entry keeps its own suffix");
            assert!(WV.v == 0 && WTAKEN.v == 1, "a moved value has one owner");
            assert!(WCLEARED.v == (kx == 64) as u8, "a moved suffix is dropped from the old leaf");
            assert!(j > pos || sk == ik, "the split key is the first moved chunk");
        }
        assert!(sk == NK.v[0] && b.permutation().get(0) == 0, "the split key is the new leaf's lower bound");
    }
    assert!(b.version().is_locked() && b.version().is_splitting() && b.version().is_leaf(), "a split sibling is born locked");
    assert!(!TreeLeafNode::is_permutation_frozen(a) && !TreeLeafNode::is_permutation_frozen(b), "the permutation is unfrozen afterwards");
    kani::cover!(kx == 64);
    core::mem::forget(lg);
}
macro_rules! split_harness { ($($solver:ident $name:ident => $body:expr;)*) => { $(
    #[kani::proof]
    #[kani::solver($solver)]
    #[kani::unwind(26)]
    #[kani::stub(masstree::permuter24::Permuter24::make_sorted, s_make_sorted)]
    #[kani::stub(masstree::leaf24::LeafNode24::ikey, s_ikey)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_ikey, s_set_ikey)]
    #[kani::stub(masstree::leaf24::LeafNode24::keylenx, s_keylenx)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_keylenx, s_set_keylenx)]
    #[kani::stub(masstree::leaf24::LeafNode24::leaf_value_ptr, s_val)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_leaf_value_ptr, s_set_val)]
    #[kani::stub(masstree::leaf24::LeafNode24::take_leaf_value_ptr, s_take)]
    #[kani::stub(masstree::leaf24::LeafNode24::assign_ksuf, s_assign)]
    #[kani::stub(masstree::leaf24::LeafNode24::clear_ksuf, s_clear)]
    #[kani::stub(masstree::leaf24::LeafNode24::ksuf, s_ksuf)]
    fn $name() { $body }
)* } }
split_harness! {
    cadical leaf_split => split(1);
    cadical leaf_split_stay => split(2);
    minisat leaf_split_all => split(0);
}
// ---------------------------------------------------------------- split point
static mut ORD: crate::G<[u8; N]> = crate::G { v: [0; N], magic: 0x5eed000000150016 };
static mut INV: crate::G<[u8; N]> = crate::G { v: [0; N], magic: 0x5eed000000160017 };
static mut PK: crate::G<[u64; N]> = crate::G { v: [0; N], magic: 0x5eed000000170018 };
fn p_get(_p: &Permuter24, i: usize) -> usize {
    assert!(i < N);
    unsafe { ORD.v[i] as usize }
}
fn p_ikey<S: masstree::slot::ValueSlot>(_l: &LeafNode24<S>, slot: usize) -> u64 {
    assert!(slot < N);
    unsafe { PK.v[INV.v[slot] as usize] }
}
/// The split point never separates entries with equal chunks (routing only sees chunks), and
/// a full leaf with at most ten entries per chunk always has one.
fn split_point(n: usize) {
    let a = node(unsafe { &mut *(&raw mut A) });
    TreeLeafNode::set_permutation(a, Permuter24::from_value(n as u128));
    let k: [u64; N] = kani::any();
    unsafe {
        ORD.v = kani::any();
        INV.v = kani::any();
        PK.v = k;
        let mut i = 0;
        while i < N {
            kani::assume((ORD.v[i] as usize) < N && (INV.v[i] as usize) < N);
            kani::assume(INV.v[ORD.v[i] as usize] as usize == i);
            i += 1;
        }
    }
    let mut i = 1;
    while i < N {
        if i < n {
            kani::assume(k[i - 1] <= k[i]);
        }
        // ten different entries share a chunk at most: lengths 0..=8, one suffix or layer
        if i >= 10 && i < n {
            kani::assume(k[i - 10] < k[i]);
        }
        i += 1;
    }
    let r = TreeLeafNode::calculate_split_point(a, any_upto(N), kani::any());
    match r {
        Some(sp) => {
            assert!(sp.pos > 0 && sp.pos < n, "both halves keep an entry");
            assert!(sp.split_ikey == k[sp.pos], "the split key is the first chunk of the right half");
            assert!(k[sp.pos - 1] != k[sp.pos], "entries sharing a chunk stay together");
        }
        None => assert!(n < N, "a full leaf can always be split"),
    }
    kani::cover!(r.is_some());
}
macro_rules! split_point_harness { ($($name:ident => $n:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(26)]
    #[kani::stub(masstree::permuter24::Permuter24::get, p_get)]
    #[kani::stub(masstree::leaf24::LeafNode24::ikey, p_ikey)]
    fn $name() { split_point($n) }
)* } }
split_point_harness! {
    leaf_split_point => N;
    leaf_split_point_23 => N - 1;
    leaf_split_point_low => any_upto(11);
    leaf_split_point_12 => 12 + any_upto(3);
    leaf_split_point_16 => 16 + any_upto(3);
    leaf_split_point_20 => 20 + any_upto(2);
}
/// linking a new right sibling
#[kani::proof]
#[kani::unwind(6)]
fn leaf_link() {
    let (a, b) = (node(unsafe { &mut *(&raw mut A) }), node(unsafe { &mut *(&raw mut B) }));
    static mut C: L = unsafe { core::mem::zeroed() };
    let c = node(unsafe { &mut *(&raw mut C) });
    let (ap, bp, cp) = (a as *const L as *mut L, b as *const L as *mut L, c as *const L as *mut L);
    let has: bool = kani::any();
    TreeLeafNode::set_next(a, if has { cp } else { core::ptr::null_mut() });
    TreeLeafNode::set_prev(c, ap);
    let pp = any_ptr() as *mut L;
    TreeLeafNode::set_prev(a, pp);
    unsafe { TreeLeafNode::link_sibling(a, bp) };
    assert!(TreeLeafNode::next_raw(a) == bp, "the new sibling is linked, unmarked");
    assert!(TreeLeafNode::prev(b) == ap && TreeLeafNode::next_raw(b) == if has { cp } else { core::ptr::null_mut() }, "the new sibling sits between its neighbours");
    assert!(!has || TreeLeafNode::prev(c) == bp);
    assert!(TreeLeafNode::prev(a) == pp);
}
