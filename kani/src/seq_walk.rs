//! Contracts of the walks: descent through routing nodes, B-link walk, climb to the top of
//! a layer -- alone and while another thread modifies what they read.
use crate::ghost::*;
use crate::rg_get;
use crate::seq::*;
use crate::seq_split::nop;
use masstree::MassTreeGeneric;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::nodeversion::NodeVersion;
use masstree::slot::ValueSlot;
use seize::LocalGuard;

macro_rules! stands_for { ($(#[$m:meta])* fn $n:ident ($($a:ident : $t:ty),*) -> $r:ty) => {
    $(#[$m])*
    pub fn $n<'a, S, L, A>(_t: &'a MassTreeGeneric<S, L, A>, $($a: $t),*) -> $r
    where
        S: ValueSlot,
        S::Value: Send + Sync + 'static,
        S::Output: Send + Sync,
        L: LayerCapableLeaf<S>,
        A: NodeAllocatorGeneric<S, L>,
    {
        unreachable!()
    }
} }
/// stands for the private `MassTreeGeneric::reach_leaf_concurrent_generic`
pub fn reach<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _start: *const u8, _key: &Key<'_>, _sub: bool, _g: &LocalGuard<'_>) -> *mut L
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}
/// stands for the private `MassTreeGeneric::maybe_parent_generic`
pub fn climb<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _node: *const u8) -> *const u8
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}
stands_for! {
    /// stands for the private `MassTreeGeneric::advance_to_key_generic`
    fn advance(_l: &'a L, _k: &Key<'_>, _v: u32, _g: &LocalGuard<'_>) -> (&'a L, u32)
}
stands_for! {
    /// stands for the private `MassTreeGeneric::advance_to_key_by_bound_generic`
    fn advance_bound(_l: &'a L, _k: &Key<'_>, _g: &LocalGuard<'_>) -> (&'a L, bool)
}

fn leaf(i: usize) -> &'static GLeaf {
    unsafe { &*leaf_at(i) }
}
fn inter(i: usize) -> &'static GInter {
    unsafe { &*inter_at(i) }
}
fn lp(i: usize) -> *mut u8 {
    leaf_at(i) as *mut u8
}
fn ip(i: usize) -> *mut u8 {
    inter_at(i) as *mut u8
}

// ---------------------------------------------------------------- interference on a routing node
/// 0: off, 1: a separator is added, 2: the node is split
static mut OP: crate::G<u8> = crate::G { v: 0, magic: 0x5eed_0000_0207_0001 };
/// 0: before, 1: inside the writer's section, 2: after it
static mut STEP: crate::G<u8> = crate::G { v: 0, magic: 0x5eed_0000_0207_0002 };
static mut WORDS: crate::G<[u32; 3]> = crate::G { v: [0; 3], magic: 0x5eed_0000_0207_0003 };
fn on(p: &GInter) -> bool {
    unsafe {
        if OP.v == 0 || !core::ptr::eq(p, &raw const I0) {
            return false;
        }
        step();
        true
    }
}
fn step() {
    unsafe {
        let t: u8 = kani::any();
        kani::assume(t >= STEP.v && t <= 2);
        STEP.v = t;
    }
}
/// internode 0 as readers see it: before, anything, internode 7 after
fn view(p: &'static GInter) -> Option<&'static GInter> {
    match unsafe { STEP.v } {
        0 => Some(p),
        1 => None,
        _ => Some(inter(7)),
    }
}
pub fn nkeys(p: &GInter) -> usize {
    if on(p) {
        return match view(inter(0)) {
            Some(q) => q.n.get() as usize,
            None => {
                let n: usize = kani::any();
                kani::assume(n <= IW);
                n
            }
        };
    }
    p.n.get() as usize
}
pub fn ikey(p: &GInter, i: usize) -> u64 {
    if on(p) {
        return match view(inter(0)) {
            Some(q) => q.ik[i].get(),
            None => kani::any(),
        };
    }
    p.ik[i].get()
}
pub fn child(p: &GInter, i: usize) -> *mut u8 {
    if on(p) {
        return match view(inter(0)) {
            Some(q) => q.ch[i].get(),
            None => {
                let j: usize = kani::any();
                kani::assume(j <= 5);
                if j == 5 { core::ptr::null_mut() } else { lp(j) }
            }
        };
    }
    p.ch[i].get()
}
unsafe fn load_env<T: Copy, const V: bool>(dst: *const T, _o: core::sync::atomic::Ordering) -> T {
    unsafe {
        if core::mem::size_of::<T>() == 4 && OP.v != 0 && core::ptr::addr_eq(dst, &raw const I0.version) {
            step();
            let w: u32 = WORDS.v[STEP.v as usize];
            return core::mem::transmute_copy(&w);
        }
        *dst
    }
}
/// contract of `stable()` (proved by c_version::version_stable)
fn stable_env(v: &NodeVersion) -> u32 {
    unsafe {
        if OP.v != 0 && core::ptr::addr_eq(v, &raw const I0.version) {
            step();
            if STEP.v == 1 {
                STEP.v = 2;
            }
            return WORDS.v[STEP.v as usize];
        }
        v.value()
    }
}
/// `split`: the node gives its upper separators away, otherwise it gets one more
fn descend_racing(split: bool) {
    init();
    let t = tree_with_root(ip(0));
    let (p, a) = (inter(0), inter(7));
    // leaves 0..4 in order of their lower bounds
    let mut i = 1;
    while i < 5 {
        leaf(i).ik[0].set(kani::any());
        kani::assume(i == 1 || leaf(i - 1).ik[0].get() < leaf(i).ik[0].get());
        i += 1;
    }
    let put = |q: &GInter, at: usize, l: usize| {
        q.ik[at].set(leaf(l).ik[0].get());
        q.ch[at + 1].set(lp(l));
    };
    p.ch[0].set(lp(0));
    a.ch[0].set(lp(0));
    if split {
        p.n.set(3);
        put(p, 0, 1);
        put(p, 1, 2);
        put(p, 2, 3);
        a.n.set(1);
        put(a, 0, 1);
    } else {
        p.n.set(2);
        put(p, 0, 1);
        put(p, 1, 3);
        a.n.set(3);
        put(a, 0, 1);
        put(a, 1, 2);
        put(a, 2, 3);
    }
    p.version.mark_root();
    let v = NodeVersion::from_value(p.version.value());
    let before = v.value();
    let mut g = v.try_lock().unwrap();
    if split { g.mark_split() } else { g.mark_insert() }
    let during = v.value();
    drop(g);
    let kb: [u8; 8] = kani::any();
    let key = Key::new(&kb);
    unsafe {
        WORDS.v = [before, during, v.value()];
        STEP.v = 0;
        OP.v = 1;
    }
    let g = t.guard();
    let r = reach::<GSlot, GLeaf, GAlloc>(&t, ip(0), &key, false, &g);
    let end = unsafe { STEP.v };
    unsafe { OP.v = 0 };
    assert!(!r.is_null() && (r == leaf_at(0) || unsafe { (*r).ik[0].get() } <= key.ikey()), "the descent never ends to the right of the key");
    if end == 0 {
        let c = if key.ikey() >= p.ik[1].get() { p.ch[2].get() } else if key.ikey() >= p.ik[0].get() { p.ch[1].get() } else { lp(0) };
        assert!(r as *mut u8 == c || (split && key.ikey() >= p.ik[2].get() && r as *mut u8 == p.ch[3].get()), "an undisturbed descent ends in the child that covers the key");
    }
    kani::cover!(end == 0);
    kani::cover!(end == 2 && r == leaf_at(1));
    core::mem::forget(g);
    core::mem::forget(t);
}
/// two levels of routing nodes, nobody interferes
fn descend() {
    init();
    let t = tree_with_root(ip(0));
    let (p, a, b) = (inter(0), inter(1), inter(2));
    unsafe {
        (*inter_at(0)).height = 1;
    }
    let (k0, k1, k2, k3): (u64, u64, u64, u64) = kani::any();
    kani::assume(k0 < k1 && k1 < k2 && k2 < k3);
    p.n.set(1);
    p.ik[0].set(k1);
    p.ch[0].set(ip(1));
    p.ch[1].set(ip(2));
    a.n.set(1);
    a.ik[0].set(k0);
    a.ch[0].set(lp(0));
    a.ch[1].set(lp(1));
    b.n.set(2);
    b.ik[0].set(k2);
    b.ik[1].set(k3);
    b.ch[0].set(lp(2));
    b.ch[1].set(lp(3));
    b.ch[2].set(lp(4));
    let kb: [u8; 8] = kani::any();
    let key = Key::new(&kb);
    let k = key.ikey();
    let g = t.guard();
    let r = reach::<GSlot, GLeaf, GAlloc>(&t, ip(0), &key, false, &g) as *mut u8;
    let e = if k < k0 { lp(0) } else if k < k1 { lp(1) } else if k < k2 { lp(2) } else if k < k3 { lp(3) } else { lp(4) };
    assert!(r == e, "the descent ends in the leaf that covers the key");
    assert!(reach::<GSlot, GLeaf, GAlloc>(&t, lp(3), &key, true, &g) as *mut u8 == lp(3), "a leaf is its own subtree");
    kani::cover!(r == lp(0));
    kani::cover!(r == lp(4));
    core::mem::forget(g);
    core::mem::forget(t);
}
/// the top of a node's layer
fn to_top() {
    init();
    let t = tree_with_root(ip(2));
    leaf(0).parent.set(ip(0));
    inter(0).parent.set(ip(1));
    leaf(1).version.mark_root();
    let c = |p: *mut u8| climb::<GSlot, GLeaf, GAlloc>(&t, p) as *mut u8;
    assert!(c(lp(0)) == ip(1) && c(ip(0)) == ip(1) && c(ip(1)) == ip(1) && c(lp(1)) == lp(1), "the climb ends at the node without parent");
    core::mem::forget(t);
}
/// the chain of leaves 0, 1, 2
fn chain() -> GTree {
    init();
    let t = tree_with_root(lp(0));
    let (a, b, c) = (leaf(0), leaf(1), leaf(2));
    a.next.set(leaf_at(1));
    b.next.set(leaf_at(2));
    b.ik[0].set(kani::any());
    c.ik[0].set(kani::any());
    kani::assume(b.ik[0].get() < c.ik[0].get());
    t
}
fn walk() {
    let t = chain();
    let (b, c) = (leaf(1).ik[0].get(), leaf(2).ik[0].get());
    let kb: [u8; 8] = kani::any();
    let key = Key::new(&kb);
    let k = key.ikey();
    let g = t.guard();
    let (r, far) = advance_bound::<GSlot, GLeaf, GAlloc>(&t, unsafe { &*leaf_at(0) }, &key, &g);
    let e = if k >= c { 2 } else { (k >= b) as usize };
    assert!(core::ptr::eq(r, leaf(e)) && !far, "the walk ends in the leaf that covers the key");
    // after a split the lookup's walk does the same
    let old = leaf(0).version.value();
    let mut l = leaf(0).version.try_lock().unwrap();
    l.mark_split();
    drop(l);
    let (r, w) = advance::<GSlot, GLeaf, GAlloc>(&t, unsafe { &*leaf_at(0) }, &key, old, &g);
    assert!(core::ptr::eq(r, leaf(e)) && w == leaf(e).version.value(), "the walk ends in the leaf that covers the key");
    kani::cover!(e == 0);
    kani::cover!(e == 1);
    kani::cover!(e == 2);
    core::mem::forget(g);
    core::mem::forget(t);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_walk"))]
    #[kani::proof]
    #[kani::solver(minisat)]
    #[kani::unwind(5)]
    #[kani::stub(reach, masstree::MassTreeGeneric::reach_leaf_concurrent_generic)]
    #[kani::stub(climb, masstree::MassTreeGeneric::maybe_parent_generic)]
    #[kani::stub(advance, masstree::MassTreeGeneric::advance_to_key_generic)]
    #[kani::stub(advance_bound, masstree::MassTreeGeneric::advance_to_key_by_bound_generic)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(core::hint::spin_loop, nop)]
    #[kani::stub(core::sync::atomic::atomic_load, load_env)]
    #[kani::stub(masstree::nodeversion::NodeVersion::stable, stable_env)]
    fn $n() { $e }
)* } }
h! {
    walk_descend = descend();
    walk_descend_insert = descend_racing(false);
    walk_descend_split = descend_racing(true);
    walk_top = to_top();
    walk_chain = walk();
}
// ---------------------------------------------------------------- the B-link walk under a split
const KEY: u64 = 0x4142434445464748;
/// leaf 0 is split by another thread during the walk; `sep` is the new bound
fn walk_racing(sep: u64, bound: bool) {
    let t = rg_get::walk_start(sep);
    let kb = KEY.to_be_bytes();
    let key = Key::new(&kb);
    let g = t.guard();
    let old = rg_get::any_seen();
    rg_get::walk_on(true);
    let l = unsafe { &*leaf_at(0) };
    let s0 = rg_get::now();
    let (r, w) = if bound {
        let (r, far) = advance_bound::<GSlot, GLeaf, GAlloc>(&t, l, &key, &g);
        assert!(!far);
        (r, None)
    } else {
        let (r, w) = advance::<GSlot, GLeaf, GAlloc>(&t, l, &key, old, &g);
        (r, Some(w))
    };
    rg_get::walk_on(false);
    assert!(core::ptr::eq(r, l) || (core::ptr::eq(r, leaf(1)) && KEY >= sep), "the walk never ends to the right of the key");
    if let Some(w) = w {
        assert!(rg_get::seen_since(r, w, s0), "the walk returns a clean word the leaf had meanwhile");
    }
    kani::cover!(core::ptr::eq(r, l));
    kani::cover!(core::ptr::eq(r, leaf(1)) || KEY < sep);
    core::mem::forget(g);
    core::mem::forget(t);
}
macro_rules! hr { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_walk"))]
    #[kani::proof]
    #[kani::solver(minisat)]
    #[kani::unwind(5)]
    #[kani::stub(advance, masstree::MassTreeGeneric::advance_to_key_generic)]
    #[kani::stub(advance_bound, masstree::MassTreeGeneric::advance_to_key_by_bound_generic)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    #[kani::stub(core::hint::spin_loop, nop)]
    #[kani::stub(core::sync::atomic::atomic_load, rg_get::load_env)]
    #[kani::stub(masstree::nodeversion::NodeVersion::stable, rg_get::stable_env)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_deleted, rg_get::never)]
    fn $n() { $e }
)* } }
hr! {
    walk_split_stay = walk_racing(KEY + 1, false);
    walk_split_move = walk_racing(KEY, false);
    walk_bound_split_stay = walk_racing(KEY + 1, true);
    walk_bound_split_move = walk_racing(KEY, true);
}
