//! Contracts of split propagation (`tree/split/*`) over ghost nodes.
use crate::ghost::*;
use crate::seq::{K1, fill, keylen, find, leaf_inv, no_prefetch, quiet};
use masstree::MassTreeGeneric;
use core::sync::atomic::{AtomicPtr, Ordering};
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::leaf_trait::*;
use masstree::nodeversion::{LockGuard, NodeVersion};
use masstree::slot::ValueSlot;
use masstree::tree::InsertError;
use seize::LocalGuard;

/// stands for the private `Propagation::make_split_leaf` (replaced by it, see `h!`)
#[allow(clippy::too_many_arguments)]
pub fn make_split<'op, S, L, A>(
    _root_ptr: &AtomicPtr<u8>,
    _allocator: &A,
    _left: *mut L,
    _lock: LockGuard<'_>,
    _right: *mut L,
    _k: u64,
    _is_main_root: bool,
    _is_layer_root: bool,
    _guard: &'op LocalGuard<'op>,
) -> Result<(), InsertError>
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}

pub fn nop() {}
fn inter(i: usize) -> &'static GInter {
    unsafe { &*inter_at(i) }
}
fn leaf(i: usize) -> &'static GLeaf {
    unsafe { &*leaf_at(i) }
}
fn ip(i: usize) -> *mut u8 {
    inter_at(i) as *mut u8
}
fn lp(i: usize) -> *mut u8 {
    leaf_at(i) as *mut u8
}
/// internode `i` (height h) with `n` arbitrary separators and the given children
fn mk(i: usize, h: u32, n: usize, ch: [*mut u8; IW + 1]) -> &'static GInter {
    let p = unsafe { &mut *inter_at(i) };
    p.height = h;
    p.n.set(n as u8);
    p.live.set(true);
    let mut j = 0;
    while j <= n {
        p.ch[j].set(ch[j]);
        if j < n {
            p.ik[j].set(kani::any());
        }
        if h == 0 {
            let l = unsafe { &*(ch[j] as *const GLeaf) };
            l.parent.set(ip(i));
            l.live.set(true);
        } else {
            let l = unsafe { &*(ch[j] as *const GInter) };
            l.parent.set(ip(i));
            l.live.set(true);
        }
        j += 1;
    }
    p
}
fn asc(p: &GInter) -> bool {
    let n = p.n.get();
    (n < 2 || p.ik[0].get() < p.ik[1].get()) && (n < 3 || p.ik[1].get() < p.ik[2].get())
}
/// (keys, children) of internode after adding key k, child c behind position j
fn merged(p: &GInter, j: usize, k: u64, c: *mut u8) -> ([u64; IW + 1], [*mut u8; IW + 2]) {
    let n = p.n.get() as usize;
    let mut ks = [0; IW + 1];
    let mut cs = [core::ptr::null_mut(); IW + 2];
    cs[0] = p.ch[0].get();
    let mut i = 0;
    while i <= n {
        ks[i] = if i < j { p.ik[i].get() } else if i == j { k } else { p.ik[i - 1].get() };
        cs[i + 1] = if i < j { p.ch[i + 1].get() } else if i == j { c } else { p.ch[i].get() };
        i += 1;
    }
    (ks, cs)
}
/// p (and, past it, q with the popped key between them) list exactly ks/cs
fn lists(p: &GInter, q: Option<(&GInter, u64)>, ks: &[u64; IW + 1], cs: &[*mut u8; IW + 2], total: usize) -> bool {
    let n = p.n.get() as usize;
    let mut ok = true;
    let mut i = 0;
    while i < total {
        let (k, c) = if i < n {
            (p.ik[i].get(), p.ch[i + 1].get())
        } else {
            match q {
                None => return false,
                Some((q, pop)) => {
                    if i == n {
                        (pop, q.ch[0].get())
                    } else {
                        (q.ik[i - n - 1].get(), q.ch[i - n].get())
                    }
                }
            }
        };
        ok &= k == ks[i] && c == cs[i + 1];
        i += 1;
    }
    let qn = match q {
        Some((q, _)) => q.n.get() as usize + 1,
        None => 0,
    };
    ok && p.ch[0].get() == cs[0] && n + qn == total
}
/// the two halves of a leaf split, as `handle_leaf_split` hands them to the propagation
fn halves(l: usize, r: usize) -> (LockGuard<'static>, u64, u32) {
    let a = leaf(l);
    let b = leaf(r);
    a.live.set(true);
    let v = a.version.value();
    let mut g = a.version.lock();
    g.mark_split();
    unsafe { core::ptr::write(&raw const b.version as *mut NodeVersion, NodeVersion::new_for_split(&a.version)) };
    b.live.set(true);
    (g, kani::any(), v)
}
fn run(root: &AtomicPtr<u8>, l: usize, r: usize, g: LockGuard<'_>, k: u64, main: bool, layer: bool) {
    let c = seize::Collector::new();
    let gd = c.enter();
    let res = make_split::<GSlot, GLeaf, GAlloc>(root, &GAlloc, leaf_at(l), g, leaf_at(r), k, main, layer, &gd);
    assert!(res.is_ok(), "a split is always installed");
    core::mem::forget(res);
    core::mem::forget(gd);
}
/// the new root over two halves
fn new_root(i: usize, h: u32, a: *mut u8, b: *mut u8, k: u64) {
    let n = inter(i);
    assert!(n.n.get() == 1 && n.ik[0].get() == k && n.ch[0].get() == a && n.ch[1].get() == b, "the new root routes to both halves");
    assert!(n.height == h, "the new root is one level above its children");
    assert!(n.version.is_root() && n.parent.get().is_null() && quiet(&n.version) && !n.version.is_leaf(), "the new root is a free, marked root without parent");
}
fn leaf_done(i: usize, parent: *mut u8, old: u32) {
    let l = leaf(i);
    assert!(quiet(&l.version), "both halves are unlocked");
    assert!(!l.version.is_root() && l.version.is_leaf() && l.parent.get() == parent, "both halves know their parent and are not roots");
    assert!(l.version.has_split(old), "readers notice the split");
}
fn inter_done(i: usize, parent: *mut u8, root: bool) {
    let p = inter(i);
    assert!(quiet(&p.version), "locks released");
    assert!(p.parent.get() == parent && p.version.is_root() == root && !p.version.is_leaf());
}

// ---------------------------------------------------------------- leaf at the top
fn root_leaf(main: bool) {
    init();
    let other = inter_at(7) as *mut u8;
    let root = AtomicPtr::new(if main { lp(0) } else { other });
    leaf(0).version.mark_root();
    let (g, k, v) = halves(0, 1);
    run(&root, 0, 1, g, k, main, !main);
    new_root(0, 0, lp(0), lp(1), k);
    leaf_done(0, ip(0), v);
    leaf_done(1, ip(0), v);
    assert!(root.load(Ordering::Relaxed) == if main { ip(0) } else { other }, "only a split of the tree's root moves the root pointer");
    assert!(unsafe { TRACKED_INTERS.v } == 1, "the new root is handed to the allocator once");
    kani::cover!(true);
}
// ---------------------------------------------------------------- parent with room
fn room(n: usize, j: usize) {
    init();
    unsafe { NEXT_INTER.v = 4 };
    let p = mk(0, 0, n, [lp(0), lp(1), lp(2), lp(3)]);
    p.version.mark_root();
    kani::assume(asc(p));
    let root = AtomicPtr::new(ip(0));
    let v0 = p.version.value();
    let (g, k, v) = halves(j, 4);
    let (ks, cs) = merged(p, j, k, lp(4));
    run(&root, j, 4, g, k, false, false);
    assert!(lists(p, None, &ks, &cs, n + 1), "the parent routes to both halves, every other entry is kept");
    inter_done(0, core::ptr::null_mut(), true);
    assert!(p.version.has_changed(v0));
    leaf_done(j, ip(0), v);
    leaf_done(4, ip(0), v);
    assert!(root.load(Ordering::Relaxed) == ip(0) && unsafe { TRACKED_INTERS.v } == 0);
    kani::cover!(true);
}
// ---------------------------------------------------------------- full parent
/// how the full parent is attached
#[derive(Clone, Copy, PartialEq)]
enum Up {
    Main,
    Layer,
    Grand,
}
fn full(j: usize, up: Up) {
    init();
    unsafe { NEXT_INTER.v = 4 };
    let p = mk(0, 0, IW, [lp(0), lp(1), lp(2), lp(3)]);
    kani::assume(asc(p));
    let other = ip(7);
    let root = AtomicPtr::new(match up { Up::Main => ip(0), Up::Layer => other, Up::Grand => ip(1) });
    if up == Up::Grand {
        let q = mk(1, 1, 1, [ip(2), ip(0), core::ptr::null_mut(), core::ptr::null_mut()]);
        q.version.mark_root();
    } else {
        p.version.mark_root();
    }
    let gk = inter(1).ik[0].get();
    let v0 = p.version.value();
    let (g, k, v) = halves(j, 4);
    let (ks, cs) = merged(p, j, k, lp(4));
    run(&root, j, 4, g, k, false, false);
    let q = inter(4);
    let top = if up == Up::Grand { inter(1) } else { inter(5) };
    let pop = if up == Up::Grand { top.ik[1].get() } else { top.ik[0].get() };
    assert!(lists(p, Some((q, pop)), &ks, &cs, IW + 1), "the two halves and the popped separator hold exactly the old entries and the new one");
    assert!(q.height == 0 && p.n.get() >= 1 && q.n.get() >= 1);
    assert!(p.version.has_split(v0), "readers notice the split");
    if up == Up::Grand {
        assert!(top.n.get() == 2 && top.ik[0].get() == gk && top.ch[0].get() == ip(2) && top.ch[1].get() == ip(0) && top.ch[2].get() == ip(4), "the grandparent routes to both halves");
        inter_done(1, core::ptr::null_mut(), true);
        inter_done(0, ip(1), false);
        inter_done(4, ip(1), false);
        assert!(root.load(Ordering::Relaxed) == ip(1) && unsafe { TRACKED_INTERS.v } == 1, "every new node is handed to the allocator once");
    } else {
        new_root(5, 1, ip(0), ip(4), pop);
        inter_done(0, ip(5), false);
        inter_done(4, ip(5), false);
        assert!(root.load(Ordering::Relaxed) == if up == Up::Main { ip(5) } else { other }, "only a split of the tree's root moves the root pointer");
        assert!(unsafe { TRACKED_INTERS.v } == 2, "every new node is handed to the allocator once");
    }
    // every child knows its parent
    let mut i = 0;
    while i < IW + 2 {
        let c = unsafe { &*(cs[i] as *const GLeaf) };
        let par = if i <= p.n.get() as usize { ip(0) } else { ip(4) };
        assert!(c.parent.get() == par && quiet(&c.version), "every child points to the half that holds it");
        i += 1;
    }
    leaf_done(j, leaf(j).parent.get(), v);
    leaf_done(4, leaf(4).parent.get(), v);
    kani::cover!(true);
}
/// the split climbs two levels: parent and grandparent are full
fn cascade(j: usize, gj: usize, main: bool) {
    init();
    unsafe { NEXT_INTER.v = 4 };
    let p = mk(0, 0, IW, [lp(0), lp(1), lp(2), lp(3)]);
    kani::assume(asc(p));
    let gc = match gj {
        0 => [ip(0), ip(2), ip(3), ip(7)],
        1 => [ip(2), ip(0), ip(3), ip(7)],
        2 => [ip(2), ip(3), ip(0), ip(7)],
        _ => [ip(2), ip(3), ip(7), ip(0)],
    };
    let gr = mk(1, 1, IW, gc);
    kani::assume(asc(gr));
    gr.version.mark_root();
    let other = lp(3);
    let root = AtomicPtr::new(if main { ip(1) } else { other });
    let (g, k, v) = halves(j, 4);
    let (ks, cs) = merged(p, j, k, lp(4));
    run_at(&root, j, g, k);
    let (q, g2, top) = (inter(4), inter(5), inter(6));
    let pop2 = top.ik[0].get();
    new_root(6, 2, ip(1), ip(5), pop2);
    assert!(root.load(Ordering::Relaxed) == if main { ip(6) } else { other }, "only a split of the tree's root moves the root pointer");
    assert!(unsafe { TRACKED_INTERS.v } == 3, "every new node is handed to the allocator once");
    inter_done(1, ip(6), false);
    inter_done(5, ip(6), false);
    assert!(g2.height == 1 && q.height == 0);
    // the separator popped by the parent sits between its halves in the grandparent's halves
    let gk = [gr.ik[0].get(), gr.ik[1].get(), pop2, g2.ik[0].get()];
    let gcs = [gr.ch[0].get(), gr.ch[1].get(), gr.ch[2].get(), g2.ch[0].get(), g2.ch[1].get()];
    assert!(gr.n.get() == 2 && g2.n.get() == 1);
    let mut i = 0;
    while i < IW + 2 {
        let w = if i <= gj { gc[i] } else if i == gj + 1 { ip(4) } else { gc[i - 1] };
        assert!(gcs[i] == w, "the grandparent's halves route to every child in order");
        let c = unsafe { &*(w as *const GInter) };
        assert!(c.parent.get() == if i < 3 { ip(1) } else { ip(5) } && quiet(&c.version), "every internode points to the half that holds it");
        i += 1;
    }
    assert!(lists(p, Some((q, gk[gj])), &ks, &cs, IW + 1), "the parent's halves and the popped separator hold exactly the old entries and the new one");
    let mut i = 0;
    while i < IW + 2 {
        let c = unsafe { &*(cs[i] as *const GLeaf) };
        let par = if i <= p.n.get() as usize { ip(0) } else { ip(4) };
        assert!(c.parent.get() == par && quiet(&c.version), "every child points to the half that holds it");
        i += 1;
    }
    leaf_done(j, leaf(j).parent.get(), v);
    kani::cover!(true);
}
fn run_at(root: &AtomicPtr<u8>, j: usize, g: LockGuard<'_>, k: u64) {
    run(root, j, 4, g, k, false, false)
}
/// another thread splits the parent while this one waits for its lock: the left half's
/// parent is now internode 1
static mut MOVED: crate::G<bool> = crate::G { v: false, magic: 0x5eed_0000_0201_0001 };
fn lock_after_move(v: &NodeVersion) -> LockGuard<'_> {
    unsafe {
        if !MOVED.v && core::ptr::eq(v, &raw const I0.version) {
            MOVED.v = true;
            I0.n.set(1);
            I0.ik[1].set(kani::any());
            L2.parent.set(inter_at(1) as *mut u8);
            L3.parent.set(inter_at(1) as *mut u8);
            let q = &I1;
            q.live.set(true);
            q.n.set(1);
            q.ik[0].set(I0.ik[2].get());
            q.ch[0].set(lp(2));
            q.ch[1].set(lp(3));
        }
    }
    match v.try_lock() {
        Some(g) => g,
        None => {
            assert!(false, "the node is not locked by this thread already");
            loop {}
        }
    }
}
fn moved(j: usize) {
    init();
    unsafe {
        MOVED.v = true;
        NEXT_INTER.v = 4;
    }
    let p = mk(0, 0, IW, [lp(0), lp(1), lp(2), lp(3)]);
    kani::assume(asc(p));
    let k2 = p.ik[2].get();
    let root = AtomicPtr::new(ip(7));
    let (g, k, v) = halves(j, 4);
    unsafe { MOVED.v = false };
    run_at(&root, j, g, k);
    unsafe { assert!(MOVED.v) };
    let q = inter(1);
    let ok = if j == 2 {
        q.ik[0].get() == k && q.ik[1].get() == k2 && q.ch[0].get() == lp(2) && q.ch[1].get() == lp(4) && q.ch[2].get() == lp(3)
    } else {
        q.ik[0].get() == k2 && q.ik[1].get() == k && q.ch[0].get() == lp(2) && q.ch[1].get() == lp(3) && q.ch[2].get() == lp(4)
    };
    assert!(q.n.get() == 2 && ok, "the new half goes to the parent that now holds the left half");
    assert!(p.n.get() == 1 && p.ch[0].get() == lp(0) && p.ch[1].get() == lp(1), "the former parent is left alone");
    assert!(quiet(&p.version) && quiet(&q.version), "locks released");
    leaf_done(j, ip(1), v);
    leaf_done(4, ip(1), v);
    kani::cover!(true);
}
#[cfg(not(feature = "off_seq_split"))]
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(make_split, masstree::tree::split::propagation::Propagation::make_split_leaf)]
#[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
#[kani::stub(core::hint::spin_loop, nop)]
#[kani::stub(masstree::nodeversion::NodeVersion::lock, lock_after_move)]
fn split_parent_moved() {
    moved(2);
    moved(3);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_split"))]
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(make_split, masstree::tree::split::propagation::Propagation::make_split_leaf)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
#[kani::stub(core::hint::spin_loop, nop)]
    fn $n() { $e }
)* } }
h! {
    split_root_leaf = root_leaf(true);
    split_layer_root_leaf = root_leaf(false);
    split_parent_room_1 = { room(1, 0); room(1, 1); };
    split_parent_room_2 = { room(2, 0); room(2, 1); room(2, 2); };
    split_parent_full_root = { full(0, Up::Main); full(1, Up::Main); full(2, Up::Main); full(3, Up::Main); };
    split_parent_full_layer = { full(0, Up::Layer); full(2, Up::Layer); };
    split_cascade_root = { cascade(0, 0, true); cascade(2, 1, true); cascade(3, 3, true); };
    split_cascade_layer = { cascade(1, 2, false); cascade(3, 0, false); };
    split_parent_full_grand = { full(1, Up::Grand); full(3, Up::Grand); };
}

// ---------------------------------------------------------------- splitting one leaf
/// stands for the private `MassTreeGeneric::handle_leaf_split_generic`
pub fn split_leaf<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _leaf: *mut L, _lock: LockGuard<'_>, _pos: usize, _ikey: u64, _guard: &LocalGuard<'_>) -> Result<(), InsertError>
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}
/// stands for the private `MassTreeGeneric::load_root_ptr_generic`
pub fn root_of<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _guard: &LocalGuard<'_>) -> *const u8
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}
#[derive(Clone, Copy, PartialEq)]
enum At {
    Root,
    Layer,
    Parent,
}
fn one_leaf(at: At, pos: usize, neighbour: bool) {
    init();
    unsafe {
        NEXT_INTER.v = 4;
        SPLIT_POS.v = pos;
        MAX_PASSES.v = 9;
    }
    let t: GTree = tree_with_root(match at { At::Root => lp(0), At::Layer => lp(4), At::Parent => ip(0) });
    unsafe {
        NEXT_LEAF.v = 2;
        TRACKED_LEAVES.v = 0;
    }
    let l = leaf(0);
    fill(l, [0, 0, 0], 0);
    l.perm.set(GPerm { n: 3, ord: if pos == 1 { [2, 0, 1] } else { [0, 1, 2] }, frozen: 0 });
    kani::assume(leaf_inv(l));
    match at {
        At::Parent => {
            mk(0, 0, 1, [lp(0), lp(1), core::ptr::null_mut(), core::ptr::null_mut()]);
        }
        _ => l.version.mark_root(),
    }
    if neighbour {
        l.next.set(leaf_at(1));
        leaf(1).prev.set(leaf_at(0));
    }
    let probe = K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF };
    let before = find(l, &probe);
    let v0 = l.version.value();
    let lock = l.version.lock();
    let c = seize::Collector::new();
    let gd = c.enter();
    let r = split_leaf::<GSlot, GLeaf, GAlloc>(&t, leaf_at(0), lock, kani::any(), kani::any(), &gd);
    assert!(r.is_ok(), "a full leaf can be split");
    core::mem::forget(r);
    let n = leaf(2);
    assert!(unsafe { TRACKED_LEAVES.v } == 1, "the new leaf is handed to the allocator once");
    assert!(l.next.get() == leaf_at(2) && !l.marked.get() && n.prev.get() == leaf_at(0), "the halves are linked");
    assert!(n.next.get() == if neighbour { leaf_at(1) } else { core::ptr::null_mut() } && (!neighbour || leaf(1).prev.get() == leaf_at(2)), "the list stays complete");
    let sk = n.ik[0].get();
    let after = if probe.ik >= sk { find(n, &probe) } else { find(l, &probe) };
    assert!(after == before, "a split keeps every key reachable by its range");
    assert!(leaf_inv(l) && leaf_inv(n) && l.perm.get().n + n.perm.get().n == 3 && l.perm.get().n > 0 && n.perm.get().n > 0);
    let par = match at { At::Parent => ip(0), _ => ip(4) };
    leaf_done(0, par, v0);
    leaf_done(2, par, v0);
    match at {
        At::Parent => {
            let p = inter(0);
            assert!(p.n.get() == 2 && p.ik[0].get() == sk && p.ch[0].get() == lp(0) && p.ch[1].get() == lp(2) && p.ch[2].get() == lp(1), "the parent routes by the separator");
        }
        _ => new_root(4, 0, lp(0), lp(2), sk),
    }
    assert!(root_of::<GSlot, GLeaf, GAlloc>(&t, &gd) as *mut u8 == if at == At::Layer { lp(4) } else { par }, "only a split of the tree's root moves the root pointer");
    kani::cover!(!before.is_null() && probe.ik >= sk);
    kani::cover!(!before.is_null() && probe.ik < sk);
    core::mem::forget(gd);
    core::mem::forget(t);
}
macro_rules! hl { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_split"))]
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(root_of, masstree::MassTreeGeneric::load_root_ptr_generic)]
    #[kani::stub(split_leaf, masstree::MassTreeGeneric::handle_leaf_split_generic)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(core::hint::spin_loop, nop)]
    fn $n() { $e }
)* } }
hl! {
    split_leaf_root_1 = one_leaf(At::Root, 1, false);
    split_leaf_root_2 = one_leaf(At::Root, 2, true);
    split_leaf_layer = one_leaf(At::Layer, 1, false);
    split_leaf_parent = one_leaf(At::Parent, 2, true);
}
