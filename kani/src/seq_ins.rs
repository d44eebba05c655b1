//! Insert through the driver's loop: conflicts, full leaves, layers, B-links, races.
//! `create_layer` and `handle_leaf_split` are used through their contracts (proved in
//! seq_create.rs and seq_split.rs).
use crate::ghost::*;
use crate::seq::*;
use crate::seq_split::nop;
use masstree::MassTreeGeneric;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::nodeversion::{LockGuard, NodeVersion};
use masstree::slot::ValueSlot;
use masstree::tree::InsertError;
use seize::LocalGuard;

fn leaf(i: usize) -> &'static GLeaf {
    unsafe { &*leaf_at(i) }
}
static mut CREATED: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0205_0001 };
static mut SPLITS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0205_0002 };
static mut RACE: crate::G<u8> = crate::G { v: 0, magic: 0x5eed_0000_0205_0003 };

/// contract of `create_layer_concurrent_generic`
pub unsafe fn create_spec<S, L, A>(_t: &MassTreeGeneric<S, L, A>, l: &L, slot: usize, key: &mut Key<'_>, v: S::Output, _g: &LocalGuard<'_>) -> *mut u8
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    let l = unsafe { &*(l as *const L as *const GLeaf) };
    assert!(slot < W && l.version.is_locked() && l.version.is_dirty(), "requires: the leaf is locked and marked");
    assert!(l.kx[slot].get() == KSUF && l.ik[slot].get() == key.ikey() && key.has_suffix(), "requires: both keys share the chunk and go on");
    assert!(!suf_eq(&l.suf(slot), key.suffix()), "requires: the keys differ");
    let id = id_of(l.val[slot].get()) as usize;
    let raw = S::output_consume_to_raw(v);
    assert!(raw == tok(5));
    // ensures: the top of the layer, either a link of a chain or the leaf with both entries
    let m = leaf(3);
    let chain: bool = kani::any();
    m.ik[0].set(kani::any());
    m.ik[1].set(kani::any());
    m.kx[0].set(if chain { LAYER } else { KSUF });
    m.kx[1].set(8);
    m.val[0].set(if chain { leaf_at(2) as *mut u8 } else { tok(id) });
    m.val[1].set(if chain { core::ptr::null_mut() } else { raw });
    m.perm.set(GPerm::make_sorted(if chain { 1 } else { 2 }));
    m.live.set(true);
    m.version.mark_root();
    unsafe {
        RAWS.v[id] += 1;
        CREATED.v += 1;
        leaf_at(3) as *mut u8
    }
}
/// moves the entries at positions pos.. of leaf 0 (order 0,1,2) to leaf 1 and hangs both
/// below internode 0
fn split_effect(pos: usize) {
    let (l, r) = (leaf(0), leaf(1));
    let n = l.perm.get().n as usize;
    let mut i = pos;
    while i < n {
        let s = l.perm.get().ord[i] as usize;
        r.ik[i - pos].set(l.ik[s].get());
        r.kx[i - pos].set(l.kx[s].get());
        r.val[i - pos].set(l.val[s].get());
        r.set_suf(i - pos, l.suf(s));
        l.val[s].set(core::ptr::null_mut());
        i += 1;
    }
    r.perm.set(GPerm::make_sorted(n - pos));
    r.live.set(true);
    let mut p = l.perm.get();
    p.n = pos as u8;
    l.perm.set(p);
    r.next.set(l.next.get());
    l.next.set(leaf_at(1));
    r.prev.set(leaf_at(0));
    let q = unsafe { &*inter_at(0) };
    q.n.set(1);
    q.ik[0].set(r.ik[0].get());
    q.ch[0].set(leaf_at(0) as *mut u8);
    q.ch[1].set(leaf_at(1) as *mut u8);
    q.version.mark_root();
    l.parent.set(inter_at(0) as *mut u8);
    r.parent.set(inter_at(0) as *mut u8);
}
/// contract of `handle_leaf_split_generic`
pub fn split_spec<S, L, A>(_t: &MassTreeGeneric<S, L, A>, l: *mut L, lock: LockGuard<'_>, pos: usize, _ikey: u64, _g: &LocalGuard<'_>) -> Result<(), InsertError>
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    assert!(l as *mut GLeaf == leaf_at(0) && leaf(0).version.is_locked(), "requires: the leaf is locked");
    let n = leaf(0).perm.get().n as usize;
    assert!(pos <= n && n > 1, "requires: an insert position");
    assert!(unsafe { SPLITS.v } == 0 && n == W, "a leaf is split only when it is full");
    unsafe { SPLITS.v += 1 };
    let mut lock = lock;
    lock.mark_split();
    drop(lock);
    split_effect(unsafe { SPLIT_POS.v });
    Ok(())
}
/// contract of `reach_leaf_concurrent_generic` followed by the B-link walk: called with the
/// current top of the current layer it returns the leaf that covers the key (proved by
/// seq_walk.rs); one call per pass of the insert loop, PLAN is the covering leaf of each pass
static mut PLAN: crate::G<[u8; 3]> = crate::G { v: [0; 3], magic: 0x5eed_0000_0205_0006 };
static mut TOPS: crate::G<[*mut u8; 3]> = crate::G { v: [core::ptr::null_mut(); 3], magic: 0x5eed_0000_0205_0007 };
static mut CHUNK: crate::G<[u8; 3]> = crate::G { v: [0; 3], magic: 0x5eed_0000_0205_0008 };
static mut PASS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0205_0009 };
pub fn reach_spec<S, L, A>(_t: &MassTreeGeneric<S, L, A>, start: *const u8, key: &Key<'_>, _sub: bool, _g: &LocalGuard<'_>) -> *mut L
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unsafe {
        let p = PASS.v;
        // the passes are unrolled to MAX_LOCKS; more passes are not explored
        kani::assume(p < MAX_LOCKS.v);
        PASS.v = p + 1;
        assert!(start == TOPS.v[p] as *const u8, "the walk starts at the current top of the key's layer");
        assert!(key.shift_count() == CHUNK.v[p] as usize, "with the chunk of that layer");
        leaf_at(PLAN.v[p] as usize) as *mut L
    }
}
pub fn advance_spec<'a, S, L, A>(_t: &'a MassTreeGeneric<S, L, A>, l: &'a L, _key: &Key<'_>, _g: &LocalGuard<'_>) -> (&'a L, bool)
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    (l, false)
}
fn plan(leaves: [u8; 3], tops: [*mut u8; 3], chunk: [u8; 3]) {
    unsafe {
        PLAN.v = leaves;
        TOPS.v = tops;
        CHUNK.v = chunk;
    }
}
fn entry(l: &GLeaf, i: usize, kx: u8, v: usize) {
    l.ik[i].set(kani::any());
    l.kx[i].set(keylen(kx));
    l.set_suf(i, if kx == KSUF { any_suf() } else { NOSUF });
    l.val[i].set(tok(v));
    unsafe { RAWS.v[v] = 1 };
    l.live.set(true);
}
fn start(passes: usize, shift: usize) -> GTree {
    init();
    unsafe {
        seize::EAGER.v = true;
        MAX_PASSES.v = 9;
        LOCKS.v = 0;
        PASS.v = 0;
        plan([0; 3], [leaf_at(0) as *mut u8; 3], [0; 3]);
        MAX_LOCKS.v = passes;
        MAX_SHIFT.v = shift;
        CREATED.v = 0;
        SPLITS.v = 0;
        RACE.v = 0;
    }
    let t = tree_with_root(leaf_at(0) as *mut u8);
    unsafe { NEXT_LEAF.v = 4 };
    leaf(0).version.mark_root();
    t
}
fn insert(t: &GTree, key: &[u8]) -> Option<GOut> {
    let g = t.guard();
    match t.insert_with_guard(key, GVal(5), &g) {
        Ok(r) => r,
        Err(_) => {
            assert!(false, "insert of a legal key succeeds");
            None
        }
    }
}
/// ownership after an insert that replaced `old` (or nothing)
fn owned(old: *mut u8, extra: *mut u8) {
    unsafe {
        assert!(OUTS.v[5] == 0 && RAWS.v[5] == 1, "the tree owns the new value once");
        macro_rules! one { ($($i:literal)*) => { $(
            if RAWS.v[$i] != 0 || FREED.v[$i] != 0 {
                let gone = old == tok($i);
                let moved = extra == tok($i);
                assert!(RAWS.v[$i] == !gone as i8 && FREED.v[$i] == (gone | moved) as i8 && OUTS.v[$i] == gone as i8, "old value: handed back once, retired once");
            }
        )* } }
        one!(0 1 2 3 4);
    }
}
// ---------------------------------------------------------------- suffix conflict
fn conflict(n: u8, ord: [u8; W], at: usize) {
    let t = start(1, 0);
    let l = leaf(0);
    let mut i = 0;
    while i < n as usize {
        entry(l, ord[i] as usize, if i == at { KSUF } else { 0 }, ord[i] as usize);
        i += 1;
    }
    l.perm.set(GPerm { n, ord, frozen: 0 });
    kani::assume(leaf_inv(l));
    let kb: [u8; 11] = kani::any();
    let k = k1(&kb, 0);
    let s = ord[at] as usize;
    kani::assume(l.ik[s].get() == k.ik && !suf_same(&l.suf(s), &k.suf));
    let probe = any_k1();
    let before = find(l, &probe);
    let oldk = ent(l, at);
    let c0 = t.len();
    let r = insert(&t, &kb);
    assert!(r.is_none() && t.len() == c0 + 1, "the key is new");
    assert!(unsafe { CREATED.v } == 1);
    assert!(l.perm.get() == GPerm { n, ord, frozen: 0 } && l.ik[s].get() == k.ik && l.kx[s].get() == LAYER && l.val[s].get() == leaf_at(3) as *mut u8, "the conflicting entry becomes the layer");
    let after = find(l, &probe);
    assert!(after == if same(&probe, &oldk) { core::ptr::null_mut() } else { before } || probe.kx >= LAYER, "every other entry is kept");
    assert!(quiet(&l.version) && l.version.is_root(), "lock released");
    owned(core::ptr::null_mut(), tok(s));
    kani::cover!(n == 1 || !after.is_null());
    core::mem::forget(t);
}
// ---------------------------------------------------------------- full leaf
/// the key's chunk is `KEY`; the separator is below, at or above it
const KEY: u64 = 0x4142434445464748;
fn full(pos: usize, sep: u64) {
    let t = start(2, 0);
    unsafe { SPLIT_POS.v = pos };
    plan([0, (KEY >= sep) as u8, 0], [leaf_at(0) as *mut u8, inter_at(0) as *mut u8, inter_at(0) as *mut u8], [0; 3]);
    let (l, m) = (leaf(0), leaf(1));
    let mut i = 0;
    while i < W {
        entry(l, i, 0, i);
        i += 1;
    }
    l.perm.set(GPerm::make_sorted(3));
    l.ik[pos].set(sep);
    kani::assume(leaf_inv(l) && l.ik[pos - 1].get() != sep);
    let kb: [u8; 8] = KEY.to_be_bytes();
    let k = k1(&kb, 0);
    let probe = K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF };
    let (before, old) = (find(l, &probe), find(l, &k));
    let sk = sep;
    let c0 = t.len();
    let r = insert(&t, &kb);
    let split = unsafe { SPLITS.v } == 1;
    assert!(split == old.is_null(), "a full leaf is split for a new key only");
    assert!(r.is_some() == !old.is_null() && t.len() == c0 + old.is_null() as usize);
    let after = if split && probe.ik >= sk { find(m, &probe) } else { find(l, &probe) };
    assert!(after == if same(&probe, &k) { tok(5) } else { before }, "after a split the key goes to the half that covers it, all others are kept");
    assert!(leaf_inv(l) && (!split || leaf_inv(m)) && quiet(&l.version) && quiet(&m.version));
    owned(old, core::ptr::null_mut());
    kani::cover!(split);
    kani::cover!(!split || (pos == 2 && sep < KEY));
    core::mem::forget(r);
    core::mem::forget(t);
}
// ---------------------------------------------------------------- existing layer
/// the key goes on below a layer entry; `sep` != 0: the layer is split there
fn into_layer(sep: u64, len: usize) {
    let promoted = sep != 0;
    let t = start(2, 1);
    let (l, m) = (leaf(0), leaf(1));
    entry(l, 0, 0, 0);
    entry(l, 1, 0, 1);
    l.kx[1].set(LAYER);
    l.val[1].set(leaf_at(1) as *mut u8);
    unsafe { RAWS.v[1] = 0 };
    l.perm.set(GPerm { n: 2, ord: [0, 1, 2], frozen: 0 });
    entry(m, 0, 0, 2);
    m.perm.set(GPerm { n: 1, ord: [0, 1, 2], frozen: 0 });
    if promoted {
        // the layer's first leaf has been split: internode 0 is the layer's root now
        let (c, q) = (leaf(2), unsafe { &*inter_at(0) });
        entry(c, 0, 0, 3);
        c.perm.set(GPerm { n: 1, ord: [0, 1, 2], frozen: 0 });
        c.ik[0].set(sep);
        kani::assume(m.ik[0].get() < sep);
        q.n.set(1);
        q.ik[0].set(c.ik[0].get());
        q.ch[0].set(leaf_at(1) as *mut u8);
        q.ch[1].set(leaf_at(2) as *mut u8);
        q.version.mark_root();
        m.parent.set(inter_at(0) as *mut u8);
        c.parent.set(inter_at(0) as *mut u8);
        m.next.set(leaf_at(2));
        c.prev.set(leaf_at(1));
    } else {
        m.version.mark_root();
    }
    let top = if promoted { inter_at(0) as *mut u8 } else { leaf_at(1) as *mut u8 };
    plan([0, 1 + (promoted && KEY >= sep) as u8, 0], [leaf_at(0) as *mut u8, top, top], [0, 1, 1]);
    let mut kb: [u8; 16] = kani::any();
    let cb = KEY.to_be_bytes();
    let mut i = 0;
    while i < 8 {
        kb[i] = cb[i];
        if promoted {
            kb[8 + i] = cb[i];
        }
        i += 1;
    }
    l.ik[1].set(KEY);
    kani::assume(leaf_inv(l));
    let key = &kb[..len];
    let k = k1(key, 0);
    let down = true;
    let (p0, p1) = (K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF }, K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF });
    let k2 = if len > 8 { k1(key, 8) } else { k };
    let c = leaf(2);
    let at2 = |x: u64| promoted && x >= c.ik[0].get();
    let f1 = |x: &K1| if at2(x.ik) { find(c, x) } else { find(m, x) };
    let (b0, b1) = (find(l, &p0), f1(&p1));
    let old = if down { f1(&k2) } else { find(l, &k) };
    let c0 = t.len();
    let r = insert(&t, key);
    assert!(r.is_some() == !old.is_null() && t.len() == c0 + old.is_null() as usize, "insert reports whether the key was present");
    assert!(find(l, &p0) == if !down && same(&p0, &k) { tok(5) } else { b0 }, "only a key of this layer changes this layer");
    assert!(f1(&p1) == if down && same(&p1, &k2) { tok(5) } else { b1 }, "a key below the chunk goes to the layer, under its next chunk");
    assert!(l.kx[1].get() == LAYER && l.val[1].get() == leaf_at(1) as *mut u8, "the layer stays in place");
    assert!(leaf_inv(l) && leaf_inv(m) && leaf_inv(c) && quiet(&l.version) && quiet(&m.version) && quiet(&c.version));
    owned(old, core::ptr::null_mut());
    kani::cover!(!old.is_null());
    kani::cover!(old.is_null());
    core::mem::forget(r);
    core::mem::forget(t);
}
// ---------------------------------------------------------------- B-link
/// `race`: the leaf is split by another thread while this one waits for its lock
fn blink(race: bool, bound: u64) {
    let t = start(if race { 2 } else { 1 }, 0);
    let (l, m) = (leaf(0), leaf(1));
    entry(l, 0, 0, 0);
    entry(l, 1, 0, 1);
    l.perm.set(GPerm { n: 2, ord: [0, 1, 2], frozen: 0 });
    if race {
        l.ik[1].set(bound);
        kani::assume(l.ik[0].get() < bound);
        unsafe { RACE.v = 1 };
        plan([0, (KEY >= bound) as u8, 0], [leaf_at(0) as *mut u8, inter_at(0) as *mut u8, inter_at(0) as *mut u8], [0; 3]);
    } else {
        plan([(KEY >= bound) as u8, 0, 0], [leaf_at(0) as *mut u8; 3], [0; 3]);
        entry(m, 0, 0, 2);
        m.perm.set(GPerm { n: 1, ord: [0, 1, 2], frozen: 0 });
        m.ik[0].set(bound);
        kani::assume(leaf_inv(l) && l.ik[1].get() < bound);
        l.next.set(leaf_at(1));
        m.prev.set(leaf_at(0));
    }
    let kb: [u8; 8] = KEY.to_be_bytes();
    let k = k1(&kb, 0);
    let probe = K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF };
    let f = |x: &K1| if !race && x.ik >= bound { find(m, x) } else { find(l, x) };
    let (before, old) = (f(&probe), f(&k));
    let r = insert(&t, &kb);
    let f = |x: &K1| if x.ik >= bound { find(m, x) } else { find(l, x) };
    assert!(r.is_some() == !old.is_null());
    assert!(f(&probe) == if same(&probe, &k) { tok(5) } else { before }, "the key goes to the leaf that covers it");
    assert!(leaf_inv(l) && leaf_inv(m) && quiet(&l.version) && quiet(&m.version));
    assert!(m.ik[0].get() == bound);
    owned(old, core::ptr::null_mut());
    kani::cover!(old.is_null());
    kani::cover!(!old.is_null() || (race && bound != KEY));
    core::mem::forget(r);
    core::mem::forget(t);
}
/// leaf locks taken so far: one per pass of the insert loop; later passes are cut
static mut LOCKS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0205_0004 };
static mut MAX_LOCKS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0205_0005 };
fn lock_race(v: &NodeVersion) -> LockGuard<'_> {
    unsafe {
        LOCKS.v += 1;
        if LOCKS.v > MAX_LOCKS.v {
            kani::assume(false);
        }
        if RACE.v == 1 && core::ptr::eq(v, &raw const L0.version) {
            RACE.v = 2;
            match v.try_lock() {
                Some(mut g) => {
                    g.mark_split();
                    drop(g);
                }
                None => assert!(false),
            }
            split_effect(1);
        }
    }
    match v.try_lock() {
        Some(g) => g,
        None => {
            assert!(false, "a lock is taken once");
            loop {}
        }
    }
}
// ---------------------------------------------------------------- slot 0 holds the bound
fn slot0() {
    let t = start(1, 0);
    let (l, m) = (leaf(0), leaf(1));
    // the leaf right of leaf 1: its slot 0 is free but still holds the lower bound
    entry(l, 1, 0, 0);
    l.perm.set(GPerm { n: 1, ord: [1, 2, 0], frozen: 0 });
    l.ik[0].set(kani::any());
    kani::assume(l.ik[0].get() <= l.ik[1].get());
    l.prev.set(leaf_at(1));
    m.live.set(true);
    m.next.set(leaf_at(0));
    let bound = l.ik[0].get();
    let kb: [u8; 8] = kani::any();
    let k = k1(&kb, 0);
    kani::assume(k.ik >= bound);
    let probe = K1 { ik: kani::any(), kx: keylen(0), suf: NOSUF };
    let (before, old) = (find(l, &probe), find(l, &k));
    let r = insert(&t, &kb);
    assert!(r.is_some() == !old.is_null());
    assert!(find(l, &probe) == if same(&probe, &k) { tok(5) } else { before }, "insert changes exactly the inserted key");
    assert!(l.ik[0].get() == bound, "the lower bound of a linked leaf never changes");
    assert!(leaf_inv(l) && quiet(&l.version));
    kani::cover!(r.is_none() && k.ik != bound);
    kani::cover!(r.is_none() && k.ik == bound);
    core::mem::forget(r);
    core::mem::forget(t);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_ins"))]
    #[kani::proof]
    #[kani::unwind(9)]
    #[kani::stub(masstree::MassTreeGeneric::reach_leaf_concurrent_generic, reach_spec)]
    #[kani::stub(masstree::MassTreeGeneric::advance_to_key_by_bound_generic, advance_spec)]
    #[kani::stub(masstree::MassTreeGeneric::create_layer_concurrent_generic, create_spec)]
    #[kani::stub(masstree::MassTreeGeneric::handle_leaf_split_generic, split_spec)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(core::hint::spin_loop, nop)]
    #[kani::stub(masstree::nodeversion::NodeVersion::lock, lock_race)]
    fn $n() { $e }
)* } }
h! {
    ins_conflict_1 = conflict(1, [1, 0, 2], 0);
    ins_conflict_3 = { conflict(3, [2, 0, 1], 1); };
    ins_full_left = full(1, KEY + 1);
    ins_full_left_2 = full(2, KEY + 1);
    ins_full_right = full(1, KEY - 1);
    ins_full_right_2 = full(2, KEY - 1);
    ins_full_at_2 = full(2, KEY);
    ins_full_at = full(1, KEY);
    ins_layer = into_layer(0, 12);
    ins_layer_full_chunk = into_layer(0, 16);
    ins_layer_promoted_left = into_layer(KEY + 1, 16);
    ins_layer_promoted_right = into_layer(KEY, 16);
    ins_blink_left = blink(false, KEY + 1);
    ins_blink_at = blink(false, KEY);
    ins_race_left = blink(true, KEY + 1);
    ins_race_right = blink(true, KEY - 1);
    ins_race_at = blink(true, KEY);
    ins_slot0 = slot0();
}
