//! M09: lookups while another thread modifies the node (rely-guarantee on the real driver).
//!
//! The environment is a writer that executes its script (the sequence of shared writes of
//! one insert, update, split or layer creation, inside its locked section) step by step;
//! before every shared read of the lookup it may take any number of its steps.  The lookup
//! has to return what the key held at some moment.  The descent is used through its
//! contract (proved in seq_walk.rs): it returns the leaf that covers the key or one to the
//! left of it.
use crate::ghost::*;
use crate::seq::*;
use crate::seq_split::nop;
use core::sync::atomic::Ordering;
use masstree::MassTreeGeneric;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::nodeversion::NodeVersion;
use masstree::slot::ValueSlot;
use seize::LocalGuard;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Off,
    /// a new entry in slot 2 appears
    Insert,
    /// slot 0 gets a new value
    Update,
    /// the upper entries move to leaf 1, which is linked behind leaf 0
    Split,
    /// slot 0 becomes a layer: leaf 3
    Layer,
}
pub static mut OP: crate::G<Op> = crate::G { v: Op::Off, magic: 0x5eed_0000_0206_0001 };
/// how far the writer has come; leaf 0 is the node before, leaf 4 after its section
static mut STEP: crate::G<u8> = crate::G { v: 0, magic: 0x5eed_0000_0206_0002 };
/// the version words of leaf 0 before, during and after the section, of leaf 1 while
/// locked and after
static mut WORDS: crate::G<[u32; 5]> = crate::G { v: [0; 5], magic: 0x5eed_0000_0206_0004 };
/// first and last step of the section, last step of all
const BEGIN: u8 = 1;
const END: u8 = 8;
const DONE: u8 = 9;

fn leaf(i: usize) -> &'static GLeaf {
    unsafe { &*leaf_at(i) }
}
fn set_word(l: &GLeaf, w: u32) {
    unsafe { core::ptr::write(&raw const l.version as *mut NodeVersion, NodeVersion::from_value(w)) }
}
/// any number of steps of the writer
fn env() {
    unsafe {
        if STEP.v < DONE {
            let t: u8 = kani::any();
            kani::assume(t >= STEP.v && t <= DONE);
            STEP.v = t;
        }
    }
}
fn on(l: &GLeaf) -> bool {
    unsafe {
        if OP.v == Op::Off {
            return false;
        }
        env();
        core::ptr::eq(l, &raw const L0)
    }
}
fn at(s: u8) -> bool {
    unsafe { STEP.v >= s }
}
fn op() -> Op {
    unsafe { OP.v }
}
/// the writer's steps, field by field (its order of writes; checked by `leaf_order` and
/// the insert harnesses)
pub fn ikey(l: &GLeaf, s: usize) -> u64 {
    if on(l) && op() == Op::Insert && s == 2 && at(2) { leaf(4).ik[s].get() } else { l.ik[s].get() }
}
pub fn bound(l: &GLeaf) -> u64 {
    let _ = on(l);
    let b = l.ik[0].get();
    if op() == Op::Split && unsafe { !WALK.v } {
        // the key is compared with the bound here; the lookup sees a bound above its key,
        // so that the exploration of the move (see `moved`) ends at once
        if KEY >= b {
            moved(&l.version);
        }
        return u64::MAX;
    }
    b
}
pub fn keylenx(l: &GLeaf, s: usize) -> u8 {
    if on(l) {
        match op() {
            Op::Insert if s == 2 && at(3) => return leaf(4).kx[s].get(),
            Op::Layer if s == 0 && at(6) => return LAYER,
            Op::Layer if s == 0 && at(4) => return 0,
            _ => {}
        }
    }
    l.kx[s].get()
}
pub fn value(l: &GLeaf, s: usize) -> *mut u8 {
    if on(l) {
        match op() {
            Op::Insert if s == 2 => return if at(4) { tok(5) } else { core::ptr::null_mut() },
            Op::Update if s == 0 && at(3) => return tok(5),
            Op::Layer if s == 0 && at(7) => return leaf_at(3) as *mut u8,
            Op::Layer if s == 0 && at(2) => return core::ptr::null_mut(),
            // moved entries are taken out one after the other
            Op::Split if s >= leaf(4).perm.get().n as usize && at(3) => return core::ptr::null_mut(),
            Op::Split if s + 1 == W && at(3) => return core::ptr::null_mut(),
            _ => {}
        }
    }
    l.val[s].get()
}
pub fn ksuf_equals(l: &GLeaf, s: usize, suffix: &[u8]) -> bool {
    let gone = on(l) && op() == Op::Layer && s == 0 && at(3);
    !gone && suf_eq(&l.suf(s), suffix)
}
pub fn perm(l: &GLeaf) -> GPerm<W> {
    let mut p = l.perm.get();
    let here = on(l);
    if op() == Op::Split && !here {
        moved(&l.version);
    }
    if here {
        match op() {
            Op::Insert if at(5) => p = leaf(4).perm.get(),
            Op::Split if at(4) => p = leaf(4).perm.get(),
            Op::Split if at(2) => p.frozen = 1,
            _ => {}
        }
    }
    p
}
pub fn next(l: &GLeaf) -> *mut GLeaf {
    if on(l) && op() == Op::Split {
        if at(6) {
            return leaf_at(1);
        }
        if at(5) {
            return masstree::link::mark_ptr(l.next.get());
        }
    }
    l.next.get()
}
fn word0() -> u32 {
    unsafe {
        if at(END) {
            WORDS.v[2]
        } else if at(BEGIN) {
            WORDS.v[1]
        } else {
            WORDS.v[0]
        }
    }
}
fn word1() -> u32 {
    unsafe { if at(DONE) { WORDS.v[4] } else { WORDS.v[3] } }
}
pub unsafe fn load_env<T: Copy, const V: bool>(dst: *const T, _o: Ordering) -> T {
    unsafe {
        if core::mem::size_of::<T>() == 4 && OP.v != Op::Off {
            env();
            let w: u32 = if core::ptr::addr_eq(dst, &raw const L0.version) {
                word0()
            } else if OP.v == Op::Split && core::ptr::addr_eq(dst, &raw const L1.version) {
                word1()
            } else {
                return *dst;
            };
            return core::mem::transmute_copy(&w);
        }
        *dst
    }
}
/// The lookup turns to another leaf.  It has to be a linked right neighbour that starts at
/// or below the key; from there on it is the same lookup again (induction over the chain),
/// so this is where the exploration of a split ends.
fn moved(l: *const NodeVersion) {
    unsafe {
        assert!(
            (core::ptr::addr_eq(l, &raw const L1.version) && at(6) && KEY >= L1.ik[0].get())
                || (core::ptr::addr_eq(l, &raw const L2.version) && L2.live.get() && KEY >= L2.ik[0].get()),
            "a lookup moves only to a linked right neighbour that starts at or below the key"
        );
    }
    kani::assume(false);
}
/// contract of `stable()` (proved by c_version::version_stable): some later clean word
pub fn stable_env(v: &NodeVersion) -> u32 {
    unsafe {
        if OP.v == Op::Off {
            return v.value();
        }
        env();
        if core::ptr::eq(v, &raw const L0.version) {
            // waits until the writer has finished
            if STEP.v >= BEGIN && STEP.v < END {
                STEP.v = END;
            }
            return word0();
        }
        if OP.v == Op::Split && WALK.v {
            if core::ptr::addr_eq(v, &raw const L1.version) {
                STEP.v = DONE;
                return word1();
            }
            return v.value();
        }
        if OP.v == Op::Split {
            moved(v);
        }
        v.value()
    }
}
pub fn never(_v: &NodeVersion) -> bool {
    false
}
pub fn reach_left<S, L, A>(_t: &MassTreeGeneric<S, L, A>, start: *const u8, key: &Key<'_>, _sub: bool, _g: &LocalGuard<'_>) -> *mut L
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    env();
    if op() == Op::Layer && start == leaf_at(3) as *const u8 {
        assert!(key.shift_count() == 1, "a layer is searched with the next chunk");
        return leaf_at(3) as *mut L;
    }
    assert!(start == leaf_at(0) as *const u8 && key.shift_count() == 0);
    leaf_at(0) as *mut L
}
/// contract of `advance_to_key_generic` (proved by seq_walk.rs): this leaf or one to its
/// right, not beyond the one that covers the key, with a clean word of that leaf
pub fn advance_left<'a, S, L, A>(_t: &'a MassTreeGeneric<S, L, A>, l: &'a L, key: &Key<'_>, _v: u32, _g: &LocalGuard<'_>) -> (&'a L, u32)
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    let g = unsafe { &*(l as *const L as *const GLeaf) };
    let w = stable_env(&g.version);
    if op() == Op::Split && core::ptr::eq(g, leaf_at(0)) && at(6) && key.ikey() >= leaf(1).ik[0].get() && kani::any() {
        moved(&leaf(1).version);
    }
    (l, w)
}
// ---------------------------------------------------------------- for seq_walk.rs
/// the B-link walk itself is explored (not cut at a move)
static mut WALK: crate::G<bool> = crate::G { v: false, magic: 0x5eed_0000_0206_0005 };
pub fn walk_start(sep: u64) -> GTree {
    let t = start(Op::Split, 0);
    leaf(1).ik[0].set(sep);
    leaf(1).live.set(true);
    leaf(4).perm.set(leaf(0).perm.get());
    t
}
/// a clean word of leaf 0 the caller may hold
pub fn any_seen() -> u32 {
    env();
    unsafe { if at(END) && kani::any() { WORDS.v[2] } else { WORDS.v[0] } }
}
pub fn now() -> u8 {
    unsafe { STEP.v }
}
pub fn walk_on(on: bool) {
    unsafe {
        WALK.v = on;
        OP.v = if on { Op::Split } else { Op::Off };
    }
}
/// `w` is a clean word `l` had at or after step `s`
pub fn seen_since(l: &GLeaf, w: u32, s: u8) -> bool {
    unsafe {
        if core::ptr::eq(l, leaf(0)) { (s < BEGIN && w == WORDS.v[0]) || (at(END) && w == WORDS.v[2]) } else { at(DONE) && w == WORDS.v[4] }
    }
}
/// contract of `wait_for_split`: returns when the next pointer is no longer marked
pub fn wait_split(_l: &GLeaf) {
    unsafe {
        if OP.v == Op::Split && STEP.v < 6 {
            STEP.v = 6;
        }
        env();
    }
}
const KEY: u64 = 0x4142434445464748;

fn start(op: Op, n: u8) -> GTree {
    init();
    let t = tree_with_root(leaf_at(0) as *mut u8);
    let l = leaf(0);
    l.version.mark_root();
    let mut i = 0;
    while i < n as usize {
        l.ik[i].set(kani::any());
        l.kx[i].set(8);
        l.val[i].set(tok(i));
        l.live.set(true);
        i += 1;
    }
    l.perm.set(GPerm { n, ord: [0, 1, 2], frozen: 0 });
    // the words of a write section, as the real code produces them
    let a = NodeVersion::from_value(l.version.value());
    let before = a.value();
    let mut g = a.try_lock().unwrap();
    if op == Op::Split {
        g.mark_split();
    } else {
        g.mark_insert();
    }
    let during = a.value();
    let r = NodeVersion::new_for_split(&a);
    let locked = r.value();
    drop(g);
    let after = a.value();
    r.unlock_for_split();
    unsafe {
        WORDS.v = [before, during, after, locked, r.value()];
        STEP.v = 0;
        MAX_SHIFT.v = (op == Op::Layer) as usize;
        MAX_VISITS.v = 9;
    }
    t
}
fn finish<const REF: bool>(o: Op, t: &GTree, key: &[u8], a: *mut u8, b: *mut u8) -> *mut u8 {
    let g = t.guard();
    unsafe { OP.v = o };
    let r = if REF {
        match t.get_ref(key, &g) {
            Some(v) => v as *const GVal as *mut u8,
            None => core::ptr::null_mut(),
        }
    } else {
        let r = t.get_with_guard(key, &g);
        let p = match &r {
            Some(o) => tok(o.0 as usize),
            None => core::ptr::null_mut(),
        };
        core::mem::forget(r);
        p
    };
    unsafe { OP.v = Op::Off };
    assert!(r == a || r == b, "a lookup returns what the key held at some moment of it");
    r
}
fn covers(a: *mut u8, b: *mut u8, r: *mut u8) {
    kani::cover!(r == a);
    kani::cover!(r == b);
}
/// another key, or this one, is inserted
fn race_insert<const REF: bool>(pos: usize, own: bool) {
    let t = start(Op::Insert, 2);
    let (l, a) = (leaf(0), leaf(4));
    let kb = KEY.to_be_bytes();
    let k = k1(&kb, 0);
    let nk = K1 { ik: if own { KEY } else { kani::any() }, kx: 8, suf: NOSUF };
    kani::assume(leaf_inv(l));
    kani::assume((pos == 0 || ent(l, pos - 1).ik < nk.ik) && (pos >= 2 || nk.ik < ent(l, pos).ik));
    a.ik[2].set(nk.ik);
    a.kx[2].set(nk.kx);
    a.perm.set(GPerm { n: 3, ord: if pos == 0 { [2, 0, 1] } else { [0, 2, 1] }, frozen: 0 });
    let before = find(l, &k);
    let after = if same(&k, &nk) { tok(5) } else { before };
    covers(before, after, finish::<REF>(Op::Insert, &t, &kb, before, after));
    core::mem::forget(t);
}
fn race_update<const REF: bool>() {
    let t = start(Op::Update, 2);
    let l = leaf(0);
    let kb = KEY.to_be_bytes();
    let k = k1(&kb, 0);
    kani::assume(leaf_inv(l));
    let before = find(l, &k);
    let after = if before == tok(0) { tok(5) } else { before };
    covers(before, after, finish::<REF>(Op::Update, &t, &kb, before, after));
    core::mem::forget(t);
}
/// the leaf is split at `sep`; `old`: it already has a right neighbour that starts there
fn race_split<const REF: bool>(pos: usize, sep: u64, old: u64) -> (*mut u8, *mut u8) {
    let t = start(Op::Split, 3);
    let (l, r, m) = (leaf(0), leaf(1), leaf(2));
    let kb = KEY.to_be_bytes();
    let k = k1(&kb, 0);
    l.ik[pos].set(sep);
    kani::assume(leaf_inv(l) && l.ik[pos - 1].get() < sep);
    leaf(4).perm.set(GPerm { n: pos as u8, ord: [0, 1, 2], frozen: 0 });
    let mut i = pos;
    while i < W {
        r.ik[i - pos].set(l.ik[i].get());
        r.kx[i - pos].set(l.kx[i].get());
        r.val[i - pos].set(l.val[i].get());
        i += 1;
    }
    r.live.set(true);
    r.perm.set(GPerm { n: (W - pos) as u8, ord: [0, 1, 2], frozen: 0 });
    if old != 0 {
        m.ik[0].set(old);
        m.kx[0].set(8);
        m.val[0].set(tok(3));
        m.live.set(true);
        m.perm.set(GPerm { n: 1, ord: [0, 1, 2], frozen: 0 });
        kani::assume(ent(l, 2).ik < old);
        l.next.set(leaf_at(2));
        r.next.set(leaf_at(2));
    }
    let exp = if old != 0 && KEY >= old { find(m, &k) } else { find(l, &k) };
    // (a lookup that returns has looked at leaf 0 only)
    let r = finish::<REF>(Op::Split, &t, &kb, exp, exp);
    core::mem::forget(t);
    (exp, r)
}
fn race_split_c<const REF: bool>(pos: usize, sep: u64) {
    let (e, r) = race_split::<REF>(pos, sep, 0);
    covers(e, e, r);
}
/// the entry with the key's chunk becomes a layer
fn race_layer<const REF: bool>() {
    let t = start(Op::Layer, 2);
    let (l, m) = (leaf(0), leaf(3));
    let mut kb: [u8; 12] = kani::any();
    let cb = KEY.to_be_bytes();
    kb[0] = cb[0];
    kb[1] = cb[1];
    kb[2] = cb[2];
    kb[3] = cb[3];
    kb[4] = cb[4];
    kb[5] = cb[5];
    kb[6] = cb[6];
    kb[7] = cb[7];
    let (k, k2) = (k1(&kb, 0), k1(&kb, 8));
    l.ik[0].set(KEY);
    l.kx[0].set(KSUF);
    let s = GSuf { len: 4, a: kani::any::<u32>() as u64 * (1 << 32), b: 0, c: 0 };
    l.set_suf(0, s);
    kani::assume(leaf_inv(l));
    // the layer holds the moved entry and a new one
    let put = |i: usize, ik: u64, v: usize| {
        m.ik[i].set(ik);
        m.kx[i].set(4);
        m.val[i].set(tok(v));
    };
    put(0, s.a, 0);
    put(1, kani::any(), 5);
    m.perm.set(GPerm { n: 2, ord: [0, 1, 2], frozen: 0 });
    m.live.set(true);
    m.version.mark_root();
    kani::assume(leaf_inv(m));
    let before = find(l, &k);
    let after = find(m, &k2);
    covers(before, after, finish::<REF>(Op::Layer, &t, &kb, before, after));
    core::mem::forget(t);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_rg_get"))]
    #[kani::proof]
    #[kani::unwind(4)]
    #[kani::stub(masstree::MassTreeGeneric::reach_leaf_concurrent_generic, reach_left)]
    #[kani::stub(masstree::MassTreeGeneric::advance_to_key_generic, advance_left)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(core::hint::spin_loop, nop)]
    #[kani::stub(core::sync::atomic::atomic_load, load_env)]
    #[kani::stub(masstree::nodeversion::NodeVersion::stable, stable_env)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_deleted, never)]
    fn $n() { $e }
)* } }
h! {
    race_insert_0 = race_insert::<false>(0, false);
    race_insert_1 = race_insert::<false>(1, false);
    race_insert_own = race_insert::<false>(1, true);
    race_update_get = race_update::<false>();
    race_split_stay = race_split_c::<false>(1, KEY + 1);
    race_split_move = race_split_c::<false>(1, KEY);
    race_split_move_2 = race_split_c::<false>(2, KEY - 1);
    race_split_next = { race_split::<false>(1, KEY - 2, KEY); };
    race_layer_get = race_layer::<false>();
    race_ref_insert_0 = race_insert::<true>(0, false);
    race_ref_insert_own = race_insert::<true>(1, true);
    race_ref_update = race_update::<true>();
    race_ref_split_stay = race_split_c::<true>(1, KEY + 1);
    race_ref_split_move = race_split_c::<true>(1, KEY);
    race_ref_split_next = { race_split::<true>(1, KEY - 2, KEY); };
    race_ref_layer = race_layer::<true>();
}
