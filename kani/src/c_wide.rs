//! Lookup and insert of the real tree driver on the real `LeafNode24` at its real width (24
//! slots, every number of entries, every slot order), in a tree of one leaf.
//!
//! One arbitrary entry is followed (the watched entry: any position, any slot, any content);
//! every other entry is an arbitrary one that a valid leaf may hold besides it: chunks are
//! sorted and no other entry is the key asked for.  The slot accessors answer from that view
//! (they are proved against their own cells by `c_leaf::leaf_frame`); the permutation word,
//! the version word, the links and the root pointer are the real ones.
use masstree::MassTreeGeneric;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::leaf24::LeafNode24;
use masstree::nodeversion::NodeVersion;
use masstree::permuter24::Permuter24;
use masstree::slot::ValueSlot;
use seize::LocalGuard;

const N: usize = 24;
const KSUF: u8 = 64;
const LAYER: u8 = 128;

// ---------------------------------------------------------------- values
// 0: the watched entry's value, 1: the inserted one
static mut VAL0: crate::G<u64> = crate::G { v: 0, magic: 0x5eed0000_03000001 };
static mut VAL1: crate::G<u64> = crate::G { v: 1, magic: 0x5eed0000_03000002 };
static mut RAWS: crate::G<[i8; 2]> = crate::G { v: [1, 0], magic: 0x5eed0000_03000003 };
static mut OUTS: crate::G<[i8; 2]> = crate::G { v: [0; 2], magic: 0x5eed0000_03000004 };
static mut FREED: crate::G<[i8; 2]> = crate::G { v: [0; 2], magic: 0x5eed0000_03000005 };
fn tok(id: u8) -> *mut u8 {
    unsafe { if id == 0 { &raw mut VAL0.v as *mut u8 } else { &raw mut VAL1.v as *mut u8 } }
}
fn id_of(p: *const u8) -> u8 {
    if p == tok(0) {
        0
    } else {
        assert!(p == tok(1), "contract: only the value of the key asked for is used");
        1
    }
}
pub struct Out(u8);
impl Clone for Out {
    fn clone(&self) -> Self {
        unsafe { OUTS.v[self.0 as usize] += 1 };
        Out(self.0)
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        unsafe { OUTS.v[self.0 as usize] -= 1 };
    }
}
#[derive(Default)]
pub struct VS;
impl ValueSlot for VS {
    type Value = u64;
    type Output = Out;
    fn into_output(_v: u64) -> Out {
        unsafe { OUTS.v[1] += 1 };
        Out(1)
    }
    fn from_output(_o: Out) -> Self {
        VS
    }
    fn is_empty(&self) -> bool {
        true
    }
    fn is_value(&self) -> bool {
        false
    }
    fn is_layer(&self) -> bool {
        false
    }
    fn try_get(&self) -> Option<Out> {
        None
    }
    fn try_layer(&self) -> Option<*mut u8> {
        None
    }
    fn layer(_p: *mut u8) -> Self {
        VS
    }
    fn set_layer(&mut self, _p: *mut u8) {}
    fn swap_output(&mut self, _o: Out) -> Option<Out> {
        None
    }
    unsafe fn cleanup_value_ptr(ptr: *mut u8) {
        let id = id_of(ptr) as usize;
        unsafe {
            assert!(seize::RECLAIMING.v, "a shared value is released only through deferred reclamation");
            assert!(E.v.wv != ptr, "a value is unlinked before it is retired");
            RAWS.v[id] -= 1;
            FREED.v[id] += 1;
        }
    }
    fn output_to_raw(o: &Out) -> *mut u8 {
        unsafe { RAWS.v[o.0 as usize] += 1 };
        tok(o.0)
    }
    unsafe fn output_from_raw(ptr: *const u8) -> Out {
        let id = id_of(ptr);
        unsafe { OUTS.v[id as usize] += 1 };
        Out(id)
    }
    fn output_consume_to_raw(o: Out) -> *mut u8 {
        let p = Self::output_to_raw(&o);
        drop(o);
        p
    }
}

impl LayerCapableLeaf<VS> for L {
    fn try_clone_output(&self, _slot: usize) -> Option<Out> {
        assert!(false, "no layer is created here");
        kani::assume(false);
        None
    }
    unsafe fn assign_from_key_arc(&self, _slot: usize, _key: &Key<'_>, _value: Option<Out>, _g: &LocalGuard<'_>) {
        assert!(false, "no layer is created here");
    }
}

// ---------------------------------------------------------------- the view
type L = LeafNode24<VS>;
static mut B: L = unsafe { core::mem::zeroed() };
static mut A: L = unsafe { core::mem::zeroed() };
#[derive(Clone, Copy)]
struct View {
    has: bool,
    /// watched entry: slot, chunk, length class, value
    ws: usize,
    wk: u64,
    wx: u8,
    wv: *mut u8,
    /// does its suffix equal the key's (only if both have one)
    same_suf: bool,
    /// slots of the visible entries; of those left of the watched one; chunk below / above the key's
    live: u32,
    left: u32,
    lt: u32,
    gt: u32,
    /// the key
    tk: u64,
    tx: u8,
    /// the slot the key was put in (N: none)
    ns: usize,
    nk: u64,
    nx: u8,
    nv: *mut u8,
    nsuf: bool,
}
static mut E: crate::G<View> = crate::G {
    v: View { has: false, ws: 0, wk: 0, wx: 0, wv: core::ptr::null_mut(), same_suf: false, live: 0, left: 0, lt: 0, gt: 0, tk: 0, tx: 0, ns: N, nk: 0, nx: 0, nv: core::ptr::null_mut(), nsuf: false },
    magic: 0x5eed0000_03000006,
};
static mut KB: crate::G<[u8; 256]> = crate::G { v: [0; 256], magic: 0x5eed0000_03000007 };
/// the key of harnesses that compare remainders (short, so that comparing is cheap)
static mut KS: crate::G<[u8; 24]> = crate::G { v: [0; 24], magic: 0x5eed0000_0300000a };
static mut SHORT: crate::G<bool> = crate::G { v: false, magic: 0x5eed0000_0300000b };
static mut KL: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000_03000008 };
fn bit(m: u32, s: usize) -> bool {
    m >> s & 1 == 1
}
fn any_class() -> u8 {
    let k: u8 = kani::any();
    kani::assume(k <= 8 || k == KSUF || k == LAYER);
    k
}
fn v_ikey<S: ValueSlot>(_l: &LeafNode24<S>, s: usize) -> u64 {
    assert!(s < N);
    let e = unsafe { &E.v };
    if e.has && s == e.ws {
        return e.wk;
    }
    if s == e.ns {
        return e.nk;
    }
    let k: u64 = kani::any();
    kani::assume(if bit(e.lt, s) { k < e.tk } else if bit(e.gt, s) { k > e.tk } else { k == e.tk });
    kani::assume(!e.has || !bit(e.live, s) || if bit(e.left, s) { k <= e.wk } else { k >= e.wk });
    k
}
fn v_keylenx<S: ValueSlot>(_l: &LeafNode24<S>, s: usize) -> u8 {
    assert!(s < N);
    let e = unsafe { &E.v };
    if e.has && s == e.ws {
        return e.wx;
    }
    if s == e.ns {
        return e.nx;
    }
    let x = any_class();
    // same chunk: another key, and nothing the key's remainder could be filed under
    kani::assume(bit(e.lt | e.gt, s) || (x != e.tx && !(x >= KSUF && e.tx == KSUF)));
    x
}
fn v_val<S: ValueSlot>(_l: &LeafNode24<S>, s: usize) -> *mut u8 {
    assert!(s < N);
    let e = unsafe { &E.v };
    if e.has && s == e.ws {
        e.wv
    } else if s == e.ns {
        e.nv
    } else {
        // somebody else's value: using it fails
        16 as *mut u8
    }
}
static mut CONFLICT: crate::G<bool> = crate::G { v: false, magic: 0x5eed0000_0300000d };
/// only a free slot, or the slot of the key itself, may be written
fn writable(s: usize) {
    assert!(s < N);
    unsafe {
        let mine = E.v.has && s == E.v.ws && E.v.wk == E.v.tk && (CONFLICT.v || E.v.wx == E.v.tx);
        assert!(mine || !bit(E.v.live, s), "no other entry is written");
        if !bit(E.v.live, s) {
            assert!(E.v.ns == N || E.v.ns == s, "one slot is filled");
            E.v.ns = s;
        }
        assert!(A.version().is_locked() && A.version().is_dirty(), "an entry is written under the lock, marked");
    }
}
fn v_set_ikey<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, k: u64) {
    writable(s);
    unsafe { if s == E.v.ns { E.v.nk = k } else { E.v.wk = k } }
}
fn v_set_keylenx<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, k: u8) {
    writable(s);
    unsafe { if s == E.v.ns { E.v.nx = k } else { E.v.wx = k } }
}
fn v_set_val<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, p: *mut u8) {
    writable(s);
    unsafe { if s == E.v.ns { E.v.nv = p } else { E.v.wv = p } }
}
fn is_key_suffix(suffix: &[u8]) -> bool {
    unsafe { suffix.len() + 8 == KL.v && suffix.as_ptr() == key().as_ptr().wrapping_add(8) }
}
fn v_ksuf_equals<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, suffix: &[u8]) -> bool {
    assert!(is_key_suffix(suffix), "the remainder compared is the key's");
    let e = unsafe { &E.v };
    if e.has && s == e.ws {
        e.wx == KSUF && e.same_suf
    } else {
        bit(e.lt | e.gt, s) && kani::any()
    }
}
fn v_ksuf<S: ValueSlot>(_l: &LeafNode24<S>, s: usize) -> Option<&[u8]> {
    unsafe {
        if !SHORT.v {
            // `add` excludes equal chunks with remainders
            None
        } else if E.v.has && s == E.v.ws && E.v.wx == KSUF && E.v.same_suf {
            Some(&KS.v[8..KL.v])
        } else {
            // another remainder (of another length)
            Some(&KS.v[..KL.v - 7])
        }
    }
}
unsafe fn v_assign<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, suffix: &[u8], _g: &LocalGuard<'_>) {
    writable(s);
    assert!(is_key_suffix(suffix), "the remainder stored is the key's");
    unsafe {
        assert!(s == E.v.ns);
        E.v.nsuf = true;
        E.v.nx = KSUF;
    }
}
fn pk(s: &[u8], i: usize) -> u64 {
    (if i < s.len() { s[i] } else { 0 } as u64) << (56 - 8 * i)
}
struct KeyAt<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> KeyAt<'a> {
    #[allow(clippy::needless_lifetimes)]
    fn read_ikey(s: &[u8], offset: usize) -> u64 {
        if offset != 0 {
            unsafe { assert!(offset == 8 && s.len() > 8 && E.v.has && E.v.wx == LAYER && E.v.wk == E.v.tk && E.v.tx == KSUF, "a layer is entered only through its entry, with bytes left") };
            kani::assume(false); // from here on: seq_get_layer
        }
        pk(s, 0) | pk(s, 1) | pk(s, 2) | pk(s, 3) | pk(s, 4) | pk(s, 5) | pk(s, 6) | pk(s, 7)
    }
}

pub struct WAlloc;
impl NodeAllocatorGeneric<VS, L> for WAlloc {
    fn alloc_leaf(&self, node: Box<L>) -> *mut L {
        core::mem::forget(node);
        &raw mut A
    }
    fn track_leaf(&self, _p: *mut L) {}
    unsafe fn retire_leaf(&self, _p: *mut L, _g: &LocalGuard<'_>) {}
    fn alloc_internode_erased(&self, p: *mut u8) -> *mut u8 {
        p
    }
    fn track_internode_erased(&self, _p: *mut u8) {}
    unsafe fn retire_internode_erased(&self, _p: *mut u8, _g: &LocalGuard<'_>) {}
    fn teardown_tree(&self, _r: *mut u8) {}
    unsafe fn retire_subtree_root(&self, _r: *mut u8, _g: &LocalGuard<'_>) {}
}
type T = MassTreeGeneric<VS, L, WAlloc>;

/// an arbitrary valid leaf with an arbitrary watched entry, and an arbitrary key of up to
/// `max` bytes; -> (tree, entries, position of the watched entry)
fn setup(max: usize) -> (T, usize, usize) {
    let t: T = T::with_allocator(WAlloc);
    let a = unsafe { &mut *(&raw mut A) };
    *a.version_mut() = NodeVersion::new(true);
    a.version().mark_root();
    let w: u128 = kani::any();
    kani::assume(w >> 125 == 0);
    let p = Permuter24::from_value(w);
    let n = p.size();
    kani::assume(n <= N);
    let j: usize = kani::any();
    kani::assume(j < N);
    let e = unsafe { &mut E.v };
    e.has = j < n;
    e.ws = if e.has { p.get(j) } else { N };
    e.live = kani::any();
    e.left = kani::any();
    let mut i = 0;
    while i < N {
        let s = p.get(i);
        kani::assume(s < N && (s != e.ws || i == j));
        kani::assume(bit(e.live, s) == (i < n));
        kani::assume(bit(e.left, s) == (i < j && i < n));
        i += 1;
    }
    TreeLeafNode::set_permutation(a, p);
    let len: usize = kani::any();
    kani::assume(len <= max);
    unsafe {
        if SHORT.v { KS.v = kani::any() } else { KB.v = kani::any() }
        KL.v = len;
    }
    let kb = key();
    e.tk = KeyAt::read_ikey(kb, 0);
    e.tx = if len > 8 { KSUF } else { len as u8 };
    e.lt = kani::any();
    e.gt = kani::any();
    e.wk = kani::any();
    e.wx = any_class();
    e.wv = tok(0);
    e.same_suf = kani::any();
    (t, n, j)
}
fn key() -> &'static [u8] {
    unsafe { if SHORT.v { &KS.v[..KL.v] } else { &KB.v[..KL.v] } }
}
/// is the watched entry the one stored under the key?
fn matches() -> bool {
    let e = unsafe { &E.v };
    e.has && e.wk == e.tk && e.wx == e.tx && (e.tx != KSUF || e.same_suf)
}
fn lookup(by_ref: bool) {
    let (t, _, _) = setup(256);
    let e = unsafe { &E.v };
    // the layer below an entry is looked up by seq_get_layer
    kani::assume(!(e.has && e.wk == e.tk && e.wx == LAYER && e.tx == KSUF));
    let hit = matches();
    let g = t.guard();
    if by_ref {
        match t.get_ref(key(), &g) {
            Some(v) => assert!(hit && v as *const u64 as *mut u8 == tok(0), "get_ref returns the value stored under the key"),
            None => assert!(!hit, "get_ref finds every stored key"),
        }
    } else {
        let r = t.get_with_guard(key(), &g);
        match &r {
            Some(o) => assert!(hit && o.0 == 0, "get returns the value stored under the key"),
            None => assert!(!hit, "get finds every stored key"),
        }
        assert!(unsafe { OUTS.v[0] } == r.is_some() as i8, "the value handed out is one more reference");
        core::mem::forget(r);
    }
    unsafe { assert!(E.v.ns == N && RAWS.v[0] == 1 && RAWS.v[1] == 0 && FREED.v[0] == 0, "a lookup changes nothing") };
    kani::cover!(hit);
    kani::cover!(!hit);
    core::mem::forget(t);
}
/// the watched entry is a layer: it is entered exactly when the key goes on behind its chunk
/// (what is found there is seq_get_layer's)
fn lookup_layer(by_ref: bool) {
    let (t, _, _) = setup(256);
    let e = unsafe { &E.v };
    kani::assume(e.has && e.wx == LAYER);
    let g = t.guard();
    if by_ref {
        assert!(t.get_ref(key(), &g).is_none(), "a layer is not a value");
    } else {
        let r = t.get_with_guard(key(), &g);
        assert!(r.is_none(), "a layer is not a value");
        core::mem::forget(r);
    }
    assert!(!(e.wk == e.tk && e.tx == KSUF), "a key that goes on behind the layer's chunk is looked up there");
    kani::cover!(e.wk == e.tk);
    core::mem::forget(t);
}
fn update() {
    unsafe {
        seize::EAGER.v = true;
        SHORT.v = true;
    }
    let (t, n, j) = setup(20);
    kani::assume(matches());
    let w = unsafe { A.permutation_raw() };
    let g = t.guard();
    let c0 = t.len();
    let r = t.insert_with_guard(key(), 7, &g);
    match &r {
        Ok(Some(o)) => assert!(o.0 == 0, "insert returns the previous value"),
        _ => assert!(false, "insert reports that the key was present"),
    }
    assert!(t.len() == c0, "an update does not add a key");
    unsafe {
        let e = E.v;
        assert!(A.permutation_raw() == w, "an update leaves the arrangement alone");
        assert!(e.wv == tok(1) && e.wk == e.tk && e.wx == e.tx && e.ns == N, "the entry holds the new value under the same key");
        assert!(RAWS.v[1] == 1 && OUTS.v[1] == 0 && RAWS.v[0] == 0 && FREED.v[0] == 1 && OUTS.v[0] == 1, "one owner each: the tree the new value, the caller the old one");
        assert!(!A.version().is_locked() && !A.version().is_dirty() && A.version().is_root(), "the lock is released");
    }
    kani::cover!(n == N && j == 17);
    core::mem::forget(r);
    core::mem::forget(t);
}
/// contract of `create_layer_concurrent_generic` (proved by seq_create)
unsafe fn v_create<S, L, A>(_t: &MassTreeGeneric<S, L, A>, leaf: &L, slot: usize, key: &mut Key<'_>, value: S::Output, _g: &LocalGuard<'_>) -> *mut u8
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unsafe {
        assert!(leaf as *const L as usize == &raw const A as usize && leaf.version().is_locked() && leaf.version().is_dirty(), "requires: the leaf is locked and marked");
        assert!(slot == E.v.ws && E.v.wv == tok(0) && E.v.wx == KSUF, "requires: the conflicting entry, still whole");
        assert!(key.has_suffix() && key.ikey() == E.v.tk, "requires: the key at this layer");
        // the layer holds both values
        RAWS.v[0] += 1;
        let p = S::output_to_raw(&value);
        assert!(p == tok(1), "requires: the new value");
    }
    &raw mut B as *mut u8
}
fn v_take<S: ValueSlot>(l: &LeafNode24<S>, s: usize) -> *mut u8 {
    let p = v_val(l, s);
    unsafe {
        assert!(s == E.v.ws, "no other entry is written");
        E.v.wv = core::ptr::null_mut();
    }
    p
}
unsafe fn v_clear<S: ValueSlot>(_l: &LeafNode24<S>, s: usize, _g: &LocalGuard<'_>) {
    unsafe {
        assert!(s == E.v.ws && s < N, "no other entry's remainder is dropped");
        E.v.nsuf = true;
        E.v.wx = 0;
    }
}
/// a different key with the same chunk and a remainder: its entry becomes the layer
fn conflict() {
    unsafe {
        seize::EAGER.v = true;
        SHORT.v = true;
        CONFLICT.v = true;
    }
    let (t, n, j) = setup(20);
    let e0 = unsafe { E.v };
    kani::assume(e0.has && e0.wk == e0.tk && e0.wx == KSUF && e0.tx == KSUF && !e0.same_suf);
    let w = unsafe { A.permutation_raw() };
    let g = t.guard();
    let c0 = t.len();
    let r = t.insert_with_guard(key(), 7, &g);
    assert!(matches!(&r, Ok(None)), "insert of a new key succeeds and reports none");
    assert!(t.len() == c0 + 1, "len counts distinct keys");
    unsafe {
        let e = E.v;
        assert!(A.permutation_raw() == w && e.ns == N, "no entry is added");
        assert!(e.wk == e0.wk && e.wx == LAYER && e.wv == &raw mut B as *mut u8 && e.nsuf, "the entry becomes the layer");
        assert!(RAWS.v[0] == 1 && FREED.v[0] == 1 && OUTS.v[0] == 0 && RAWS.v[1] == 1 && OUTS.v[1] == 0 && FREED.v[1] == 0, "each value has one owner, the layer");
        assert!(!A.version().is_locked() && !A.version().is_dirty() && A.version().is_root(), "the lock is released");
    }
    kani::cover!(n == N && j == 11);
    core::mem::forget(r);
    core::mem::forget(t);
}
fn add() {
    unsafe { seize::EAGER.v = true };
    let (t, n, j) = setup(256);
    kani::assume(n < N);
    let e0 = unsafe { E.v };
    // the key is new, and no entry has to become a layer (seq_ins covers that)
    kani::assume(!matches() && !(e0.has && e0.wk == e0.tk && e0.wx >= KSUF && e0.tx == KSUF));
    let p = perm_now();
    // slot 0 keeps the lower bound of a leaf that has a left neighbour
    let linked: bool = kani::any();
    unsafe { TreeLeafNode::set_prev(&*(&raw const A), if linked { 64 as *mut L } else { core::ptr::null_mut() }) };
    kani::assume(!linked || n < N - 1 || p.get(N - 1) != 0);
    // a valid arrangement names slot 0 once
    let mut zeros = 0u8;
    let mut i = 0;
    while i < N {
        zeros += (p.get(i) == 0) as u8;
        i += 1;
    }
    kani::assume(zeros == 1);
    let g = t.guard();
    let c0 = t.len();
    let r = t.insert_with_guard(key(), 7, &g);
    assert!(matches!(&r, Ok(None)), "insert of a new key succeeds and reports none");
    assert!(t.len() == c0 + 1, "len counts distinct keys");
    unsafe {
        let e = E.v;
        let q = perm_now();
        assert!(q.size() == n + 1 && e.ns < N, "one entry more");
        let mut at = N;
        let mut i = 0;
        while i < N {
            let s = q.get(i);
            assert!(s < N);
            if i <= n && s == e.ns {
                assert!(at == N, "no slot twice");
                at = i;
            }
            i += 1;
        }
        assert!(at <= n, "the new entry is visible");
        if e.has {
            assert!(q.get(if j < at { j } else { j + 1 }) == e.ws, "every other entry keeps its slot and order");
            assert!(e.wk == e0.wk && e.wx == e0.wx && e.wv == e0.wv, "every other entry keeps its content");
            assert!(if j < at { e.wk <= e.tk } else { e.wk >= e.tk }, "the entries stay sorted");
        }
        assert!(e.nk == e.tk && e.nx == e.tx && e.nv == tok(1) && e.nsuf == (e.tx == KSUF), "the new entry is the key with its value");
        assert!(!linked || e.ns != 0 || p.size() == 0 || A.ikey_bound() == e.tk, "the lower bound is kept");
        assert!(RAWS.v[1] == 1 && OUTS.v[1] == 0 && RAWS.v[0] == 1 && FREED.v[0] == 0, "the tree owns the new value once");
        assert!(!A.version().is_locked() && !A.version().is_dirty() && A.version().is_root(), "the lock is released");
        kani::cover!(e.has && j < at && at < n && at > 12);
        kani::cover!(linked && p.get(N - 1) == 0);
    }
    core::mem::forget(r);
    core::mem::forget(t);
}
pub fn no_prefetch<X>(_p: *const X) {}
/// Reading the arrangement starts a pass over the leaf; a quiet leaf is passed over once.
static mut PASSES: crate::G<u8> = crate::G { v: 0, magic: 0x5eed0000_03000009 };
fn one_pass() {
    unsafe {
        if PASSES.v == 1 {
            assert!(false, "unwinding assertion: the leaf is searched again");
            kani::assume(false);
        }
        PASSES.v += 1;
    }
}
/// contract of the freeze mark (proved by c_freeze): nobody is splitting the leaf
struct Thawed;
impl Thawed {
    fn is_frozen(_raw: u128) -> bool {
        one_pass();
        false
    }
}
fn v_permutation<S: ValueSlot>(l: &LeafNode24<S>) -> Permuter24 {
    one_pass();
    Permuter24::from_value(l.permutation_raw())
}
fn perm_now() -> Permuter24 {
    unsafe { Permuter24::from_value(A.permutation_raw()) }
}
fn v_split<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _l: *mut L, lock: masstree::nodeversion::LockGuard<'_>, _pos: usize, _ikey: u64, _g: &LocalGuard<'_>) -> Result<(), masstree::tree::InsertError>
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    assert!(false, "a leaf with room is not split");
    kani::assume(false);
    drop(lock);
    Ok(())
}
/// contract of a version word nobody is writing (proved in c_version)
struct Quiet;
impl Quiet {
    fn stable(_v: &NodeVersion) -> u32 {
        0
    }
    fn no1(_v: &NodeVersion, _old: u32) -> bool {
        false
    }
    fn no(_v: &NodeVersion) -> bool {
        false
    }
}
macro_rules! wide { ($($(#[$at:meta])* $name:ident => $body:expr;)*) => { $(
    #[kani::proof]
    $(#[$at])*
    #[kani::solver(cadical)]
    #[kani::unwind(26)]
    #[kani::stub(masstree::key::Key::read_ikey, KeyAt::read_ikey)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(masstree::leaf24::LeafNode24::ikey, v_ikey)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_ikey, v_set_ikey)]
    #[kani::stub(masstree::leaf24::LeafNode24::keylenx, v_keylenx)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_keylenx, v_set_keylenx)]
    #[kani::stub(masstree::leaf24::LeafNode24::leaf_value_ptr, v_val)]
    #[kani::stub(masstree::leaf24::LeafNode24::set_leaf_value_ptr, v_set_val)]
    #[kani::stub(masstree::leaf24::LeafNode24::ksuf_equals, v_ksuf_equals)]
    #[kani::stub(masstree::leaf24::LeafNode24::ksuf, v_ksuf)]
    #[kani::stub(masstree::leaf24::LeafNode24::assign_ksuf, v_assign)]
    fn $name() { $body }
)* } }
macro_rules! wide_quiet { ($($name:ident => $body:expr;)*) => { wide! { $(
    #[kani::stub(masstree::freeze24::Freeze24Utils::is_frozen, Thawed::is_frozen)]
    #[kani::stub(masstree::nodeversion::NodeVersion::stable, Quiet::stable)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_changed, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_changed_or_locked, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_split, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_deleted, Quiet::no)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_dirty, Quiet::no)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_splitting, Quiet::no)]
    $name => $body;
)* } } }
wide_quiet! {
    wide_get => lookup(false);
    wide_get_ref => lookup(true);
    wide_layer => lookup_layer(false);
    wide_layer_ref => lookup_layer(true);
}
wide! {
    #[kani::stub(masstree::leaf24::LeafNode24::permutation, v_permutation)]
    #[kani::stub(masstree::MassTreeGeneric::handle_leaf_split_generic, v_split)]
    wide_update => update();
    #[kani::stub(masstree::leaf24::LeafNode24::permutation, v_permutation)]
    #[kani::stub(masstree::MassTreeGeneric::handle_leaf_split_generic, v_split)]
    wide_add => add();
    #[kani::stub(masstree::leaf24::LeafNode24::permutation, v_permutation)]
    #[kani::stub(masstree::MassTreeGeneric::handle_leaf_split_generic, v_split)]
    #[kani::stub(masstree::MassTreeGeneric::create_layer_concurrent_generic, v_create)]
    #[kani::stub(masstree::leaf24::LeafNode24::take_leaf_value_ptr, v_take)]
    #[kani::stub(masstree::leaf24::LeafNode24::clear_ksuf, v_clear)]
    wide_conflict => conflict();
}
