//! Contracts of the real value slots (`slot.rs`) and of the leaf methods that move whole
//! values (`assign_from_key_arc`, `try_clone_output`, the leaf's destructor).
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::leaf24::LeafNode24;
use masstree::nodeversion::NodeVersion;
use masstree::permuter24::Permuter24;
use masstree::slot::ValueSlot;
use masstree::value::{LeafValue, LeafValueIndex};
use seize::LocalGuard;
use std::sync::Arc;

const N: usize = 24;
const KSUF: u8 = 64;
const LAYER: u8 = 128;
static mut DROPS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0301_0001 };
/// a value that counts its destructions
struct D(u64);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { DROPS.v += 1 }
    }
}
fn drops() -> usize {
    unsafe { DROPS.v }
}
/// Shared storage: every conversion moves or adds exactly the reference it states.
#[kani::proof]
fn value_shared() {
    unsafe { DROPS.v = 0 };
    let x: u64 = kani::any();
    let o = <LeafValue<D> as ValueSlot>::into_output(D(x));
    assert!(Arc::strong_count(&o) == 1 && o.0 == x);
    let p = <LeafValue<D> as ValueSlot>::output_to_raw(&o);
    assert!(Arc::strong_count(&o) == 2 && p as *const D == Arc::as_ptr(&o), "output_to_raw adds one reference: the slot's");
    let r = unsafe { <LeafValue<D> as ValueSlot>::output_from_raw(p) };
    assert!(Arc::strong_count(&o) == 3 && Arc::ptr_eq(&o, &r) && r.0 == x, "output_from_raw adds one reference: the reader's");
    drop(r);
    assert!(Arc::strong_count(&o) == 2);
    let q = <LeafValue<D> as ValueSlot>::output_consume_to_raw(Arc::clone(&o));
    assert!(Arc::strong_count(&o) == 3 && q == p, "output_consume_to_raw moves the reference");
    unsafe { <LeafValue<D> as ValueSlot>::cleanup_value_ptr(q) };
    assert!(Arc::strong_count(&o) == 2 && drops() == 0, "cleanup gives back one reference");
    drop(o);
    assert!(drops() == 0, "the slot keeps the value alive");
    unsafe { <LeafValue<D> as ValueSlot>::cleanup_value_ptr(p) };
    assert!(drops() == 1, "the last reference releases the value once");
    kani::cover!(true);
}
/// Inline storage: every raw pointer is its own copy, released by its own cleanup.
fn inline() -> (*mut u8, *mut u8, u64) {
    let x: u64 = kani::any();
    let o = <LeafValueIndex<u64> as ValueSlot>::into_output(x);
    let p = <LeafValueIndex<u64> as ValueSlot>::output_to_raw(&o);
    let q = <LeafValueIndex<u64> as ValueSlot>::output_consume_to_raw(o);
    assert!(p != q && !p.is_null() && !q.is_null(), "two slots never share a copy");
    let r = unsafe { <LeafValueIndex<u64> as ValueSlot>::output_from_raw(p) };
    assert!(r == x && unsafe { *(p as *const u64) } == x && unsafe { *(q as *const u64) } == x, "the copy is the value");
    (p, q, x)
}
#[kani::proof]
fn value_inline() {
    let (p, q, x) = inline();
    unsafe { <LeafValueIndex<u64> as ValueSlot>::cleanup_value_ptr(p) };
    assert!(unsafe { *(q as *const u64) } == x, "cleanup releases one copy");
    unsafe { <LeafValueIndex<u64> as ValueSlot>::cleanup_value_ptr(q) };
    kani::cover!(true);
}
/// (reading a released copy has to fail)
#[kani::proof]
fn value_inline_released() {
    let (p, _, x) = inline();
    unsafe { <LeafValueIndex<u64> as ValueSlot>::cleanup_value_ptr(p) };
    assert!(unsafe { *(p as *const u64) } == x);
}

// ---------------------------------------------------------------- leaf methods
static mut SA: LeafNode24<LeafValue<D>> = unsafe { core::mem::zeroed() };
static mut IA: LeafNode24<LeafValueIndex<u64>> = unsafe { core::mem::zeroed() };
/// contract of `assign_ksuf` (proved by c_suffix): the slot's suffix is exactly these bytes
static mut SUF: crate::G<(usize, usize, usize, usize)> = crate::G { v: (0, 0, 0, 0), magic: 0x5eed_0000_0301_0003 };
unsafe fn record_ksuf<S: ValueSlot>(_l: &LeafNode24<S>, slot: usize, suffix: &[u8], _g: &LocalGuard<'_>) {
    unsafe { SUF.v = (SUF.v.0 + 1, slot, suffix.as_ptr() as usize, suffix.len()) }
}
macro_rules! assign_from_key { ($l:expr, $S:ty, $v:expr, $ok:expr) => {{
    let l = $l;
    *l.version_mut() = NodeVersion::new(true);
    let l: &'static LeafNode24<$S> = l;
    let kb: [u8; 28] = kani::any();
    let len: usize = kani::any();
    let at: usize = kani::any();
    kani::assume(len <= 28 && at <= 2 && 8 * at <= len);
    let mut key = Key::new(&kb[..len]);
    if at >= 1 { key.shift() }
    if at >= 2 { key.shift() }
    let slot: usize = kani::any();
    kani::assume(slot < N);
    unsafe { SUF.v = (0, 0, 0, 0) };
    let c = seize::Collector::new();
    let g = c.enter();
    let rest = len - 8 * at;
    unsafe { LayerCapableLeaf::assign_from_key_arc(l, slot, &key, Some($v), &g) };
    assert!(TreeLeafNode::ikey(l, slot) == crate::ghost::pack(&kb[..len], 8 * at), "the slot holds the key's current chunk");
    if rest > 8 {
        let s = unsafe { SUF.v };
        assert!(TreeLeafNode::keylenx(l, slot) == KSUF && s.0 == 1 && s.1 == slot && s.2 == kb.as_ptr() as usize + 8 * at + 8 && s.3 == rest - 8, "the rest of the key becomes the slot's suffix");
    } else {
        assert!(TreeLeafNode::keylenx(l, slot) == rest as u8 && unsafe { SUF.v.0 } == 0, "a key that ends in this chunk is stored with its own length");
    }
    let p = TreeLeafNode::leaf_value_ptr(l, slot);
    assert!($ok(p), "the slot owns the value");
    kani::cover!(rest > 8);
    kani::cover!(rest == 8 && at > 0);
    kani::cover!(rest < 8 && at == 2);
    (l, slot, p)
}} }
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(masstree::key::Key::read_ikey, Spec::read_ikey)]
#[kani::stub(masstree::leaf24::LeafNode24::assign_ksuf, record_ksuf)]
fn assign_shared() {
    unsafe { DROPS.v = 0 };
    let o = Arc::new(D(kani::any()));
    let w = Arc::clone(&o);
    let (l, slot, p) = assign_from_key!(unsafe { &mut *(&raw mut SA) }, LeafValue<D>, o, |p: *mut u8| p as *const D == Arc::as_ptr(&w) && Arc::strong_count(&w) == 2);
    assert!(drops() == 0);
    let r = LayerCapableLeaf::try_clone_output(l, slot);
    assert!(r.as_ref().is_some_and(|r| Arc::ptr_eq(r, &w)) && Arc::strong_count(&w) == 3 && TreeLeafNode::leaf_value_ptr(l, slot) == p, "a clone adds one reference and leaves the slot alone");
    // a layer entry or an empty slot is no value
    TreeLeafNode::set_keylenx(l, slot, LAYER);
    assert!(LayerCapableLeaf::try_clone_output(l, slot).is_none() && Arc::strong_count(&w) == 3, "a layer is never read as a value");
    TreeLeafNode::set_keylenx(l, slot, KSUF);
    let t = TreeLeafNode::take_leaf_value_ptr(l, slot);
    assert!(t == p && TreeLeafNode::leaf_value_ptr(l, slot).is_null() && Arc::strong_count(&w) == 3, "take moves the value out without copying or releasing it");
    assert!(LayerCapableLeaf::try_clone_output(l, slot).is_none());
    core::mem::forget((r, w));
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(masstree::key::Key::read_ikey, Spec::read_ikey)]
#[kani::stub(masstree::leaf24::LeafNode24::assign_ksuf, record_ksuf)]
fn assign_inline() {
    let x: u64 = kani::any();
    let (l, slot, p) = assign_from_key!(unsafe { &mut *(&raw mut IA) }, LeafValueIndex<u64>, x, |p: *mut u8| !p.is_null() && unsafe { *(p as *const u64) } == x);
    assert!(LayerCapableLeaf::try_clone_output(l, slot) == Some(x) && TreeLeafNode::leaf_value_ptr(l, slot) == p, "a clone copies the value and leaves the slot alone");
    TreeLeafNode::set_keylenx(l, slot, LAYER);
    assert!(LayerCapableLeaf::try_clone_output(l, slot).is_none(), "a layer is never read as a value");
    TreeLeafNode::set_keylenx(l, slot, KSUF);
    let t = TreeLeafNode::take_leaf_value_ptr(l, slot);
    assert!(t == p && TreeLeafNode::leaf_value_ptr(l, slot).is_null());
    assert!(LayerCapableLeaf::try_clone_output(l, slot).is_none());
}
/// contract of `Key::read_ikey` (proved by c_key::key_read_ikey)
struct Spec<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> Spec<'a> {
    #[allow(clippy::needless_lifetimes)]
    fn read_ikey(data: &[u8], offset: usize) -> u64 {
        crate::ghost::pack(data, offset)
    }
}

// ---------------------------------------------------------------- the leaf's destructor
/// value slot whose cleanup counts per token
#[derive(Default)]
pub struct CS;
static TOK: [u8; 4 * N + 8] = [0; 4 * N + 8];
pub static mut CLEANED: crate::G<[u8; N]> = crate::G { v: [0; N], magic: 0x5eed_0000_0301_0004 };
pub fn ctok(i: usize) -> *mut u8 {
    &raw const TOK[4 * i] as *mut u8
}
impl ValueSlot for CS {
    type Value = u64;
    type Output = u64;
    fn into_output(v: u64) -> u64 { v }
    fn from_output(_o: u64) -> Self { CS }
    fn is_empty(&self) -> bool { true }
    fn is_value(&self) -> bool { false }
    fn is_layer(&self) -> bool { false }
    fn try_get(&self) -> Option<u64> { None }
    fn try_layer(&self) -> Option<*mut u8> { None }
    fn layer(_p: *mut u8) -> Self { CS }
    fn set_layer(&mut self, _p: *mut u8) {}
    fn swap_output(&mut self, _o: u64) -> Option<u64> { None }
    unsafe fn cleanup_value_ptr(ptr: *mut u8) {
        let i = (ptr as usize - &raw const TOK as usize) / 4;
        assert!(i < N, "only a stored value is released");
        unsafe { CLEANED.v[i] += 1 }
    }
    fn output_to_raw(_o: &u64) -> *mut u8 { core::ptr::null_mut() }
    unsafe fn output_from_raw(_p: *const u8) -> u64 { 0 }
    fn output_consume_to_raw(_o: u64) -> *mut u8 { core::ptr::null_mut() }
}
/// Dropping a leaf releases every value it holds once, and no layer.
#[kani::proof]
#[kani::unwind(26)]
fn leaf_drop() {
    unsafe { CLEANED.v = [0; N] };
    let l = <LeafNode24<CS> as TreeLeafNode<CS>>::new_boxed();
    let mut want = [0u8; N];
    let mut i = 0;
    while i < N {
        let full: bool = kani::any();
        let k: u8 = kani::any();
        kani::assume(k <= 8 || k == KSUF || k == LAYER);
        TreeLeafNode::set_keylenx(&*l, i, k);
        if full {
            TreeLeafNode::set_leaf_value_ptr(&*l, i, ctok(i));
        }
        want[i] = (full && k < LAYER) as u8;
        i += 1;
    }
    let w: u128 = kani::any();
    TreeLeafNode::set_permutation(&*l, Permuter24::from_value(w));
    drop(l);
    i = 0;
    while i < N {
        assert!(unsafe { CLEANED.v[i] } == want[i], "a dropped leaf releases each of its values once and no layer");
        i += 1;
    }
    kani::cover!(want[0] == 1 && want[23] == 0);
}
