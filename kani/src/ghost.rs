//! Ghost nodes: executable contracts for the node traits of masstree.
//!
//! The tree driver (`tree/generic.rs`, `tree/split/*`) is generic over the leaf,
//! internode, allocator and value-slot types.  Here those traits are implemented
//! by types whose every method *is* its contract over an abstract state.  Verifying
//! the driver against these types checks each caller against its callees'
//! contracts; the real nodes are checked against the same contracts elsewhere.
#![allow(dead_code)]
use core::cell::Cell;
use core::cmp::Ordering;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::nodeversion::NodeVersion;
use masstree::slot::ValueSlot;
use masstree::value::{InsertTarget, SplitPoint};
use masstree::MassTreeGeneric;
use seize::LocalGuard;

pub const W: usize = 3; // ghost leaf width
pub const IW: usize = 3; // ghost internode width (keys)
pub const SB: usize = 12; // longest ghost suffix

pub const KSUF: u8 = 64;
pub const LAYER: u8 = 128;

// ---------------------------------------------------------------- permutation
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GPerm<const N: usize> {
    pub n: u8,
    pub ord: [u8; N],
    pub frozen: u8, // no niche: keeps Result<GPerm> tags explicit
}

impl<const N: usize> TreePermutation for GPerm<N> {
    type Raw = Self;
    const WIDTH: usize = N;
    fn empty() -> Self {
        Self::make_sorted(0)
    }
    fn make_sorted(n: usize) -> Self {
        let mut ord = [0u8; N];
        let mut i = 0;
        while i < N {
            ord[i] = if i < n { i as u8 } else { (N - 1 - (i - n)) as u8 };
            i += 1;
        }
        GPerm { n: n as u8, ord, frozen: 0 }
    }
    fn from_value(raw: Self) -> Self {
        raw
    }
    fn value(&self) -> Self {
        *self
    }
    fn size(&self) -> usize {
        self.n as usize
    }
    fn get(&self, i: usize) -> usize {
        assert!(i < N, "contract: permutation position in range");
        self.ord[i] as usize
    }
    fn back(&self) -> usize {
        self.ord[N - 1] as usize
    }
    fn back_at_offset(&self, offset: usize) -> usize {
        assert!(self.n as usize + offset < N, "contract: back_at_offset within the free region");
        self.ord[N - 1 - offset] as usize
    }
    fn insert_from_back(&mut self, i: usize) -> usize {
        assert!(i <= self.n as usize && (self.n as usize) < N, "contract: insert_from_back position/room");
        let s = self.ord[N - 1];
        let old = self.ord;
        let mut k = 0;
        while k < N {
            if k == i {
                self.ord[k] = s;
            } else if k > i {
                self.ord[k] = old[k - 1];
            }
            k += 1;
        }
        self.n += 1;
        s as usize
    }
    fn insert_from_back_immutable(&self, i: usize) -> (Self, usize) {
        let mut p = *self;
        let s = p.insert_from_back(i);
        (p, s)
    }
    fn swap_free_slots(&mut self, i: usize, j: usize) {
        assert!(i >= self.n as usize && j >= self.n as usize && i < N && j < N, "contract: swap_free_slots stays in the free region");
        let t = self.ord[i];
        self.ord[i] = self.ord[j];
        self.ord[j] = t;
    }
    fn set_size(&mut self, n: usize) {
        assert!(n <= N);
        self.n = n as u8;
    }
    fn is_frozen_raw(raw: Self) -> bool {
        raw.frozen != 0
    }
    fn freeze_raw(mut raw: Self) -> Self {
        raw.frozen = 1;
        raw
    }
}

// ---------------------------------------------------------------- values
/// Ghost value slot with an ownership ledger.
/// `RAWS[id]`: owned raw pointers outstanding, `OUTS[id]`: live outputs,
/// `FREED[id]`: raw pointers already given back.
pub const NV: usize = 6;
#[derive(Clone, Copy)]
pub struct GVal(pub u8);
pub static mut V0: crate::G<GVal> = crate::G { v: GVal(0), magic: 0x5eed000000180019 };
pub static mut V1: crate::G<GVal> = crate::G { v: GVal(1), magic: 0x5eed00000019001a };
pub static mut V2: crate::G<GVal> = crate::G { v: GVal(2), magic: 0x5eed0000001a001b };
pub static mut V3: crate::G<GVal> = crate::G { v: GVal(3), magic: 0x5eed0000001b001c };
pub static mut V4: crate::G<GVal> = crate::G { v: GVal(4), magic: 0x5eed0000001c001d };
pub static mut V5: crate::G<GVal> = crate::G { v: GVal(5), magic: 0x5eed0000001d001e };
pub static mut RAWS: crate::G<[i8; NV]> = crate::G { v: [0; NV], magic: 0x5eed0000001e001f };
pub static mut OUTS: crate::G<[i8; NV]> = crate::G { v: [0; NV], magic: 0x5eed0000001f0020 };
pub static mut FREED: crate::G<[i8; NV]> = crate::G { v: [0; NV], magic: 0x5eed000000200021 };
pub struct GOut(pub u8);
impl Clone for GOut {
    fn clone(&self) -> Self {
        unsafe { OUTS.v[self.0 as usize] += 1 };
        GOut(self.0)
    }
}
impl Drop for GOut {
    fn drop(&mut self) {
        unsafe { OUTS.v[self.0 as usize] -= 1 };
    }
}
pub fn tok(id: usize) -> *mut u8 {
    let p: *mut GVal = match id {
        0 => unsafe { &raw mut V0.v },
        1 => unsafe { &raw mut V1.v },
        2 => unsafe { &raw mut V2.v },
        3 => unsafe { &raw mut V3.v },
        4 => unsafe { &raw mut V4.v },
        _ => unsafe { &raw mut V5.v },
    };
    p as *mut u8
}
/// id of a value pointer; anything else is a contract failure
pub fn id_of(p: *const u8) -> u8 {
    let p = p as *mut u8;
    if p == tok(0) {
        0
    } else if p == tok(1) {
        1
    } else if p == tok(2) {
        2
    } else if p == tok(3) {
        3
    } else if p == tok(4) {
        4
    } else {
        assert!(p == tok(5), "contract: only a stored value pointer is used as a value");
        5
    }
}
#[derive(Default)]
pub struct GSlot;
impl ValueSlot for GSlot {
    type Value = GVal;
    type Output = GOut;
    fn into_output(v: GVal) -> GOut {
        unsafe { OUTS.v[v.0 as usize] += 1 };
        GOut(v.0)
    }
    fn from_output(_o: GOut) -> Self {
        GSlot
    }
    fn is_empty(&self) -> bool {
        true
    }
    fn is_value(&self) -> bool {
        false
    }
    fn is_layer(&self) -> bool {
        false
    }
    fn try_get(&self) -> Option<GOut> {
        None
    }
    fn try_layer(&self) -> Option<*mut u8> {
        None
    }
    fn layer(_p: *mut u8) -> Self {
        GSlot
    }
    fn set_layer(&mut self, _p: *mut u8) {}
    fn swap_output(&mut self, _o: GOut) -> Option<GOut> {
        None
    }
    unsafe fn cleanup_value_ptr(ptr: *mut u8) {
        let id = id_of(ptr) as usize;
        unsafe {
            assert!(seize::RECLAIMING.v, "contract: a shared value is released only through deferred reclamation");
            assert!(!held_visible(ptr), "contract: a value is unlinked before it is retired");
            RAWS.v[id] -= 1;
            FREED.v[id] += 1;
        }
    }
    fn output_to_raw(o: &GOut) -> *mut u8 {
        unsafe { RAWS.v[o.0 as usize] += 1 };
        tok(o.0 as usize)
    }
    unsafe fn output_from_raw(ptr: *const u8) -> GOut {
        let id = id_of(ptr);
        unsafe {
            OUTS.v[id as usize] += 1
        };
        GOut(id)
    }
    fn output_consume_to_raw(o: GOut) -> *mut u8 {
        let p = Self::output_to_raw(&o);
        drop(o);
        p
    }
}

// ---------------------------------------------------------------- leaf
/// A suffix of at most SB bytes: length and zero-padded big-endian image.
/// (Scalars only: the back end mishandles aggregates read at a symbolic index.)
#[derive(Clone, Copy)]
pub struct GSuf {
    pub len: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}
pub const NOSUF: GSuf = GSuf { len: 0, a: 0, b: 0, c: 0 };
/// suffixes of more than SB (up to 24) bytes occur in this harness
pub static mut EXT: crate::G<bool> = crate::G { v: false, magic: 0x5eed_0000_0204_0001 };
pub fn sb() -> usize {
    if unsafe { EXT.v } { 24 } else { SB }
}
fn pack16(s: &[u8]) -> u64 {
    if unsafe { EXT.v } { pack(s, 16) } else { 0 }
}
pub fn byte(s: &[u8], i: usize) -> u8 {
    if i < s.len() { s[i] } else { 0 }
}
fn pk(s: &[u8], at: usize, i: usize) -> u64 {
    (byte(s, at + i) as u64) << (56 - 8 * i)
}
/// zero-padded big-endian image of eight bytes of a slice (loop-free)
pub fn pack(s: &[u8], at: usize) -> u64 {
    pk(s, at, 0) | pk(s, at, 1) | pk(s, at, 2) | pk(s, at, 3) | pk(s, at, 4) | pk(s, at, 5) | pk(s, at, 6) | pk(s, at, 7)
}
pub fn gsuf(s: &[u8]) -> GSuf {
    kani::assume(s.len() <= sb());
    GSuf { len: s.len() as u8, a: pack(s, 0), b: pack(s, 8), c: pack16(s) }
}
/// same length and bytes
pub fn suf_same(a: &GSuf, b: &GSuf) -> bool {
    a.len == b.len && a.a == b.a && a.b == b.b && a.c == b.c
}
pub fn any_suf() -> GSuf {
    let len: u8 = kani::any();
    kani::assume(len >= 1 && len as usize <= SB);
    let mut b: [u8; SB] = kani::any();
    macro_rules! z { ($($i:literal)*) => { $( if $i >= len { b[$i] = 0; } )* } }
    z!(0 1 2 3 4 5 6 7 8 9 10 11);
    GSuf { len, a: pack(&b, 0), b: pack(&b, 8), c: 0 }
}

#[repr(C)]
pub struct GLeaf {
    pub version: NodeVersion,
    pub perm: Cell<GPerm<W>>,
    pub ik: [Cell<u64>; W],
    pub kx: [Cell<u8>; W],
    pub val: [Cell<*mut u8>; W],
    pub slen: [Cell<u8>; W],
    pub sa: [Cell<u64>; W],
    pub sb: [Cell<u64>; W],
    pub sc: [Cell<u64>; W],
    /// bytes handed out by `ksuf`
    pub scratch: Cell<[u8; 24]>,
    pub next: Cell<*mut GLeaf>,
    pub marked: Cell<bool>,
    pub prev: Cell<*mut GLeaf>,
    pub parent: Cell<*mut u8>,
    /// reachable by other threads (set by the harness for the nodes of the initial tree)
    pub live: Cell<bool>,
}
unsafe impl Send for GLeaf {}
unsafe impl Sync for GLeaf {}

impl GLeaf {
    pub const fn blank() -> Self {
        GLeaf {
            version: NodeVersion::new(true),
            perm: Cell::new(GPerm { n: 0, ord: [2, 1, 0], frozen: 0 }),
            ik: [const { Cell::new(0) }; W],
            kx: [const { Cell::new(0) }; W],
            val: [const { Cell::new(core::ptr::null_mut()) }; W],
            slen: [const { Cell::new(0) }; W],
            sa: [const { Cell::new(0) }; W],
            sb: [const { Cell::new(0) }; W],
            sc: [const { Cell::new(0) }; W],
            scratch: Cell::new([0; 24]),
            next: Cell::new(core::ptr::null_mut()),
            marked: Cell::new(false),
            prev: Cell::new(core::ptr::null_mut()),
            parent: Cell::new(core::ptr::null_mut()),
            live: Cell::new(false),
        }
    }
}
/// Passes of the insert loop explored (reads of a locked leaf's permutation); later
/// passes are cut.  A stated bound, not an obligation.
pub static mut PASSES: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000210022 };
pub static mut MAX_PASSES: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000220023 };
/// Leaf visits of one lookup explored; later visits are cut (a stated bound).
pub static mut VISITS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000230024 };
pub static mut SPLIT_POS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed_0000_0203_0001 };
pub static mut MAX_VISITS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000240025 };
pub fn init() {
    unsafe {
        core::ptr::write(&raw mut L0, GLeaf::blank());
        core::ptr::write(&raw mut L1, GLeaf::blank());
        core::ptr::write(&raw mut L2, GLeaf::blank());
        core::ptr::write(&raw mut L3, GLeaf::blank());
        core::ptr::write(&raw mut L4, GLeaf::blank());
        core::ptr::write(&raw mut I0, GInter::blank());
        core::ptr::write(&raw mut I1, GInter::blank());
        core::ptr::write(&raw mut I2, GInter::blank());
        core::ptr::write(&raw mut I3, GInter::blank());
        core::ptr::write(&raw mut I4, GInter::blank());
        core::ptr::write(&raw mut I5, GInter::blank());
        core::ptr::write(&raw mut I6, GInter::blank());
        core::ptr::write(&raw mut I7, GInter::blank());
        TRACKED_LEAVES.v = 0;
        TRACKED_INTERS.v = 0;
        NEXT_INTER.v = 0;
        MAX_SHIFT.v = 0;
        SPLIT_POS.v = 0;
        EXT.v = false;
        PASSES.v = 0;
        VISITS.v = 0;
        MAX_VISITS.v = 1;
        MAX_PASSES.v = 1;
        RAWS.v = [0; NV];
        OUTS.v = [0; NV];
        FREED.v = [0; NV];
        NEXT_LEAF.v = 0;
    }
}

impl GLeaf {
    pub fn suf(&self, s: usize) -> GSuf {
        GSuf { len: self.slen[s].get(), a: self.sa[s].get(), b: self.sb[s].get(), c: self.sc[s].get() }
    }
    pub fn set_suf(&self, s: usize, v: GSuf) {
        self.slen[s].set(v.len);
        self.sa[s].set(v.a);
        self.sb[s].set(v.b);
        self.sc[s].set(v.c);
    }
    fn shows(&self, i: usize, ptr: *mut u8) -> bool {
        let p = self.perm.get();
        i < p.n as usize && (p.ord[i] as usize) < W && self.val[p.ord[i] as usize].get() == ptr
    }
    fn shows_any(&self, ptr: *mut u8) -> bool {
        self.live.get() && (self.shows(0, ptr) || self.shows(1, ptr) || self.shows(2, ptr))
    }
}
/// some visible slot of a live leaf holds `ptr`
pub fn held_visible(ptr: *mut u8) -> bool {
    unsafe { L0.shows_any(ptr) || L1.shows_any(ptr) }
}

/// Node pool: typed static storage, so that the verifier keeps field-level precision.
pub static mut L0: GLeaf = GLeaf::blank();
pub static mut L1: GLeaf = GLeaf::blank();
pub static mut L2: GLeaf = GLeaf::blank();
pub static mut L3: GLeaf = GLeaf::blank();
pub static mut L4: GLeaf = GLeaf::blank();
pub static mut NEXT_LEAF: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000250026 };
pub static mut ALLOCED_LEAVES: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000260027 };

pub fn leaf_at(i: usize) -> *mut GLeaf {
    match i {
        0 => &raw mut L0,
        1 => &raw mut L1,
        2 => &raw mut L2,
        3 => &raw mut L3,
        4 => &raw mut L4,
        _ => {
            kani::assume(false);
            core::ptr::null_mut()
        }
    }
}
fn fresh_leaf() -> Box<GLeaf> {
    unsafe {
        let p = leaf_at(NEXT_LEAF.v);
        NEXT_LEAF.v += 1;
        Box::from_raw(p)
    }
}

pub struct GFreeze {
    snap: GPerm<W>,
}
impl FreezeGuardOps<GPerm<W>> for GFreeze {
    fn snapshot(&self) -> GPerm<W> {
        self.snap
    }
    fn snapshot_raw(&self) -> GPerm<W> {
        self.snap
    }
    fn set_active(&mut self, _a: bool) {}
}

impl GLeaf {
    /// contract of every write readers can observe: inside a locked, dirty section
    fn writable(&self) {
        assert!(!self.live.get() || (self.version.is_locked() && self.version.is_dirty()), "contract: shared leaf is modified only by its lock holder, marked dirty");
    }
    fn slot_writable(&self, slot: usize) {
        assert!(slot < W, "contract: slot in range");
        let p = self.perm.get();
        let vis = (p.n > 0 && p.ord[0] as usize == slot) || (p.n > 1 && p.ord[1] as usize == slot) || (p.n > 2 && p.ord[2] as usize == slot);
        if vis {
            self.writable();
        }
    }
    /// the lower bound of a leaf that has a left neighbour never changes
    fn bound_writable(&self, ikey: u64) {
        assert!(!self.live.get() || self.prev.get().is_null() || self.ik[0].get() == ikey, "contract: the lower bound of a linked leaf is immutable");
    }
}
impl TreeLeafNode<GSlot> for GLeaf {
    type Perm = GPerm<W>;
    type Internode = GInter;
    const WIDTH: usize = W;
    fn new_boxed() -> Box<Self> {
        fresh_leaf()
    }
    fn new_root_boxed() -> Box<Self> {
        let l = fresh_leaf();
        l.version.mark_root();
        l
    }
    fn new_layer_root_boxed() -> Box<Self> {
        let l = fresh_leaf();
        l.version.mark_root();
        l
    }
    fn version(&self) -> &NodeVersion {
        &self.version
    }
    fn permutation(&self) -> GPerm<W> {
        unsafe {
            PASSES.v += 1;
            if PASSES.v > MAX_PASSES.v {
                kani::assume(false);
            }
        }
        self.perm.get()
    }
    fn set_permutation(&self, perm: GPerm<W>) {
        self.writable();
        self.perm.set(perm)
    }
    fn permutation_raw(&self) -> GPerm<W> {
        self.perm.get()
    }
    fn permutation_try(&self) -> Result<GPerm<W>, ()> {
        unsafe {
            VISITS.v += 1;
            if VISITS.v > MAX_VISITS.v {
                kani::assume(false);
            }
        }
        let p = crate::rg_get::perm(self);
        if p.frozen != 0 { Err(()) } else { Ok(p) }
    }
    fn permutation_wait(&self) -> GPerm<W> {
        self.perm.get()
    }
    fn ikey(&self, slot: usize) -> u64 {
        crate::rg_get::ikey(self, slot)
    }
    fn set_ikey(&self, slot: usize, ikey: u64) {
        self.slot_writable(slot);
        if slot == 0 {
            self.bound_writable(ikey);
        }
        self.ik[slot].set(ikey)
    }
    fn ikey_bound(&self) -> u64 {
        crate::rg_get::bound(self)
    }
    fn keylenx(&self, slot: usize) -> u8 {
        crate::rg_get::keylenx(self, slot)
    }
    fn set_keylenx(&self, slot: usize, k: u8) {
        self.slot_writable(slot);
        self.kx[slot].set(k)
    }
    fn is_layer(&self, slot: usize) -> bool {
        self.kx[slot].get() >= LAYER
    }
    fn has_ksuf(&self, slot: usize) -> bool {
        self.kx[slot].get() == KSUF
    }
    fn leaf_value_ptr(&self, slot: usize) -> *mut u8 {
        crate::rg_get::value(self, slot)
    }
    fn set_leaf_value_ptr(&self, slot: usize, ptr: *mut u8) {
        self.slot_writable(slot);
        self.val[slot].set(ptr)
    }
    fn cas_slot_value(&self, slot: usize, expected: *mut u8, new: *mut u8) -> Result<(), *mut u8> {
        let c = self.val[slot].get();
        if c == expected {
            self.val[slot].set(new);
            Ok(())
        } else {
            Err(c)
        }
    }
    fn safe_next(&self) -> *mut Self {
        self.next.get()
    }
    fn next_is_marked(&self) -> bool {
        self.marked.get()
    }
    fn set_next(&self, next: *mut Self) {
        self.next.set(next);
        self.marked.set(false)
    }
    fn mark_next(&self) {
        self.marked.set(true)
    }
    fn unmark_next(&self) {
        self.marked.set(false)
    }
    fn prev(&self) -> *mut Self {
        self.prev.get()
    }
    fn set_prev(&self, prev: *mut Self) {
        self.prev.set(prev)
    }
    fn parent(&self) -> *mut u8 {
        self.parent.get()
    }
    fn set_parent(&self, parent: *mut u8) {
        parent_ok(self as *const _ as *const u8, parent);
        self.parent.set(parent)
    }
    fn can_reuse_slot0(&self, new_ikey: u64) -> bool {
        self.prev.get().is_null() || self.ik[0].get() == new_ikey
    }
    unsafe fn store_key_data_for_cas(&self, slot: usize, ikey: u64, keylenx: u8) {
        self.ik[slot].set(ikey);
        self.kx[slot].set(keylenx)
    }
    fn load_slot_value(&self, slot: usize) -> *mut u8 {
        self.val[slot].get()
    }
    fn next_raw(&self) -> *mut Self {
        if self.marked.get() {
            masstree::link::mark_ptr(self.next.get())
        } else {
            crate::rg_get::next(self)
        }
    }
    fn wait_for_split(&self) {
        crate::rg_get::wait_split(self)
    }
    fn cas_permutation_raw(&self, expected: GPerm<W>, new: GPerm<W>) -> Result<(), CasPermutationError<GPerm<W>>> {
        let c = self.perm.get();
        if c == expected {
            self.perm.set(new);
            Ok(())
        } else {
            Err(CasPermutationError::new(c))
        }
    }
    type FreezeGuard<'a> = GFreeze;
    fn calculate_split_point(&self, _pos: usize, _ikey: u64) -> Option<SplitPoint> {
        let p = self.perm.get();
        let n = p.n as usize;
        // (a harness may enumerate the positions instead)
        let pos: usize = if unsafe { SPLIT_POS.v } != 0 { unsafe { SPLIT_POS.v } } else { kani::any() };
        kani::assume(pos > 0 && pos < n);
        let l = self.ik[p.get(pos - 1)].get();
        let r = self.ik[p.get(pos)].get();
        kani::assume(l != r);
        Some(SplitPoint { pos, split_ikey: r })
    }
    unsafe fn split_into_preallocated(&self, split_pos: usize, nl: Box<Self>, _g: &LocalGuard<'_>) -> (Box<Self>, u64, InsertTarget) {
        let p = self.perm.get();
        let n = p.n as usize;
        assert!(self.version.is_locked(), "contract: split needs the leaf lock");
        assert!(self.version.is_splitting(), "contract: split is announced before entries move");
        assert!(split_pos > 0 && split_pos < n, "contract: split position inside the leaf");
        unsafe {
            core::ptr::write(&raw const nl.version as *mut NodeVersion, NodeVersion::new_for_split(&self.version));
        }
        let mut i = 0;
        while i < W {
            if i >= split_pos && i < n {
                let s = p.get(i);
                let d = i - split_pos;
                nl.ik[d].set(self.ik[s].get());
                nl.kx[d].set(self.kx[s].get());
                nl.val[d].set(self.val[s].get());
                nl.set_suf(d, self.suf(s));
                self.val[s].set(core::ptr::null_mut());
                if self.kx[s].get() == KSUF {
                    self.kx[s].set(0);
                }
            }
            i += 1;
        }
        nl.perm.set(GPerm::make_sorted(n - split_pos));
        let mut np = p;
        np.set_size(split_pos);
        self.perm.set(np);
        let sk = nl.ik[0].get();
        (nl, sk, InsertTarget::Left)
    }
    unsafe fn split_all_to_right_preallocated(&self, nl: Box<Self>, _g: &LocalGuard<'_>) -> (Box<Self>, u64, InsertTarget) {
        (nl, 0, InsertTarget::Right)
    }
    fn freeze_permutation(&self) -> GFreeze {
        GFreeze { snap: self.perm.get() }
    }
    fn unfreeze_set_permutation(&self, _g: GFreeze, perm: GPerm<W>) {
        self.perm.set(perm)
    }
    fn is_permutation_frozen(&self) -> bool {
        self.perm.get().frozen != 0
    }
    unsafe fn link_sibling(&self, ns: *mut Self) {
        unsafe {
            let old = self.next.get();
            self.writable();
            assert!((*ns).version.is_locked() && (*ns).version.is_dirty(), "contract: the new half is linked while locked");
            (*ns).live.set(true);
            (*ns).prev.set(self as *const _ as *mut _);
            (*ns).next.set(old);
            if !old.is_null() {
                (*old).prev.set(ns);
            }
            self.next.set(ns);
        }
    }
    fn ksuf(&self, slot: usize) -> Option<&[u8]> {
        if self.kx[slot].get() != KSUF {
            return None;
        }
        let (a, b, c) = (self.sa[slot].get().to_be_bytes(), self.sb[slot].get().to_be_bytes(), self.sc[slot].get().to_be_bytes());
        self.scratch.set([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        let s: &[u8; 24] = unsafe { &*self.scratch.as_ptr() };
        let n = self.slen[slot].get() as usize;
        kani::assume(n <= sb());
        Some(&s[..n])
    }
    unsafe fn assign_ksuf(&self, slot: usize, suffix: &[u8], _g: &LocalGuard<'_>) {
        self.slot_writable(slot);
        self.set_suf(slot, gsuf(suffix));
        self.kx[slot].set(KSUF);
    }
    unsafe fn clear_ksuf(&self, slot: usize, _g: &LocalGuard<'_>) {
        self.slot_writable(slot);
        self.set_suf(slot, NOSUF);
        self.kx[slot].set(0);
    }
    fn take_leaf_value_ptr(&self, slot: usize) -> *mut u8 {
        self.slot_writable(slot);
        self.val[slot].replace(core::ptr::null_mut())
    }
    fn ksuf_equals(&self, slot: usize, suffix: &[u8]) -> bool {
        self.kx[slot].get() == KSUF && crate::rg_get::ksuf_equals(self, slot, suffix)
    }
    fn ksuf_compare(&self, _slot: usize, _suffix: &[u8]) -> Option<Ordering> {
        None
    }
    fn ksuf_matches(&self, slot: usize, ikey: u64, suffix: &[u8]) -> bool {
        self.ik[slot].get() == ikey && self.ksuf_equals(slot, suffix)
    }
    fn ksuf_match_result(&self, _slot: usize, _k: u8, _s: &[u8]) -> i32 {
        0
    }
}
pub fn suf_eq(s: &GSuf, o: &[u8]) -> bool {
    s.len as usize == o.len() && s.a == pack(o, 0) && s.b == pack(o, 8) && s.c == pack16(o)
}

impl LayerCapableLeaf<GSlot> for GLeaf {
    fn try_clone_output(&self, slot: usize) -> Option<GOut> {
        if self.kx[slot].get() >= LAYER || self.val[slot].get().is_null() {
            return None;
        }
        Some(unsafe { GSlot::output_from_raw(self.val[slot].get()) })
    }
    unsafe fn assign_from_key_arc(&self, slot: usize, key: &Key<'_>, value: Option<GOut>, g: &LocalGuard<'_>) {
        self.ik[slot].set(key.ikey());
        match value {
            Some(v) => self.val[slot].set(GSlot::output_consume_to_raw(v)),
            None => {}
        }
        if key.has_suffix() {
            unsafe { self.assign_ksuf(slot, key.suffix(), g) };
        } else {
            self.kx[slot].set(key.current_len() as u8);
        }
    }
}
// ---------------------------------------------------------------- internode
#[repr(C)]
pub struct GInter {
    pub version: NodeVersion,
    pub height: u32,
    pub n: Cell<u8>,
    pub ik: [Cell<u64>; IW],
    pub ch: [Cell<*mut u8>; IW + 1],
    pub parent: Cell<*mut u8>,
    /// reachable by other threads
    pub live: Cell<bool>,
}
unsafe impl Send for GInter {}
unsafe impl Sync for GInter {}
impl GInter {
    pub const fn blank() -> Self {
        GInter {
            version: NodeVersion::new(false),
            height: 0,
            n: Cell::new(0),
            ik: [const { Cell::new(0) }; IW],
            ch: [const { Cell::new(core::ptr::null_mut()) }; IW + 1],
            parent: Cell::new(core::ptr::null_mut()),
            live: Cell::new(false),
        }
    }
    fn writable(&self) {
        assert!(!self.live.get() || (self.version.is_locked() && self.version.is_dirty()), "contract: a shared internode is modified only by its lock holder, marked dirty");
    }
    pub fn holds(&self, c: *mut u8) -> bool {
        let n = self.n.get();
        n >= 1 && (self.ch[0].get() == c || self.ch[1].get() == c || (n >= 2 && self.ch[2].get() == c) || (n >= 3 && self.ch[3].get() == c))
    }
    /// both halves of a split child stay locked until the parent routes to them
    fn child_locked(&self, c: *mut u8) {
        let v = if self.height == 0 { unsafe { &(*(c as *const GLeaf)).version } } else { unsafe { &(*(c as *const GInter)).version } };
        assert!(v.is_locked(), "contract: a split child stays locked until its parent routes to both halves");
    }
}
/// contract of `set_parent`: a parent that nobody has locked is complete
fn parent_ok(c: *const u8, p: *mut u8) {
    if !p.is_null() {
        let q = unsafe { &*(p as *const GInter) };
        assert!(q.version.is_locked() || q.holds(c as *mut u8), "contract: a parent is published only when it routes to the child");
    }
}
pub static mut I4: GInter = GInter::blank();
pub static mut I5: GInter = GInter::blank();
pub static mut I6: GInter = GInter::blank();
pub static mut I7: GInter = GInter::blank();
pub static mut I0: GInter = GInter::blank();
pub static mut I1: GInter = GInter::blank();
pub static mut I2: GInter = GInter::blank();
pub static mut I3: GInter = GInter::blank();
pub static mut NEXT_INTER: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000270028 };
pub fn inter_at(i: usize) -> *mut GInter {
    match i {
        0 => &raw mut I0,
        1 => &raw mut I1,
        2 => &raw mut I2,
        3 => &raw mut I3,
        4 => &raw mut I4,
        5 => &raw mut I5,
        6 => &raw mut I6,
        7 => &raw mut I7,
        _ => {
            kani::assume(false);
            core::ptr::null_mut()
        }
    }
}
fn fresh_inter(height: u32) -> Box<GInter> {
    unsafe {
        let p = inter_at(NEXT_INTER.v);
        NEXT_INTER.v += 1;
        (*p).height = height;
        Box::from_raw(p)
    }
}
impl TreeInternode<GSlot> for GInter {
    const WIDTH: usize = IW;
    fn new_boxed(height: u32) -> Box<Self> {
        fresh_inter(height)
    }
    fn new_root_boxed(height: u32) -> Box<Self> {
        let b = fresh_inter(height);
        b.version.mark_root();
        b
    }
    fn new_boxed_for_split(pv: &NodeVersion, height: u32) -> Box<Self> {
        let mut b = fresh_inter(height);
        b.version = NodeVersion::new_for_split(pv);
        b
    }
    fn version(&self) -> &NodeVersion {
        &self.version
    }
    fn height(&self) -> u32 {
        self.height
    }
    fn children_are_leaves(&self) -> bool {
        self.height == 0
    }
    fn nkeys(&self) -> usize {
        crate::seq_walk::nkeys(self)
    }
    fn set_nkeys(&self, n: u8) {
        self.writable();
        self.n.set(n)
    }
    fn inc_nkeys(&self) {
        self.writable();
        self.n.set(self.n.get() + 1)
    }
    fn is_full(&self) -> bool {
        self.n.get() as usize >= IW
    }
    fn ikey(&self, i: usize) -> u64 {
        crate::seq_walk::ikey(self, i)
    }
    fn set_ikey(&self, i: usize, k: u64) {
        self.writable();
        self.ik[i].set(k)
    }
    fn compare_key(&self, k: u64, p: usize) -> Ordering {
        k.cmp(&self.ik[p].get())
    }
    fn find_insert_position(&self, k: u64) -> usize {
        let mut i = 0;
        while i < self.nkeys() && self.ik[i].get() <= k {
            i += 1;
        }
        i
    }
    fn child(&self, i: usize) -> *mut u8 {
        crate::seq_walk::child(self, i)
    }
    fn set_child(&self, i: usize, c: *mut u8) {
        self.writable();
        self.ch[i].set(c)
    }
    fn assign(&self, p: usize, k: u64, rc: *mut u8) {
        self.writable();
        self.ik[p].set(k);
        self.ch[p + 1].set(rc)
    }
    fn insert_key_and_child(&self, p: usize, k: u64, c: *mut u8) {
        let n = self.nkeys();
        self.writable();
        self.child_locked(self.ch[p].get());
        self.child_locked(c);
        assert!(n < IW && p <= n, "contract: internode insert has room");
        let mut i = IW - 1;
        while i > 0 {
            if i > p && i <= n {
                self.ik[i].set(self.ik[i - 1].get());
                self.ch[i + 1].set(self.ch[i].get());
            }
            i -= 1;
        }
        self.ik[p].set(k);
        self.ch[p + 1].set(c);
        self.n.set((n + 1) as u8);
    }
    fn parent(&self) -> *mut u8 {
        self.parent.get()
    }
    fn set_parent(&self, p: *mut u8) {
        parent_ok(self as *const _ as *const u8, p);
        self.parent.set(p)
    }
    fn is_root(&self) -> bool {
        self.version.is_root()
    }
    fn shift_from(&self, d: usize, s: &Self, sp: usize, c: usize) {
        // contract: copies c keys and the children to their right
        self.writable();
        assert!(d + c <= IW && sp + c <= IW, "contract: shift_from stays inside both nodes");
        let mut i = 0;
        while i < IW {
            if i < c {
                self.ik[d + i].set(s.ik[sp + i].get());
                self.ch[d + 1 + i].set(s.ch[sp + 1 + i].get());
            }
            i += 1;
        }
    }
    fn split_into(&self, r: &mut Self, r_ptr: *mut Self, p: usize, k: u64, c: *mut u8) -> (u64, bool) {
        // contract: merge (k, c) at p into the IW keys, keep `mid` keys left, pop one up, rest right
        let n = self.nkeys();
        assert!(self.version.is_locked() && self.version.is_splitting(), "contract: internode split is announced");
        assert!(n == IW && p <= n, "contract: only a full internode is split");
        assert!(r.version.is_locked() && r.height == self.height, "contract: the new half is born locked, at the same height");
        self.child_locked(self.ch[p].get());
        self.child_locked(c);
        let mut ks = [0u64; IW + 1];
        let mut cs = [core::ptr::null_mut::<u8>(); IW + 2];
        cs[0] = self.ch[0].get();
        let mut i = 0;
        while i < IW + 1 {
            if i == p {
                ks[i] = k;
                cs[i + 1] = c;
            } else if i < p {
                ks[i] = self.ik[i].get();
                cs[i + 1] = self.ch[i + 1].get();
            } else {
                ks[i] = self.ik[i - 1].get();
                cs[i + 1] = self.ch[i].get();
            }
            i += 1;
        }
        let mid = (IW + 1) / 2;
        let mut i = 0;
        while i < IW + 1 {
            if i < mid {
                self.ik[i].set(ks[i]);
                self.ch[i + 1].set(cs[i + 1]);
            } else if i > mid {
                r.ik[i - mid - 1].set(ks[i]);
                r.ch[i - mid].set(cs[i + 1]);
            }
            i += 1;
        }
        r.ch[0].set(cs[mid + 1]);
        self.n.set(mid as u8);
        r.n.set((IW - mid) as u8);
        if self.height > 0 {
            // contract: children moved right point to the right node
            let mut i = 0;
            while i <= IW - mid {
                let ch = r.ch[i].get();
                unsafe { (*(ch as *const GInter)).parent.set(r_ptr as *mut u8) };
                i += 1;
            }
        }
        (ks[mid], p < mid)
    }
    fn prefetch(&self) {}
}

// ---------------------------------------------------------------- allocator
pub struct GAlloc;
/// Root handed out by the first `alloc_leaf` (lets a harness install any tree shape).
pub static mut ROOT_OVERRIDE: crate::G<*mut GLeaf> = crate::G { v: core::ptr::null_mut(), magic: 0x5eed000000280029 };
pub static mut TEARDOWNS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed00000029002a };
pub static mut TRACKED_LEAVES: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000002a002b };
pub static mut TRACKED_INTERS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000002b002c };
impl NodeAllocatorGeneric<GSlot, GLeaf> for GAlloc {
    fn alloc_leaf(&self, node: Box<GLeaf>) -> *mut GLeaf {
        unsafe {
            TRACKED_LEAVES.v += 1;
            if !ROOT_OVERRIDE.v.is_null() {
                let r = ROOT_OVERRIDE.v;
                ROOT_OVERRIDE.v = core::ptr::null_mut();
                core::mem::forget(node);
                return r;
            }
            Box::into_raw(node)
        }
    }
    fn track_leaf(&self, _p: *mut GLeaf) {
        unsafe { TRACKED_LEAVES.v += 1 }
    }
    unsafe fn retire_leaf(&self, _p: *mut GLeaf, _g: &LocalGuard<'_>) {}
    fn alloc_internode_erased(&self, p: *mut u8) -> *mut u8 {
        unsafe { TRACKED_INTERS.v += 1 };
        p
    }
    fn track_internode_erased(&self, _p: *mut u8) {
        unsafe { TRACKED_INTERS.v += 1 }
    }
    unsafe fn retire_internode_erased(&self, _p: *mut u8, _g: &LocalGuard<'_>) {}
    fn teardown_tree(&self, _r: *mut u8) {
        unsafe {
            assert!(seize::RECLAIMED_ALL.v > 0, "contract: deferred releases run before the nodes are freed");
            TEARDOWNS.v += 1
        }
    }
    unsafe fn retire_subtree_root(&self, _r: *mut u8, _g: &LocalGuard<'_>) {}
}
/// a tree whose root is `root` (any node of the pools)
pub fn tree_with_root(root: *mut u8) -> GTree {
    unsafe {
        ROOT_OVERRIDE.v = root as *mut GLeaf;
        NEXT_LEAF.v = 4;
        let t = GTree::with_allocator(GAlloc);
        NEXT_LEAF.v = 0;
        t
    }
}
pub type GTree = MassTreeGeneric<GSlot, GLeaf, GAlloc>;

/// Layers available below the root; entering more is a contract failure.
pub static mut MAX_SHIFT: crate::G<usize> = crate::G { v: 0, magic: 0x5eed0000002c002d };
/// Contract of `Key::read_ikey` (proved for the real function elsewhere).
pub struct KeySpec<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> KeySpec<'a> {
#[allow(clippy::needless_lifetimes)]
pub fn read_ikey(data: &[u8], offset: usize) -> u64 {
    assert!(offset <= 8 * unsafe { MAX_SHIFT.v }, "contract: a layer is entered only through a layer slot");
    pack(data, offset)
}
}

/// Contract of `NodeVersion` in a quiescent state (no writer; proved for the real
/// functions elsewhere): nothing is dirty, nothing has changed, nothing is deleted.
pub struct Quiet;
impl Quiet {
    pub fn stable(_v: &NodeVersion) -> u32 {
        0
    }
    pub fn no1(_v: &NodeVersion, _old: u32) -> bool {
        false
    }
    pub fn no(_v: &NodeVersion) -> bool {
        false
    }
}
