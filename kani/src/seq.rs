//! Sequential contracts of the tree driver over ghost nodes (widths W = IW = 3).
use crate::ghost::*;
use masstree::leaf_trait::*;

/// every slot order of a leaf with `n` entries
pub fn any_perm(n: u8) -> GPerm<W> {
    let ord: [u8; W] = kani::any();
    kani::assume(ord[0] < 3 && ord[1] < 3 && ord[2] < 3 && ord[0] != ord[1] && ord[0] != ord[2] && ord[1] != ord[2]);
    GPerm { n, ord, frozen: 0 }
}
pub fn keylen(sel: u8) -> u8 {
    if sel == KSUF {
        KSUF
    } else {
        // any inline length
        let k: u8 = kani::any();
        kani::assume(k <= 8);
        k
    }
}
/// arbitrary entries; `kx[i]` selects inline (0) / suffix (KSUF); values tok(base + i)
pub fn fill(l: &GLeaf, kx: [u8; W], base: usize) {
    macro_rules! one { ($($i:literal)*) => { $(
        l.ik[$i].set(kani::any());
        l.kx[$i].set(keylen(kx[$i]));
        l.set_suf($i, if kx[$i] == KSUF { any_suf() } else { NOSUF });
        l.val[$i].set(tok(base + $i));
        unsafe { RAWS.v[base + $i] = 1; }
    )* } }
    one!(0 1 2);
    l.live.set(true);
}
/// A key in one layer: chunk, length class, suffix.
#[derive(Clone, Copy)]
pub struct K1 {
    pub ik: u64,
    pub kx: u8,
    pub suf: GSuf,
}
pub fn k1(k: &[u8], at: usize) -> K1 {
    let rest = k.len() - at;
    if rest > 8 {
        K1 { ik: pack(k, at), kx: KSUF, suf: gsuf(&k[at + 8..]) }
    } else {
        K1 { ik: pack(k, at), kx: rest as u8, suf: NOSUF }
    }
}
pub fn any_k1() -> K1 {
    let suffixed: bool = kani::any();
    K1 { ik: kani::any(), kx: keylen(if suffixed { KSUF } else { 0 }), suf: if suffixed { any_suf() } else { NOSUF } }
}
pub fn same(a: &K1, b: &K1) -> bool {
    a.ik == b.ik && a.kx == b.kx && (a.kx != KSUF || suf_same(&a.suf, &b.suf))
}
/// logical entry i of a leaf
pub fn ent(l: &GLeaf, i: usize) -> K1 {
    let s = l.perm.get().ord[i] as usize;
    K1 { ik: l.ik[s].get(), kx: l.kx[s].get(), suf: l.suf(s) }
}
/// specification of lookup in one leaf: value pointer of the entry with that key
pub fn find(l: &GLeaf, k: &K1) -> *mut u8 {
    let p = l.perm.get();
    let mut r = core::ptr::null_mut();
    macro_rules! one { ($($i:literal)*) => { $(
        if ($i as u8) < p.n && same(&ent(l, $i), k) { r = l.val[p.ord[$i] as usize].get(); }
    )* } }
    one!(0 1 2);
    r
}
/// strictly increasing chunks, or equal chunk with different keys: the leaf invariant
pub fn sorted(l: &GLeaf) -> bool {
    let p = l.perm.get();
    let two = |i: usize| ent(l, i - 1).ik <= ent(l, i).ik;
    (p.n < 2 || two(1)) && (p.n < 3 || two(2))
}
fn distinct2(a: &K1, b: &K1) -> bool {
    a.ik != b.ik || (a.kx < LAYER && b.kx < LAYER && a.kx != b.kx && !(a.kx == KSUF && b.kx == KSUF)) || (a.kx >= LAYER && b.kx < KSUF) || (b.kx >= LAYER && a.kx < KSUF)
}
/// at most one entry per inline key and at most one suffix-or-layer entry per chunk
pub fn distinct(l: &GLeaf) -> bool {
    let p = l.perm.get();
    (p.n < 2 || distinct2(&ent(l, 0), &ent(l, 1)))
        && (p.n < 3 || (distinct2(&ent(l, 0), &ent(l, 2)) && distinct2(&ent(l, 1), &ent(l, 2))))
}
pub fn perm_ok(p: &GPerm<W>) -> bool {
    p.n <= 3 && p.ord[0] < 3 && p.ord[1] < 3 && p.ord[2] < 3 && p.ord[0] != p.ord[1] && p.ord[0] != p.ord[2] && p.ord[1] != p.ord[2]
}
pub fn leaf_inv(l: &GLeaf) -> bool {
    perm_ok(&l.perm.get()) && sorted(l) && distinct(l)
}
pub fn quiet(v: &masstree::nodeversion::NodeVersion) -> bool {
    !v.is_locked() && !v.is_dirty()
}

// ------------------------------------------------------------------ get
fn get_single(kx: [u8; W], n: u8) {
    init();
    let t: GTree = GTree::with_allocator(GAlloc);
    let l = unsafe { &L0 };
    fill(l, kx, 0);
    l.perm.set(any_perm(n));
    kani::assume(leaf_inv(l));
    let kb: [u8; 20] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 20);
    let key = &kb[..len];
    let exp = find(l, &k1(key, 0));
    check_get(&t, key, exp);
    core::mem::forget(t);
}
#[cfg(not(feature = "off_seq"))]
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
fn seq_get_single() {
    get_single([0, KSUF, 0], 3);
}
#[cfg(not(feature = "off_seq"))]
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
fn seq_get_single_suffixes() {
    get_single([KSUF, KSUF, KSUF], 2);
}

macro_rules! harness { ($($name:ident => $body:expr;)*) => { $(
    #[cfg(not(feature = "off_seq"))]
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    fn $name() { $body }
)* } }
fn check_get(t: &GTree, key: &[u8], exp: *mut u8) {
    check_val(t, key, exp);
    check_ref(t, key, exp);
}
fn check_ref(t: &GTree, key: &[u8], exp: *mut u8) {
    let g = t.guard();
    unsafe { VISITS.v = 0 };
    let rr = t.get_ref(key, &g);
    match rr {
        Some(v) => assert!(v as *const GVal as *mut u8 == exp, "get_ref returns the value stored under the key"),
        None => assert!(exp.is_null(), "get_ref finds every stored key"),
    }
    kani::cover!(rr.is_some());
    kani::cover!(rr.is_none());
}
fn check_val(t: &GTree, key: &[u8], exp: *mut u8) {
    let g = t.guard();
    unsafe { VISITS.v = 0 };
    let r = t.get_with_guard(key, &g);
    match &r {
        Some(o) => assert!(tok(o.0 as usize) == exp, "get returns the value stored under the key"),
        None => assert!(exp.is_null(), "get finds every stored key"),
    }
    kani::cover!(r.is_some());
    kani::cover!(r.is_none());
    core::mem::forget(r);
}
type Look = fn(&GTree, &[u8], *mut u8);
/// two linked leaves: the key is in the leaf whose range holds its chunk
fn get_blink(look: Look) {
    init();
    unsafe { MAX_VISITS.v = 2 };
    let t: GTree = GTree::with_allocator(GAlloc);
    let (a, b) = unsafe { (&L0, &L1) };
    fill(a, [0, KSUF, 0], 0);
    fill(b, [KSUF, 0, 0], 3);
    a.perm.set(any_perm(2));
    b.perm.set(any_perm(2));
    a.next.set(leaf_at(1));
    b.prev.set(leaf_at(0));
    kani::assume(leaf_inv(a) && leaf_inv(b));
    let bound = b.ik[0].get();
    kani::assume(ent(a, 1).ik < bound && bound <= ent(b, 0).ik);
    let kb: [u8; 20] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 20);
    let k = k1(&kb[..len], 0);
    let exp = if k.ik >= bound { find(b, &k) } else { find(a, &k) };
    kani::cover!(k.ik >= bound && !exp.is_null());
    look(&t, &kb[..len], exp);
    core::mem::forget(t);
}
/// root internode with 1..=3 separators
fn get_internode(n: u8, look: Look) {
    init();
    let t: GTree = tree_with_root(inter_at(0) as *mut u8);
    let i0 = unsafe { &I0 };
    let lv = unsafe { [&L0, &L1, &L2, &L3] };
    let mut i = 0;
    while i < 4 {
        let l = lv[i];
        l.live.set(true);
        l.ik[0].set(kani::any());
        l.kx[0].set(keylen(0));
        l.val[0].set(tok(i));
        l.perm.set(GPerm { n: 1, ord: [0, 2, 1], frozen: 0 });
        l.parent.set(inter_at(0) as *mut u8);
        i0.ch[i].set(leaf_at(i) as *mut u8);
        if i > 0 && i as u8 <= n {
            lv[i].prev.set(leaf_at(i - 1));
            lv[i - 1].next.set(leaf_at(i));
            i0.ik[i - 1].set(l.ik[0].get());
            kani::assume(lv[i - 1].ik[0].get() < l.ik[0].get());
        }
        i += 1;
    }
    i0.n.set(n);
    let kb: [u8; 8] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 8);
    let k = k1(&kb[..len], 0);
    let mut c = 0;
    if n >= 1 && k.ik >= i0.ik[0].get() { c = 1 }
    if n >= 2 && k.ik >= i0.ik[1].get() { c = 2 }
    if n >= 3 && k.ik >= i0.ik[2].get() { c = 3 }
    let exp = find(lv[c], &k);
    look(&t, &kb[..len], exp);
    core::mem::forget(t);
}
/// a layer below slot 0 of the root leaf, optionally with a promoted layer root
fn get_layer(promoted: bool, look: Look) {
    init();
    unsafe { MAX_SHIFT.v = 1; MAX_VISITS.v = 2 };
    let t: GTree = GTree::with_allocator(GAlloc);
    let (a, b, c) = unsafe { (&L0, &L1, &L2) };
    fill(a, [0, KSUF, 0], 0);
    a.kx[0].set(LAYER);
    a.val[0].set(leaf_at(1) as *mut u8);
    a.perm.set(GPerm { n: 3, ord: [2, 0, 1], frozen: 0 });
    fill(b, [0, KSUF, 0], 3);
    b.version.mark_root();
    b.perm.set(any_perm(2));
    kani::assume(leaf_inv(a) && leaf_inv(b));
    if promoted {
        // the layer's first leaf was split: its parent is the layer's root now
        c.live.set(true);
        c.ik[0].set(kani::any());
        c.kx[0].set(3);
        c.val[0].set(tok(2));
        c.perm.set(GPerm { n: 1, ord: [0, 1, 2], frozen: 0 });
        kani::assume(ent(b, 1).ik < c.ik[0].get());
        b.next.set(leaf_at(2));
        c.prev.set(leaf_at(1));
        let i0 = unsafe { &I0 };
        i0.n.set(1);
        i0.ik[0].set(c.ik[0].get());
        i0.ch[0].set(leaf_at(1) as *mut u8);
        i0.ch[1].set(leaf_at(2) as *mut u8);
        b.parent.set(inter_at(0) as *mut u8);
        c.parent.set(inter_at(0) as *mut u8);
    }
    let kb: [u8; 20] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 20);
    let key = &kb[..len];
    let k = k1(key, 0);
    let exp = if len > 8 && k.ik == a.ik[0].get() {
        let k2 = k1(key, 8);
        if promoted && k2.ik >= c.ik[0].get() { find(c, &k2) } else { find(b, &k2) }
    } else {
        find(a, &k)
    };
    kani::cover!(len > 8 && k.ik == a.ik[0].get() && !exp.is_null());
    look(&t, key, exp);
    core::mem::forget(t);
}
pub fn no_prefetch<T>(_p: *const T) {}
macro_rules! quiet_harness { ($($name:ident => $body:expr;)*) => { $(
    #[cfg(not(feature = "off_seq"))]
    #[kani::proof]
    #[kani::solver(minisat)]
    #[kani::unwind(5)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    #[kani::stub(masstree::prefetch::prefetch_read, no_prefetch)]
    #[kani::stub(masstree::nodeversion::NodeVersion::stable, Quiet::stable)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_changed, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_changed_or_locked, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::has_split, Quiet::no1)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_deleted, Quiet::no)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_dirty, Quiet::no)]
    #[kani::stub(masstree::nodeversion::NodeVersion::is_splitting, Quiet::no)]
    fn $name() { $body }
)* } }
quiet_harness! {
    seq_get_blink => get_blink(check_val);
    seq_get_internode_1 => get_internode(1, check_val);
    seq_get_internode_3 => get_internode(3, check_val);
    seq_get_layer => get_layer(false, check_val);
    seq_get_layer_promoted => get_layer(true, check_val);
    seq_ref_blink => get_blink(check_ref);
    seq_ref_internode_1 => get_internode(1, check_ref);
    seq_ref_internode_3 => get_internode(3, check_ref);
    seq_ref_layer => get_layer(false, check_ref);
    seq_ref_layer_promoted => get_layer(true, check_ref);
}
// ------------------------------------------------------------------ insert, room in the leaf
fn insert_room(kx: [u8; W], n: u8) {
    init();
    unsafe { seize::EAGER.v = true };
    let t: GTree = GTree::with_allocator(GAlloc);
    let l = unsafe { &L0 };
    fill(l, kx, 0);
    l.perm.set(any_perm(n));
    kani::assume(leaf_inv(l));
    let kb: [u8; 20] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 20);
    let key = &kb[..len];
    let k = k1(key, 0);
    let probe = any_k1();
    let before = find(l, &probe);
    let old = find(l, &k);
    // no suffix conflict in this harness (see seq_insert_conflict)
    let conflict = |i: usize| (i as u8) < n && ent(l, i).ik == k.ik && ent(l, i).kx == KSUF && k.kx == KSUF && old.is_null();
    kani::assume(!conflict(0) && !conflict(1) && !conflict(2));
    let g = t.guard();
    let count0 = t.len();
    let r = t.insert_with_guard(key, GVal(5), &g);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            assert!(false, "insert of a legal key succeeds");
            None
        }
    };
    assert!(r.is_some() == !old.is_null(), "insert reports whether the key was present");
    if let Some(o) = &r {
        assert!(tok(o.0 as usize) == old, "insert returns the previous value");
    }
    assert!(t.len() == count0 + old.is_null() as usize, "len counts distinct keys");
    let after = find(l, &probe);
    assert!(after == if same(&probe, &k) { tok(5) } else { before }, "insert changes exactly the inserted key");
    assert!(leaf_inv(l), "leaf stays sorted and duplicate-free");
    assert!(l.perm.get().n == n + old.is_null() as u8);
    assert!(quiet(&l.version) && l.version.is_root() && l.version.is_leaf(), "lock released, root flag kept");
    unsafe {
        assert!(OUTS.v[5] == 0 && RAWS.v[5] == 1, "the tree owns the new value once");
        macro_rules! one { ($($i:literal)*) => { $(
            let gone = old == tok($i);
            assert!(RAWS.v[$i] == !gone as i8 && FREED.v[$i] == gone as i8 && OUTS.v[$i] == gone as i8, "old value: one owner handed back, one retirement");
        )* } }
        one!(0 1 2);
    }
    kani::cover!(r.is_some());
    kani::cover!(r.is_none() && same(&probe, &k));
    kani::cover!(r.is_none() && !before.is_null());
    core::mem::forget(r);
    core::mem::forget(t);
}
harness! {
    seq_insert_room_1 => insert_room([KSUF, 0, KSUF], 1);
    seq_insert_room_2 => insert_room([0, 0, KSUF], 2);
}
