//! Contract of creating a layer for two keys that share a chunk
//! (`create_layer_concurrent_generic` / `assign_final_layer_entries`).
use crate::ghost::*;
use crate::seq::*;
use masstree::MassTreeGeneric;
use masstree::alloc_trait::NodeAllocatorGeneric;
use masstree::key::Key;
use masstree::leaf_trait::*;
use masstree::slot::ValueSlot;
use seize::LocalGuard;

/// stands for the private `MassTreeGeneric::create_layer_concurrent_generic`
pub unsafe fn create<S, L, A>(_t: &MassTreeGeneric<S, L, A>, _leaf: &L, _slot: usize, _key: &mut Key<'_>, _v: S::Output, _g: &LocalGuard<'_>) -> *mut u8
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
    A: NodeAllocatorGeneric<S, L>,
{
    unreachable!()
}
/// `same`: chunks both suffixes share; then `es`/`ns` more bytes each (arbitrary, unless
/// both are longer than a chunk: then the next chunk is ordered by `ord`)
fn layer(twigs: usize, es: usize, ns: usize, ord: i8) {
    init();
    unsafe {
        EXT.v = true;
        MAX_SHIFT.v = 4;
    }
    let t: GTree = tree_with_root(leaf_at(0) as *mut u8);
    unsafe {
        NEXT_LEAF.v = 1;
        TRACKED_LEAVES.v = 0;
    }
    let l = unsafe { &L0 };
    let (mut e, mut k): ([u8; 24], [u8; 32]) = (kani::any(), kani::any());
    let mut i = 0;
    while i < 8 * twigs {
        // shared chunks, distinct from each other
        e[i] = 0x40 + i as u8;
        k[8 + i] = e[i];
        i += 1;
    }
    if es > 8 && ns > 8 {
        let mut i = 0;
        while i < 8 {
            e[8 * twigs + i] = 0x20;
            k[8 + 8 * twigs + i] = if i == 7 { (0x20 + ord) as u8 } else { 0x20 };
            i += 1;
        }
    }
    let (en, kn) = (8 * twigs + es, 8 + 8 * twigs + ns);
    let (e, key) = (&e[..en], &k[..kn]);
    // the conflict: same chunk, different suffix
    let ik = pack(key, 0);
    l.ik[1].set(ik);
    l.kx[1].set(KSUF);
    l.set_suf(1, gsuf(e));
    l.val[1].set(tok(0));
    unsafe { RAWS.v[0] = 1 };
    l.perm.set(GPerm { n: 1, ord: [1, 0, 2], frozen: 0 });
    l.live.set(true);
    kani::assume(!suf_eq(&l.suf(1), &key[8..]));
    let mut lock = l.version.lock();
    lock.mark_insert();
    let g = t.guard();
    let mut kk = Key::new(key);
    let out = GSlot::into_output(GVal(5));
    let r = unsafe { create::<GSlot, GLeaf, GAlloc>(&t, l, 1, &mut kk, out, &g) };
    // the conflict slot itself is the caller's business
    assert!(l.ik[1].get() == ik && l.kx[1].get() == KSUF && l.val[1].get() == tok(0) && suf_eq(&l.suf(1), e), "the old entry stays in place until the layer is installed");
    unsafe {
        assert!(TRACKED_LEAVES.v == twigs + 1, "every new node is handed to the allocator once");
        assert!(RAWS.v[5] == 1 && OUTS.v[5] == 0, "the layer owns the new value once");
        assert!(RAWS.v[0] == 2 && OUTS.v[0] == 0 && FREED.v[0] == 0, "the layer owns its own reference to the old value");
    }
    let mut p = r;
    let mut i = 0;
    while i < twigs {
        assert!(p == leaf_at(1 + i) as *mut u8, "the chain starts at the first twig");
        let n = unsafe { &*leaf_at(1 + i) };
        assert!(n.perm.get().n == 1 && n.kx[n.perm.get().ord[0] as usize].get() >= LAYER, "a twig holds one layer entry");
        let s = n.perm.get().ord[0] as usize;
        assert!(n.ik[s].get() == pack(key, 8 + 8 * i), "a twig holds the shared chunk");
        assert!(n.version.is_root() && n.parent.get().is_null() && n.next.get().is_null() && quiet(&n.version), "a twig is the root of its layer");
        p = n.val[s].get();
        i += 1;
    }
    assert!(p == leaf_at(1 + twigs) as *mut u8, "the chain ends in the leaf with both keys");
    let f = unsafe { &*leaf_at(1 + twigs) };
    assert!(f.version.is_root() && f.parent.get().is_null() && f.next.get().is_null() && quiet(&f.version), "the last leaf is the root of its layer");
    assert!(f.perm.get().n == 2 && leaf_inv(f), "the new leaf is sorted and holds two distinct keys");
    assert!(find(f, &k1(key, 8 + 8 * twigs)) == tok(5), "the new key is found in the layer");
    assert!(find(f, &k1(e, 8 * twigs)) == tok(0), "the old key is found in the layer");
    core::mem::forget(lock);
    core::mem::forget(g);
    core::mem::forget(t);
}
macro_rules! h { ($($n:ident = $e:expr;)*) => { $(
    #[cfg(not(feature = "off_seq_create"))]
    #[kani::proof]
    #[kani::unwind(26)]
    #[kani::stub(create, masstree::MassTreeGeneric::create_layer_concurrent_generic)]
    #[kani::stub(masstree::key::Key::read_ikey, KeySpec::read_ikey)]
    fn $n() { $e; kani::cover!(true); }
)* } }
h! {
    layer_inline = { layer(0, 3, 3, 0); layer(0, 2, 5, 0); layer(0, 8, 1, 0); layer(0, 8, 8, 0); };
    layer_prefix = { layer(0, 8, 9, 0); layer(0, 12, 8, 0); layer(0, 4, 10, 0); layer(0, 16, 3, 0); };
    layer_suffixed = { layer(0, 9, 12, 1); layer(0, 12, 9, -1); };
    layer_twig_1 = { layer(1, 4, 4, 0); layer(1, 8, 3, 0); layer(1, 1, 8, 0); layer(1, 12, 8, 0); layer(1, 9, 9, -1); layer(1, 10, 9, 1); };
    layer_twig_2 = { layer(2, 4, 4, 0); layer(2, 8, 5, 0); layer(2, 3, 8, 0); };
}
