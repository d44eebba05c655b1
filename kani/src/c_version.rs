//! Contracts of `NodeVersion` / `LockGuard` on the real code, checked as one thread of a
//! rely–guarantee system (see rg.rs).
use crate::rg::*;
use masstree::nodeversion::NodeVersion;

static mut V: NodeVersion = NodeVersion::new(true);
/// a version word in any state the protocol allows; watched
fn any_version() -> &'static NodeVersion {
    unsafe {
        let v: u32 = kani::any();
        kani::assume(v & !(LOCK | DIRTY | CTR | DELETED | ROOT | LEAF) == 0);
        kani::assume((v & LOCK != 0) == (v & DIRTY != 0));
        V = NodeVersion::from_value(v);
        WATCH.v = V.as_ptr() as usize;
        OWNER.v = if v & LOCK != 0 { Owner::Env } else { Owner::None };
        ENV.v = false;
        ROUNDS.v = 0;
        WROTE.v = false;
        SECTION.v = false;
        SPLIT_SECTION.v = false;
        &V
    }
}
fn any_free() -> &'static NodeVersion {
    let v = any_version();
    kani::assume(unsafe { OWNER.v } == Owner::None);
    v
}
fn unwatch() {
    unsafe { WATCH.v = 0 }
}
macro_rules! h { ($($name:ident => $body:expr;)*) => { $(
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(core::sync::atomic::atomic_load, g_load)]
    #[kani::stub(core::sync::atomic::atomic_store, g_store)]
    #[kani::stub(core::sync::atomic::atomic_compare_exchange, g_cas)]
    #[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, g_cas_weak)]
    #[kani::stub(core::sync::atomic::atomic_or, g_or)]
    #[kani::stub(core::sync::atomic::atomic_and, g_and)]
    #[kani::stub(core::sync::atomic::fence, g_fence)]
    #[kani::stub(std::thread::yield_now, g_yield)]
    #[kani::stub(core::hint::spin_loop, g_yield)]
    fn $name() { $body }
)* } }
h! {
    version_flags => flags();
    version_lock => { lock(0); };
    version_lock_yield => { lock(1); };
    version_try_lock => { let r = lock(2); kani::cover!(!r); };
    version_stable => stable();
    version_reader => reader();
    version_section => section();
    version_sections => sections();
    version_sections_many => sections_many();
    version_section_step => section_step();
    version_new_for_split => new_for_split();
}

/// every flag query reports exactly its flag; root marks change nothing else
fn flags() {
    let v = any_version();
    let x = v.value();
    assert!(v.is_leaf() == (x & LEAF != 0));
    assert!(v.is_root() == (x & ROOT != 0));
    assert!(v.is_deleted() == (x & DELETED != 0));
    assert!(v.is_locked() == (x & LOCK != 0));
    assert!(v.is_inserting() == (x & INSERT != 0));
    assert!(v.is_splitting() == (x & SPLIT != 0));
    assert!(v.is_dirty() == (x & DIRTY != 0));
    assert!(v.is_split_locked() == (x & LOCK != 0 && x & SPLIT != 0));
    v.mark_root();
    assert!(v.value() == x | ROOT && v.is_root());
    v.mark_nonroot();
    assert!(v.value() == x & !ROOT && !v.is_root());
    let leaf: bool = kani::any();
    let n = NodeVersion::new(leaf);
    assert!(n.is_leaf() == leaf && !n.is_root() && !n.is_locked() && !n.is_dirty() && !n.is_deleted(), "a new node is free and clean");
    kani::cover!(x & LOCK != 0);
}
/// Acquisition under interference: exclusive, marked dirty at once, nothing else changed.
fn lock(kind: u8) -> bool {
    let v = any_version();
    unsafe { ENV.v = true };
    let g = match kind {
        0 => Some(v.lock()),
        1 => Some(v.lock_with_yield()),
        _ => v.try_lock(),
    };
    match g {
        Some(g) => {
            unsafe {
                assert!(OWNER.v == Owner::Me, "a returned guard means the lock is held by the caller alone");
                ENV.v = false;
            }
            assert!(v.is_locked() && v.is_dirty(), "the locked node is marked dirty before any write");
            assert!(g.locked_value() == v.value(), "the guard remembers the word it installed");
            kani::cover!(unsafe { SECTION.v }, "acquired after another writer");
            let before = v.value();
            drop(g);
            assert!(unsafe { OWNER.v } == Owner::None && !v.is_locked() && !v.is_dirty(), "dropping the guard releases the lock");
            assert!((before ^ v.value()) & (ROOT | LEAF | DELETED) == 0, "an insert section keeps kind, root and deleted marks");
            assert!(before & !(LOCK | DIRTY) != v.value(), "the version moves on");
            true
        }
        None => {
            assert!(unsafe { OWNER.v } != Owner::Me, "a refused lock is not held");
            false
        }
    }
}
/// `stable` waits out every write section and returns an acquired, clean word
fn stable() {
    let v = any_version();
    unsafe { ENV.v = true };
    let s = v.stable();
    unsafe {
        assert!(s & DIRTY == 0 && s & LOCK == 0, "a snapshot is never taken inside a write section");
        assert!(s == LAST.v, "the snapshot is a value the word held");
        assert!(ACQ.v, "the snapshot synchronises with the last unlock (acquire)");
        kani::cover!(SECTION.v);
        kani::cover!(!SECTION.v && OWNER.v == Owner::None);
    }
}
/// The read protocol: a validated reader overlapped no write.
fn reader() {
    let v = any_version();
    unsafe { ENV.v = true };
    let s = v.stable();
    unsafe {
        WROTE.v = false;
        SECTION.v = false;
        SPLIT_SECTION.v = false;
        // data reads happen here, interleaved with anything the others do
        *(WATCH.v as *mut u32) = env_steps(*(WATCH.v as *mut u32));
        ENV.v = kani::any();
        ROUNDS.v = 0;
    }
    if kani::any() {
        let bad = v.has_changed_or_locked(s);
        unsafe {
            assert!(bad || !WROTE.v, "a reader that validates overlapped no write");
            assert!(bad || !SECTION.v, "a reader that validates overlapped no write section");
            assert!(ENV.v || !bad || SECTION.v || OWNER.v == Owner::Env, "a reader is not refused without cause");
            kani::cover!(!bad);
            kani::cover!(bad && WROTE.v);
        }
    } else if kani::any() {
        let ch = v.has_changed(s);
        unsafe {
            assert!(ch || !SECTION.v, "every completed write section is noticed");
            assert!(ENV.v || !ch || SECTION.v || OWNER.v == Owner::Env, "no change is reported without cause");
        }
    } else {
        let simple: bool = kani::any();
        let sp = if simple { v.simple_has_split(s) } else { v.has_split(s) };
        unsafe {
            assert!(sp || !SPLIT_SECTION.v, "every completed split is noticed");
            assert!(ENV.v || !sp || SECTION.v, "no split is reported without cause");
            kani::cover!(sp && SPLIT_SECTION.v);
        }
    }
}
/// A write section seen from any reader: refused during the section and noticed after it.
fn section() {
    let v = any_free();
    let s = v.value();
    let mut g = v.lock();
    assert!(v.has_changed_or_locked(s), "a locked node does not validate");
    assert!(!v.has_changed(s), "taking the lock is not itself a change");
    let (a, b, split): (bool, bool, bool) = (kani::any(), kani::any(), kani::any());
    if a {
        g.mark_insert();
        assert!(v.has_changed_or_locked(s) && v.is_inserting() && v.is_locked());
    }
    if split {
        g.mark_split();
        assert!(v.has_changed_or_locked(s) && v.is_splitting() && v.is_locked() && v.is_dirty(), "a split is announced while the lock is held");
    }
    if b {
        g.mark_nonroot();
        assert!(!v.is_root() && v.is_locked() && v.has_changed_or_locked(s));
    }
    if kani::any() {
        g.mark_insert();
    }
    assert!(g.locked_value() == v.value(), "the guard tracks the word");
    drop(g);
    assert!(!v.is_locked() && !v.is_dirty(), "released and clean");
    assert!(v.has_changed(s) && v.has_changed_or_locked(s), "the section is noticed by every earlier reader");
    if split {
        assert!(v.has_split(s) && v.simple_has_split(s), "a split is noticed by every earlier reader");
        assert!(!v.is_root(), "a split node is no longer a root");
    } else {
        assert!(v.is_root() == (s & ROOT != 0 && !b), "an insert keeps the root mark");
    }
    assert!(v.is_leaf() == (s & LEAF != 0) && v.is_deleted() == (s & DELETED != 0));
    kani::cover!(split && a && b);
    kani::cover!(!split && s & ROOT != 0 && v.is_root());
}
/// no ABA within three consecutive sections of any kind
fn sections() {
    unwatch();
    let v = any_free();
    let s = v.value();
    let mut i = 0;
    while i < 3 {
        let mut g = v.lock();
        if kani::any() {
            g.mark_split();
        }
        drop(g);
        assert!(v.has_changed(s), "the version does not come back to an earlier value");
        i += 1;
    }
    kani::cover!(true);
}
/// the insert counter does not wrap back into an earlier version
fn sections_many() {
    unwatch();
    let v = any_free();
    let s = v.value();
    let mut i = 0;
    while i < 14 {
        let mut j = 0;
        while j < 5 {
            match v.try_lock() {
                Some(g) => drop(g),
                None => assert!(false, "a free node can be locked"),
            }
            assert!(v.has_changed(s), "the version does not come back to an earlier value");
            j += 1;
        }
        i += 1;
    }
    kani::cover!(true);
}
/// every section moves the version counter forward, by a small step: no wrap-around within
/// a thousand sections (induction over the sections)
fn section_step() {
    unwatch();
    let v = any_free();
    let a = v.value() & CTR;
    let mut g = v.lock();
    let split: bool = kani::any();
    if split {
        g.mark_split();
    }
    drop(g);
    let d = (v.value() & CTR).wrapping_sub(a) & CTR;
    assert!(d != 0 && d <= CTR / 1024, "the version counter moves forward by a small step");
    kani::cover!(split);
    kani::cover!(!split);
}
/// nodes born locked by a split
fn new_for_split() {
    let src = any_free();
    let leaf = src.is_leaf();
    let mut g = src.lock();
    g.mark_split();
    let n = NodeVersion::new_for_split(src);
    assert!(n.is_locked() && n.is_splitting() && n.is_dirty() && n.is_split_locked(), "a split sibling is born locked and dirty");
    assert!(n.is_leaf() == leaf && !n.is_root() && !n.is_deleted(), "kind inherited, neither root nor deleted");
    assert!(n.try_lock().is_none(), "nobody else can lock it");
    let s = n.value();
    unsafe {
        WATCH.v = n.as_ptr() as usize;
        OWNER.v = Owner::Me;
    }
    n.unlock_for_split();
    unsafe { assert!(OWNER.v == Owner::None) };
    assert!(!n.is_locked() && !n.is_dirty() && n.is_leaf() == leaf && !n.is_root() && !n.is_deleted(), "unlocking leaves a free, clean node");
    assert!(n.has_split(s) && n.has_changed(s) && n.has_split(s & !(LOCK | DIRTY)), "the split is noticed");
    unwatch();
    core::mem::forget(g);
    kani::cover!(leaf);
    kani::cover!(!leaf);
}
