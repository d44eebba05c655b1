//! Rely–guarantee instrumentation of a node's version word.
//!
//! Every atomic access the verified code makes goes through the stubs below.  Accesses to
//! the watched word are preceded by an arbitrary sequence of legal steps of the other
//! threads (the rely) and are themselves checked against the locking protocol (the
//! guarantee).  All other atomic words behave sequentially.
use core::sync::atomic::Ordering;

pub const LOCK: u32 = 1;
pub const INSERT: u32 = 2;
pub const SPLIT: u32 = 4;
pub const DIRTY: u32 = INSERT | SPLIT;
pub const ROOT: u32 = 1 << 30;
pub const LEAF: u32 = 1 << 31;
pub const DELETED: u32 = 1 << 29;
pub const CTR_LOW: u32 = 3;
pub const SPL_LOW: u32 = 9;
pub const CTR: u32 = 0x0FFF_FFF8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Owner {
    None,
    Me,
    Env,
}
pub static mut WATCH: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000010002 };
pub static mut OWNER: crate::G<Owner> = crate::G { v: Owner::None, magic: 0x5eed000000020003 };
/// environment steps enabled
pub static mut ENV: crate::G<bool> = crate::G { v: false, magic: 0x5eed000000030004 };
/// accesses of the watched word so far; later rounds of a spin loop are cut
pub static mut ROUNDS: crate::G<usize> = crate::G { v: 0, magic: 0x5eed000000040005 };
pub static mut MAX_ROUNDS: crate::G<usize> = crate::G { v: 6, magic: 0x5eed000000050006 };
/// the environment modified the node's data since this was last cleared
pub static mut WROTE: crate::G<bool> = crate::G { v: false, magic: 0x5eed000000060007 };
/// a write section of the environment has completed since this was last cleared
pub static mut SECTION: crate::G<bool> = crate::G { v: false, magic: 0x5eed000000070008 };
pub static mut SPLIT_SECTION: crate::G<bool> = crate::G { v: false, magic: 0x5eed000000080009 };
/// last value loaded, and whether an acquire load or fence covers it
pub static mut LAST: crate::G<u32> = crate::G { v: 0, magic: 0x5eed00000009000a };
pub static mut ACQ: crate::G<bool> = crate::G { v: false, magic: 0x5eed0000000a000b };

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}
fn env_once(v: u32) -> u32 {
    unsafe {
        let act: u8 = kani::any();
        match OWNER.v {
            Owner::None => {
                if act == 1 {
                    OWNER.v = Owner::Env;
                    return v | LOCK | INSERT;
                }
                v
            }
            Owner::Env => {
                if act == 1 {
                    WROTE.v = true;
                    return v;
                }
                if act == 2 {
                    return v | SPLIT;
                }
                if act == 3 {
                    OWNER.v = Owner::None;
                    SECTION.v = true;
                    let c = if v & SPLIT != 0 {
                        SPLIT_SECTION.v = true;
                        ((v & CTR) + (1 << SPL_LOW)) & CTR & !((1 << SPL_LOW) - 1)
                    } else {
                        ((v & CTR) + (1 << CTR_LOW)) & CTR
                    };
                    let root = if v & SPLIT != 0 { 0 } else { v & ROOT };
                    return c | (v & (LEAF | DELETED)) | root;
                }
                v
            }
            Owner::Me => v,
        }
    }
}
/// up to five consecutive steps: lock, split mark, data write, unlock, lock again
pub fn env_steps(v: u32) -> u32 {
    unsafe {
        if !ENV.v {
            return v;
        }
    }
    env_once(env_once(env_once(env_once(env_once(v)))))
}
fn watched<T>(p: *const T) -> bool {
    core::mem::size_of::<T>() == 4 && p as usize == unsafe { WATCH.v }
}
fn get<T: Copy>(v: T) -> u32 {
    unsafe { core::mem::transmute_copy::<T, u32>(&v) }
}
fn put<T: Copy>(v: u32) -> T {
    unsafe { core::mem::transmute_copy::<u32, T>(&v) }
}
/// cut: spin loops are memoryless, more rounds repeat the same states
fn round() {
    unsafe {
        ROUNDS.v += 1;
        if ROUNDS.v > MAX_ROUNDS.v {
            kani::assume(false);
        }
    }
}
unsafe fn step<T: Copy>(p: *const T) -> u32 {
    unsafe {
        if ENV.v {
            round();
        }
        let w = p as *mut u32;
        let n = env_steps(*w);
        *w = n;
        n
    }
}
pub unsafe fn g_load<T: Copy, const V: bool>(p: *const T, o: Ordering) -> T {
    unsafe {
        if watched(p) {
            let n = step(p);
            LAST.v = n;
            ACQ.v = is_acq(o);
            return put(n);
        }
        *p
    }
}
pub unsafe fn g_store<T: Copy, const V: bool>(p: *mut T, val: T, o: Ordering) {
    unsafe {
        if watched(p) {
            let cur = step(p);
            let new = get(val);
            assert!(OWNER.v == Owner::Me, "contract: only the lock holder writes the version word");
            assert!((cur ^ new) & LEAF == 0, "contract: the node kind never changes");
            if new & LOCK == 0 {
                assert!(is_rel(o), "contract: unlocking publishes (release)");
                assert!(new & DIRTY == 0, "contract: an unlocked node is not marked dirty");
                OWNER.v = Owner::None;
            } else {
                assert!(new & cur & DIRTY == cur & DIRTY, "contract: dirty marks stay until unlock");
            }
        }
        *p = val
    }
}
unsafe fn cas<T: Copy>(p: *mut T, old: T, new: T, o: Ordering) -> Result<T, T> {
    unsafe {
        if watched(p) {
            let cur = step(p);
            if cur != get(old) {
                return Err(put(cur));
            }
            let n = get(new);
            if n & LOCK != 0 {
                assert!(cur & LOCK == 0 && OWNER.v == Owner::None, "contract: a held lock is never taken");
                assert!(cur & DIRTY == 0, "contract: a dirty node is not locked");
                assert!(n & DIRTY != 0, "contract: the lock marks the node dirty at once");
                assert!((cur ^ n) & !(LOCK | DIRTY) == 0, "contract: locking changes nothing else");
                assert!(is_acq(o), "contract: locking synchronises with the previous holder (acquire)");
                OWNER.v = Owner::Me;
            }
            *p = new;
            return Ok(old);
        }
        let same = match core::mem::size_of::<T>() {
            1 => core::mem::transmute_copy::<T, u8>(&*p) == core::mem::transmute_copy::<T, u8>(&old),
            4 => core::mem::transmute_copy::<T, u32>(&*p) == core::mem::transmute_copy::<T, u32>(&old),
            _ => core::mem::transmute_copy::<T, usize>(&*p) == core::mem::transmute_copy::<T, usize>(&old),
        };
        let c = *p;
        if same {
            *p = new;
            Ok(c)
        } else {
            Err(c)
        }
    }
}
pub unsafe fn g_cas<T: Copy>(p: *mut T, old: T, new: T, o: Ordering, _f: Ordering) -> Result<T, T> {
    unsafe { cas(p, old, new, o) }
}
pub unsafe fn g_cas_weak<T: Copy>(p: *mut T, old: T, new: T, o: Ordering, _f: Ordering) -> Result<T, T> {
    if kani::any() {
        round();
        return Err(unsafe { *p }); // spurious failure
    }
    unsafe { cas(p, old, new, o) }
}
unsafe fn rmw(p: *mut u32, f: impl FnOnce(u32) -> u32) -> u32 {
    unsafe {
        if watched(p) {
            let cur = step(p);
            let n = f(cur);
            assert!((cur ^ n) & !ROOT == 0, "contract: without the lock only the root mark may change");
            *p = n;
            return cur;
        }
        let cur = *p;
        *p = f(cur);
        cur
    }
}
pub unsafe fn g_or<T: Copy, U: Copy>(p: *mut T, val: U, _o: Ordering) -> T {
    assert!(core::mem::size_of::<T>() == 4);
    let m = get(val);
    put(unsafe { rmw(p as *mut u32, |x| x | m) })
}
pub unsafe fn g_and<T: Copy, U: Copy>(p: *mut T, val: U, _o: Ordering) -> T {
    assert!(core::mem::size_of::<T>() == 4);
    let m = get(val);
    put(unsafe { rmw(p as *mut u32, |x| x & m) })
}
pub fn g_fence(o: Ordering) {
    if is_acq(o) {
        unsafe { ACQ.v = true }
    }
}
pub fn g_yield() {}
