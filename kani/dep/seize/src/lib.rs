//! Ghost contract of the `seize` dependency (see DESIGN.md).
use std::marker::PhantomData;
use std::sync::atomic::{AtomicPtr, Ordering};
#[derive(Debug)]
pub struct Collector { _p: () }
#[derive(Debug)]
#[repr(C)]
pub struct G<T> { pub v: T, pub magic: u64 }
pub static mut RETIRED: G<usize> = G { v: 0, magic: 0x5EED_1111_0000_0001 };
/// `EAGER`: run the reclaimer at once (what it does is observed, not when).
pub static mut EAGER: G<bool> = G { v: false, magic: 0x5EED_1111_0000_0002 };
pub static mut RECLAIMING: G<bool> = G { v: false, magic: 0x5EED_1111_0000_0003 };
pub static mut RECLAIMED_ALL: G<usize> = G { v: 0, magic: 0x5EED_1111_0000_0004 };
impl Default for Collector { fn default() -> Self { Self::new() } }
impl Collector {
    pub fn new() -> Self { Collector { _p: () } }
    pub fn batch_size(self, _n: usize) -> Self { self }
    pub fn enter(&self) -> LocalGuard<'_> { LocalGuard { collector: self, _unsend: PhantomData } }
    pub unsafe fn retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { RETIRED.v += 1; if EAGER.v { RECLAIMING.v = true; reclaim(ptr, self); RECLAIMING.v = false; } }
    }
    pub unsafe fn reclaim_all(&self) { unsafe { RECLAIMED_ALL.v += 1 } }
}
pub trait Guard {
    fn refresh(&mut self);
    fn flush(&self);
    fn collector(&self) -> &Collector;
    fn thread_id(&self) -> usize;
    fn protect<T>(&self, ptr: &AtomicPtr<T>, order: Ordering) -> *mut T { ptr.load(order) }
    fn swap<T>(&self, ptr: &AtomicPtr<T>, value: *mut T, order: Ordering) -> *mut T { ptr.swap(value, order) }
    fn compare_exchange<T>(&self, ptr: &AtomicPtr<T>, current: *mut T, new: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { ptr.compare_exchange(current, new, s, f) }
    fn compare_exchange_weak<T>(&self, ptr: &AtomicPtr<T>, current: *mut T, new: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { ptr.compare_exchange_weak(current, new, s, f) }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector));
}
#[derive(Debug)]
pub struct LocalGuard<'a> { collector: &'a Collector, _unsend: PhantomData<*mut ()> }
impl Guard for LocalGuard<'_> {
    fn refresh(&mut self) {}
    fn flush(&self) {}
    fn collector(&self) -> &Collector { self.collector }
    fn thread_id(&self) -> usize { 0 }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) { unsafe { self.collector.retire(ptr, reclaim) } }
}
