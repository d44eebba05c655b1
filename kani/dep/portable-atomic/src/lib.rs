pub use core::sync::atomic::Ordering;
use core::cell::UnsafeCell;
#[repr(C, align(16))]
pub struct AtomicU128 { v: UnsafeCell<u128> }
unsafe impl Sync for AtomicU128 {}
unsafe impl Send for AtomicU128 {}
impl core::fmt::Debug for AtomicU128 { fn fmt(&self, _f:&mut core::fmt::Formatter<'_>)->core::fmt::Result { Ok(()) } }
impl AtomicU128 {
    pub const fn new(v: u128) -> Self { Self { v: UnsafeCell::new(v) } }
    pub fn load(&self, _o: Ordering) -> u128 { unsafe { *self.v.get() } }
    pub fn store(&self, n: u128, _o: Ordering) { unsafe { *self.v.get() = n } }
    pub fn swap(&self, n: u128, _o: Ordering) -> u128 { unsafe { let c = *self.v.get(); *self.v.get() = n; c } }
    pub fn compare_exchange(&self, o: u128, n: u128, _s: Ordering, _f: Ordering) -> Result<u128, u128> { unsafe { let c = *self.v.get(); if c == o { *self.v.get() = n; Ok(c) } else { Err(c) } } }
    pub fn compare_exchange_weak(&self, o: u128, n: u128, s: Ordering, f: Ordering) -> Result<u128, u128> { self.compare_exchange(o, n, s, f) }
}
