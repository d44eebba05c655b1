use std::cell::UnsafeCell;
use std::ops::{Deref, DerefMut};
#[derive(Debug, Default)]
pub struct Mutex<T> { v: UnsafeCell<T> }
unsafe impl<T: Send> Sync for Mutex<T> {}
unsafe impl<T: Send> Send for Mutex<T> {}
#[derive(Debug)]
pub struct MutexGuard<'a, T> { m: &'a Mutex<T> }
impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Self { v: UnsafeCell::new(v) } } pub fn lock(&self) -> MutexGuard<'_, T> { MutexGuard { m: self } } pub fn get_mut(&mut self)->&mut T { self.v.get_mut() } pub fn into_inner(self)->T { self.v.into_inner() } }
impl<T> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
#[derive(Debug, Default)]
pub struct Condvar;
#[derive(Debug, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar { pub const fn new() -> Self { Condvar } pub fn notify_all(&self) -> usize { 0 } pub fn notify_one(&self) -> bool { false } pub fn wait<T>(&self, _g: &mut MutexGuard<'_, T>) {} pub fn wait_for<T>(&self, _g: &mut MutexGuard<'_, T>, _d: std::time::Duration) -> WaitTimeoutResult { WaitTimeoutResult(false) } }
