//! Locks of the model: acquiring is a possible preemption point, contention blocks the task.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct RwLock<T: ?Sized> { st: Cell<isize>, up: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: std::marker::PhantomData<*mut ()> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: std::marker::PhantomData<*mut ()> }

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { Self { st: Cell::new(0), up: Cell::new(false), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> T { self.v.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        vx::rt::preempt();
        while self.st.get() < 0 { vx::rt::lock_block(); }
        self.st.set(self.st.get() + 1);
        RwLockReadGuard { l: self, _p: std::marker::PhantomData }
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        vx::rt::preempt();
        while self.st.get() != 0 { vx::rt::lock_block(); }
        self.st.set(-1);
        RwLockWriteGuard { l: self, _p: std::marker::PhantomData }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> { if self.st.get() < 0 { return None; } self.st.set(self.st.get() + 1); Some(RwLockReadGuard { l: self, _p: std::marker::PhantomData }) }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> { if self.st.get() != 0 { return None; } self.st.set(-1); Some(RwLockWriteGuard { l: self, _p: std::marker::PhantomData }) }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        vx::rt::preempt();
        while self.st.get() < 0 || self.up.get() { vx::rt::lock_block(); }
        self.st.set(self.st.get() + 1);
        self.up.set(true);
        RwLockUpgradableReadGuard { l: self, _p: std::marker::PhantomData }
    }
    pub fn is_locked(&self) -> bool { self.st.get() != 0 }
    pub fn is_locked_exclusive(&self) -> bool { self.st.get() < 0 }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> { self.read() }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.l.st.set(self.l.st.get() - 1); vx::rt::lock_released(); } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.l.st.set(0); vx::rt::lock_released(); } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }

pub struct Mutex<T: ?Sized>(RwLock<T>);
pub struct MutexGuard<'a, T: ?Sized>(RwLockWriteGuard<'a, T>);
impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Self(RwLock::new(v)) } pub fn into_inner(self) -> T { self.0.into_inner() } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { MutexGuard(self.0.write()) }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { self.0.try_write().map(MutexGuard) }
    pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { &mut self.0 } }
impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
impl<T> From<T> for RwLock<T> { fn from(v: T) -> Self { Self::new(v) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Self::new(v) } }

pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: std::marker::PhantomData<*mut ()> }
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> { fn drop(&mut self) { self.l.up.set(false); self.l.st.set(self.l.st.get() - 1); vx::rt::lock_released(); } }
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.l;
        while l.st.get() != 1 { vx::rt::lock_block(); }
        std::mem::forget(s);
        l.up.set(false);
        l.st.set(-1);
        RwLockWriteGuard { l, _p: std::marker::PhantomData }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.up.set(false);
        vx::rt::lock_released();
        RwLockReadGuard { l, _p: std::marker::PhantomData }
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.st.set(1);
        vx::rt::lock_released();
        RwLockReadGuard { l, _p: std::marker::PhantomData }
    }
    pub fn map<U: ?Sized>(mut s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedRwLockWriteGuard<'a, T, U> { let p: *mut U = f(&mut *s); MappedRwLockWriteGuard { _g: s, p } }
}
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&T) -> &U) -> MappedRwLockReadGuard<'a, T, U> { let p: *const U = f(&*s); MappedRwLockReadGuard { _g: s, p } }
}
pub struct MappedRwLockReadGuard<'a, T: ?Sized, U: ?Sized> { _g: RwLockReadGuard<'a, T>, p: *const U }
pub struct MappedRwLockWriteGuard<'a, T: ?Sized, U: ?Sized> { _g: RwLockWriteGuard<'a, T>, p: *mut U }
impl<T: ?Sized, U: ?Sized> Deref for MappedRwLockReadGuard<'_, T, U> { type Target = U; fn deref(&self) -> &U { unsafe { &*self.p } } }
impl<T: ?Sized, U: ?Sized> Deref for MappedRwLockWriteGuard<'_, T, U> { type Target = U; fn deref(&self) -> &U { unsafe { &*self.p } } }
impl<T: ?Sized, U: ?Sized> DerefMut for MappedRwLockWriteGuard<'_, T, U> { fn deref_mut(&mut self) -> &mut U { unsafe { &mut *self.p } } }
