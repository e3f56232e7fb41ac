//! parking_lot's locks under the schedule explorer.
use shim_std::lock::{Guard, Raw};
pub type MutexGuard<'a, T> = Guard<'a, T>;
pub type RwLockReadGuard<'a, T> = Guard<'a, T>;
pub type RwLockWriteGuard<'a, T> = Guard<'a, T>;
#[derive(Debug)]
pub struct Mutex<T>(Raw<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self(Raw::new(t))
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.0.get(true)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.0.try_lock(true)
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
#[derive(Debug)]
pub struct RwLock<T>(Raw<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self(Raw::new(t))
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.0.get(false)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.0.get(true)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.0.try_lock(false)
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.0.try_lock(true)
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
