//! parking_lot's locks over those of mc-sync. There is no poisoning.
use std::ops::{Deref, DerefMut};
use std::sync::{PoisonError, TryLockError};
use std::time::Duration;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(mc_sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(mc_sync::MutexGuard<'a, T>);

pub const fn const_mutex<T>(t: T) -> Mutex<T> {
  Mutex::new(t)
}

impl<T> Mutex<T> {
  pub const fn new(t: T) -> Self {
    Self(mc_sync::Mutex::new(t))
  }
  pub fn into_inner(self) -> T {
    self.0.into_inner().unwrap_or_else(PoisonError::into_inner)
  }
}
impl<T: ?Sized> Mutex<T> {
  pub fn lock(&self) -> MutexGuard<'_, T> {
    MutexGuard(self.0.lock().unwrap_or_else(PoisonError::into_inner))
  }
  pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
    match self.0.try_lock() {
      Ok(g) => Some(MutexGuard(g)),
      Err(TryLockError::Poisoned(p)) => Some(MutexGuard(p.into_inner())),
      Err(TryLockError::WouldBlock) => None,
    }
  }
  pub fn is_locked(&self) -> bool {
    self.try_lock().is_none()
  }
  pub fn get_mut(&mut self) -> &mut T {
    self.0.get_mut().unwrap_or_else(PoisonError::into_inner)
  }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.0.fmt(f)
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Self::new(t)
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.0
  }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    (**self).fmt(f)
  }
}

#[derive(Default, Debug)]
pub struct Condvar(mc_sync::Condvar);
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(self) -> bool {
    self.0
  }
}
impl Condvar {
  pub const fn new() -> Self {
    Self(mc_sync::Condvar::new())
  }
  pub fn wait<T>(&self, g: &mut MutexGuard<'_, T>) {
    self.0.wait_in_place(&mut g.0, None);
  }
  pub fn wait_while<T, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut condition: F) {
    while condition(&mut *g) {
      self.wait(g);
    }
  }
  pub fn wait_for<T>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
    WaitTimeoutResult(!self.0.wait_in_place(&mut g.0, Some(d)))
  }
  pub fn wait_until<T>(&self, g: &mut MutexGuard<'_, T>, t: std::time::Instant) -> WaitTimeoutResult {
    self.wait_for(g, t.saturating_duration_since(std::time::Instant::now()))
  }
  pub fn wait_while_for<T, F: FnMut(&mut T) -> bool>(
    &self,
    g: &mut MutexGuard<'_, T>,
    mut condition: F,
    d: Duration,
  ) -> WaitTimeoutResult {
    while condition(&mut *g) {
      if self.wait_for(g, d).timed_out() {
        return WaitTimeoutResult(condition(&mut *g));
      }
    }
    WaitTimeoutResult(false)
  }
  pub fn notify_one(&self) -> bool {
    self.0.wake(false) > 0
  }
  pub fn notify_all(&self) -> usize {
    self.0.wake(true)
  }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(mc_sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized>(mc_sync::RwLockReadGuard<'a, T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(mc_sync::RwLockWriteGuard<'a, T>);
impl<T> RwLock<T> {
  pub const fn new(t: T) -> Self {
    Self(mc_sync::RwLock::new(t))
  }
  pub fn into_inner(self) -> T {
    self.0.into_inner().unwrap_or_else(PoisonError::into_inner)
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> RwLockReadGuard<'_, T> {
    RwLockReadGuard(self.0.read().unwrap_or_else(PoisonError::into_inner))
  }
  pub fn write(&self) -> RwLockWriteGuard<'_, T> {
    RwLockWriteGuard(self.0.write().unwrap_or_else(PoisonError::into_inner))
  }
  pub fn get_mut(&mut self) -> &mut T {
    self.0.get_mut().unwrap_or_else(PoisonError::into_inner)
  }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.0.fmt(f)
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.0
  }
}
