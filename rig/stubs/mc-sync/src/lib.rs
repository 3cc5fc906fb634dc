//! What `std::sync` and `std::thread` offer, under the control of the scheduler in threads it
//! controls, and as it is elsewhere.

pub use std::sync::*;

/// How many there are may change until this is looked at.
pub fn strong_count<T: ?Sized>(a: &Arc<T>) -> usize {
  sched::point();
  Arc::strong_count(a)
}
pub mod sched;
mod pool;

use std::cell::RefCell;
use std::ops::{Deref, DerefMut};

thread_local! {
  static PICK: RefCell<Option<Box<dyn FnMut(u32) -> u32>>> = const { RefCell::new(None) };
}

/// Decides what the code leaves to chance (where `tokio::select!` starts polling). None: always 0.
pub fn set_pick(f: Option<Box<dyn FnMut(u32) -> u32>>) {
  PICK.with(|p| *p.borrow_mut() = f);
}

pub fn pick(n: u32) -> u32 {
  PICK.with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.as_mut().map(|f| f(n)))).unwrap_or(0).min(n.max(1) - 1)
}

thread_local! {
  static RAW: RefCell<Option<Box<dyn FnMut() -> u64>>> = const { RefCell::new(None) };
}

/// Decides what thread_rng() gives on this thread. None: real chance.
pub fn set_raw_random(f: Option<Box<dyn FnMut() -> u64>>) {
  RAW.with(|p| *p.borrow_mut() = f);
}

pub fn raw_random() -> Option<u64> {
  RAW.try_with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.as_mut().map(|f| f()))).ok().flatten()
}

fn key<T: ?Sized>(x: &T) -> usize {
  (x as *const T).cast::<u8>() as usize
}

//
// Mutex
//

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
  inner: std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
  // None only while a condition variable has it.
  inner: Option<std::sync::MutexGuard<'a, T>>,
  lock: &'a Mutex<T>,
}

impl<T> Mutex<T> {
  pub const fn new(t: T) -> Self {
    Self { inner: std::sync::Mutex::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    self.inner.into_inner()
  }
}

impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Self::new(t)
  }
}

impl<T: ?Sized> Mutex<T> {
  fn acquire(&self) -> LockResult<MutexGuard<'_, T>> {
    if !sched::controlled() {
      return wrap(self.inner.lock(), self);
    }
    loop {
      match self.inner.try_lock() {
        Ok(g) => return Ok(MutexGuard { inner: Some(g), lock: self }),
        Err(TryLockError::Poisoned(p)) => {
          return Err(PoisonError::new(MutexGuard { inner: Some(p.into_inner()), lock: self }));
        },
        Err(TryLockError::WouldBlock) => sched::block_on(key(&self.inner)),
      }
    }
  }

  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    sched::point();
    self.acquire()
  }

  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    sched::point();
    match self.inner.try_lock() {
      Ok(g) => Ok(MutexGuard { inner: Some(g), lock: self }),
      Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
        inner: Some(p.into_inner()),
        lock: self,
      }))),
      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
  }

  pub fn is_poisoned(&self) -> bool {
    self.inner.is_poisoned()
  }
  pub fn clear_poison(&self) {
    self.inner.clear_poison();
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    self.inner.get_mut()
  }
}

fn wrap<'a, T: ?Sized>(
  r: LockResult<std::sync::MutexGuard<'a, T>>,
  lock: &'a Mutex<T>,
) -> LockResult<MutexGuard<'a, T>> {
  match r {
    Ok(g) => Ok(MutexGuard { inner: Some(g), lock }),
    Err(p) => Err(PoisonError::new(MutexGuard { inner: Some(p.into_inner()), lock })),
  }
}

impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.inner.fmt(f)
  }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.inner.as_ref().unwrap()
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    self.inner.as_mut().unwrap()
  }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + std::fmt::Display> std::fmt::Display for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    if let Some(g) = self.inner.take() {
      drop(g);
      sched::release(key(&self.lock.inner));
    }
  }
}

//
// RwLock
//

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
  inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
  inner: Option<std::sync::RwLockReadGuard<'a, T>>,
  key: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
  inner: Option<std::sync::RwLockWriteGuard<'a, T>>,
  key: usize,
}

impl<T> RwLock<T> {
  pub const fn new(t: T) -> Self {
    Self { inner: std::sync::RwLock::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    self.inner.into_inner()
  }
}

macro_rules! rw {
  ($lock:ident, $try:ident, $guard:ident) => {
    pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
      let key = key(&self.inner);
      let mk = |g| $guard { inner: Some(g), key };
      if !sched::controlled() {
        return match self.inner.$lock() {
          Ok(g) => Ok(mk(g)),
          Err(p) => Err(PoisonError::new(mk(p.into_inner()))),
        };
      }
      sched::point();
      loop {
        match self.inner.$try() {
          Ok(g) => return Ok(mk(g)),
          Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(mk(p.into_inner()))),
          Err(TryLockError::WouldBlock) => sched::block_on(key),
        }
      }
    }
    pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
      let key = key(&self.inner);
      let mk = |g| $guard { inner: Some(g), key };
      sched::point();
      match self.inner.$try() {
        Ok(g) => Ok(mk(g)),
        Err(TryLockError::Poisoned(p)) => {
          Err(TryLockError::Poisoned(PoisonError::new(mk(p.into_inner()))))
        },
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
      }
    }
  };
}

impl<T: ?Sized> RwLock<T> {
  rw!(read, try_read, RwLockReadGuard);
  rw!(write, try_write, RwLockWriteGuard);
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    self.inner.get_mut()
  }
  pub fn is_poisoned(&self) -> bool {
    self.inner.is_poisoned()
  }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.inner.fmt(f)
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.inner.as_ref().unwrap()
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.inner.as_ref().unwrap()
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    self.inner.as_mut().unwrap()
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    drop(self.inner.take());
    sched::release(self.key);
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    drop(self.inner.take());
    sched::release(self.key);
  }
}

//
// Condvar
//

#[derive(Default, Debug)]
pub struct Condvar {
  inner: std::sync::Condvar,
  // Keeps the address of each one its own.
  _here: u8,
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}

impl Condvar {
  pub const fn new() -> Self {
    Self { inner: std::sync::Condvar::new(), _here: 0 }
  }

  /// As `wait`, on the guard in place; false on a timeout.
  #[doc(hidden)]
  pub fn wait_in_place<T>(&self, guard: &mut MutexGuard<'_, T>, timeout: Option<std::time::Duration>) -> bool {
    if !sched::controlled() {
      let g = guard.inner.take().unwrap();
      return match timeout {
        None => {
          guard.inner = Some(self.inner.wait(g).unwrap_or_else(PoisonError::into_inner));
          true
        },
        Some(d) => {
          let (g, r) = self.inner.wait_timeout(g, d).unwrap_or_else(PoisonError::into_inner);
          guard.inner = Some(g);
          !r.timed_out()
        },
      };
    }
    let lock = guard.lock;
    let g = guard.inner.take().unwrap();
    let notified = sched::wait_on(key(self), timeout.is_some(), || {
      drop(g);
      sched::release(key(&lock.inner));
    });
    let mut again = lock.acquire().unwrap_or_else(PoisonError::into_inner);
    guard.inner = again.inner.take();
    notified
  }

  pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
    self.wait_in_place(&mut guard, None);
    Ok(guard)
  }

  pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
    &self,
    mut guard: MutexGuard<'a, T>,
    mut condition: F,
  ) -> LockResult<MutexGuard<'a, T>> {
    while condition(&mut *guard) {
      self.wait_in_place(&mut guard, None);
    }
    Ok(guard)
  }

  pub fn wait_timeout<'a, T>(
    &self,
    mut guard: MutexGuard<'a, T>,
    dur: std::time::Duration,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let n = self.wait_in_place(&mut guard, Some(dur));
    Ok((guard, WaitTimeoutResult(!n)))
  }

  pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
    &self,
    mut guard: MutexGuard<'a, T>,
    dur: std::time::Duration,
    mut condition: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    loop {
      if !condition(&mut *guard) {
        return Ok((guard, WaitTimeoutResult(false)));
      }
      if !self.wait_in_place(&mut guard, Some(dur)) {
        let timed_out = condition(&mut *guard);
        return Ok((guard, WaitTimeoutResult(timed_out)));
      }
    }
  }

  pub fn notify_one(&self) {
    self.wake(false);
  }
  pub fn notify_all(&self) {
    self.wake(true);
  }
  #[doc(hidden)]
  pub fn wake(&self, all: bool) -> usize {
    if sched::controlled() {
      sched::point();
      return sched::notify(key(self), all);
    }
    if all {
      self.inner.notify_all();
    } else {
      self.inner.notify_one();
    }
    0
  }
}

//
// Atomics: sequentially consistent, with a scheduling point before each access.
//

pub mod atomic {
  pub use std::sync::atomic::*;
  use crate::sched::point;

  macro_rules! common {
    ($name:ident, $t:ty) => {
      #[derive(Default)]
      #[repr(transparent)]
      pub struct $name(std::sync::atomic::$name);
      impl $name {
        pub const fn new(v: $t) -> Self {
          Self(std::sync::atomic::$name::new(v))
        }
        pub fn load(&self, _: Ordering) -> $t {
          point();
          self.0.load(Ordering::SeqCst)
        }
        pub fn store(&self, v: $t, _: Ordering) {
          point();
          self.0.store(v, Ordering::SeqCst)
        }
        pub fn swap(&self, v: $t, _: Ordering) -> $t {
          point();
          self.0.swap(v, Ordering::SeqCst)
        }
        pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
          point();
          self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
        }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
          point();
          self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
        }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
          point();
          let mut old = self.0.load(Ordering::SeqCst);
          while let Some(new) = f(old) {
            point();
            match self.0.compare_exchange(old, new, Ordering::SeqCst, Ordering::SeqCst) {
              Ok(x) => return Ok(x),
              Err(x) => old = x,
            }
          }
          Err(old)
        }
        pub fn get_mut(&mut self) -> &mut $t {
          self.0.get_mut()
        }
        pub fn into_inner(self) -> $t {
          self.0.into_inner()
        }
      }
      impl std::fmt::Debug for $name {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          self.0.fmt(f)
        }
      }
      impl From<$t> for $name {
        fn from(v: $t) -> Self {
          Self::new(v)
        }
      }
    };
  }
  macro_rules! op {
    ($t:ty, $($f:ident)*) => {
      $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
        point();
        self.0.$f(v, Ordering::SeqCst)
      })*
    };
  }
  macro_rules! ints {
    ($($name:ident $t:ty;)*) => {
      $(common!($name, $t);
      impl $name {
        op!($t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
      })*
    };
  }
  ints! {
    AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
    AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
  }
  common!(AtomicBool, bool);
  impl AtomicBool {
    op!(bool, fetch_and fetch_or fetch_xor fetch_nand);
    pub fn fetch_not(&self, _: Ordering) -> bool {
      point();
      self.0.fetch_xor(true, Ordering::SeqCst)
    }
  }
}

//
// Threads
//

pub mod thread {
  use crate::sched;
  pub use std::thread::*;
  use std::sync::{Arc, Mutex};

  enum How<T> {
    Real(std::thread::JoinHandle<T>),
    Controlled(usize, Arc<Mutex<Option<std::thread::Result<T>>>>),
  }
  pub struct JoinHandle<T>(How<T>);

  impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
      match self.0 {
        How::Real(h) => h.join(),
        How::Controlled(id, slot) => {
          sched::join(id);
          let r = slot.lock().unwrap().take();
          r.expect("a joined thread has finished")
        },
      }
    }
    pub fn is_finished(&self) -> bool {
      match &self.0 {
        How::Real(h) => h.is_finished(),
        How::Controlled(id, _) => {
          sched::point();
          sched::is_done(*id)
        },
      }
    }
  }

  #[derive(Debug, Default)]
  pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
  }
  impl Builder {
    pub fn new() -> Self {
      Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
      self.name = Some(n);
      self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
      self.stack = Some(n);
      self
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> std::io::Result<JoinHandle<T>> {
      if sched::controlled() {
        let (id, slot) = sched::spawn(self.name.unwrap_or_else(|| "thread".into()), f).unwrap();
        return Ok(JoinHandle(How::Controlled(id, slot)));
      }
      let mut b = std::thread::Builder::new();
      if let Some(n) = self.name {
        b = b.name(n);
      }
      if let Some(n) = self.stack {
        b = b.stack_size(n);
      }
      b.spawn(f).map(|h| JoinHandle(How::Real(h)))
    }
  }

  pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
    Builder::new().spawn(f).expect("failed to spawn thread")
  }
  pub fn yield_now() {
    if sched::controlled() {
      sched::yield_now();
    } else {
      std::thread::yield_now();
    }
  }
  pub fn sleep(d: std::time::Duration) {
    if sched::controlled() {
      sched::yield_now();
    } else {
      std::thread::sleep(d);
    }
  }
}
