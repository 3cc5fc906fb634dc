//! Whether a history of operations that overlapped has an order that a sequential object allows.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Event<O> {
  pub thread: usize,
  pub op: O,
  pub call: u64,
  pub ret: u64,
}

/// Records a history; one per execution.
pub struct History<O> {
  clock: Arc<AtomicU64>,
  events: Arc<Mutex<Vec<Event<O>>>>,
}

impl<O> Clone for History<O> {
  fn clone(&self) -> Self {
    Self { clock: self.clock.clone(), events: self.events.clone() }
  }
}

impl<O: Clone + std::fmt::Debug> Default for History<O> {
  fn default() -> Self {
    Self::new()
  }
}

impl<O: Clone + std::fmt::Debug> History<O> {
  pub fn new() -> Self {
    Self { clock: Arc::new(AtomicU64::new(0)), events: Arc::new(Mutex::new(vec![])) }
  }
  /// Runs `f`, which returns the operation with its result.
  pub fn op(&self, thread: usize, f: impl FnOnce() -> O) -> O {
    let call = self.clock.fetch_add(1, Ordering::SeqCst);
    let op = f();
    let ret = self.clock.fetch_add(1, Ordering::SeqCst);
    self.events.lock().unwrap().push(Event { thread, op: op.clone(), call, ret });
    op
  }
  pub fn events(&self) -> Vec<Event<O>> {
    self.events.lock().unwrap().clone()
  }
}

/// `apply` performs an operation on the state, and says whether its result is a possible one.
pub fn linearizable<S: Clone, O>(
  init: &S,
  events: &[Event<O>],
  apply: &dyn Fn(&mut S, &O) -> bool,
  end: &dyn Fn(&S) -> bool,
) -> bool {
  fn go<S: Clone, O>(
    s: &S,
    done: u32,
    ev: &[Event<O>],
    apply: &dyn Fn(&mut S, &O) -> bool,
    end: &dyn Fn(&S) -> bool,
  ) -> bool {
    if done.count_ones() as usize == ev.len() {
      return end(s);
    }
    // Only what was called before all that remains had returned can come next.
    let first_ret = (0 .. ev.len()).filter(|i| done & (1 << i) == 0).map(|i| ev[i].ret).min().unwrap();
    for i in 0 .. ev.len() {
      if done & (1 << i) == 0 && ev[i].call < first_ret {
        let mut t = s.clone();
        if apply(&mut t, &ev[i].op) && go(&t, done | (1 << i), ev, apply, end) {
          return true;
        }
      }
    }
    false
  }
  assert!(events.len() < 32);
  go(init, 0, events, apply, end)
}
