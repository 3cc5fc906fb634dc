//! Futures under exploration.

use crate::Ctx;
use mc_sync::{Condvar, Mutex};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Signal {
  woken: Mutex<bool>,
  cv: Condvar,
}
impl Wake for Signal {
  fn wake(self: Arc<Self>) {
    *self.woken.lock().unwrap() = true;
    self.cv.notify_all();
  }
}

/// Runs a future on this (controlled) thread.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
  let s = Arc::new(Signal { woken: Mutex::new(false), cv: Condvar::new() });
  let w = Waker::from(s.clone());
  let mut f = std::pin::pin!(f);
  loop {
    if let Poll::Ready(t) = f.as_mut().poll(&mut Context::from_waker(&w)) {
      return t;
    }
    let mut g = s.woken.lock().unwrap();
    while !*g {
      g = s.cv.wait(g).unwrap();
    }
    *g = false;
  }
}

/// A current-thread tokio runtime whose clock only moves when nothing else can.
pub fn runtime() -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

struct Flag {
  woken: AtomicBool,
  parent: std::sync::Mutex<Option<Waker>>,
}
impl Wake for Flag {
  fn wake(self: Arc<Self>) {
    self.woken.store(true, Ordering::SeqCst);
    if let Some(w) = self.parent.lock().unwrap().as_ref() {
      w.wake_by_ref();
    }
  }
}

struct Task<'a> {
  name: String,
  f: Pin<Box<dyn Future<Output = ()> + 'a>>,
  flag: Arc<Flag>,
}

/// Tasks of one thread, of which the exploration decides who is polled next: all interleavings at
/// await points. One after another is free; the others are deviations unless `all` is asked for.
pub struct Tasks<'a> {
  ctx: Ctx,
  tasks: Vec<Task<'a>>,
  last: usize,
  all: bool,
}

impl<'a> Tasks<'a> {
  pub fn new(ctx: &Ctx) -> Self {
    Self { ctx: ctx.clone(), tasks: vec![], last: 0, all: false }
  }
  /// Every order of polling is free of cost.
  pub fn all(ctx: &Ctx) -> Self {
    Self { all: true, ..Self::new(ctx) }
  }
  pub fn spawn(&mut self, name: &str, f: impl Future<Output = ()> + 'a) {
    self.tasks.push(Task {
      name: name.to_string(),
      f: Box::pin(f),
      flag: Arc::new(Flag { woken: AtomicBool::new(true), parent: std::sync::Mutex::new(None) }),
    });
  }

  fn poll_some(&mut self, cx: &mut Context<'_>, until: Option<&str>) -> Poll<()> {
    for t in &self.tasks {
      *t.flag.parent.lock().unwrap() = Some(cx.waker().clone());
    }
    let mut budget = 64;
    loop {
      let done = until.map_or(self.tasks.is_empty(), |u| !self.tasks.iter().any(|t| t.name.starts_with(u)));
      if done {
        return Poll::Ready(());
      }
      let ready: Vec<usize> = (0 .. self.tasks.len()).filter(|i| self.tasks[*i].flag.woken.load(Ordering::SeqCst)).collect();
      if ready.is_empty() {
        return Poll::Pending;
      }
      if budget == 0 {
        // What tokio itself runs has its turn too.
        cx.waker().wake_by_ref();
        return Poll::Pending;
      }
      budget -= 1;
      let first = ready.iter().position(|i| *i >= self.last).unwrap_or(0);
      let mut order = ready.clone();
      order.rotate_left(first);
      let k = self.ctx.alt(order.len(), if self.all { order.len() } else { 1 });
      let i = order[k];
      self.last = i + 1;
      let t = &mut self.tasks[i];
      t.flag.woken.store(false, Ordering::SeqCst);
      let w = Waker::from(t.flag.clone());
      if t.f.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
        drop(self.tasks.remove(i));
        self.last = i;
      }
    }
  }

  /// Until all are done.
  pub async fn run(mut self) {
    std::future::poll_fn(move |cx| self.poll_some(cx, None)).await;
  }

  /// Until those whose names start with `until` are done; the others are dropped then.
  pub async fn run_until(mut self, until: &str) {
    std::future::poll_fn(move |cx| self.poll_some(cx, Some(until))).await;
  }
}

/// Lets other tasks go first, once.
pub async fn turn() {
  let mut first = true;
  std::future::poll_fn(move |cx| {
    if std::mem::take(&mut first) {
      cx.waker().wake_by_ref();
      Poll::Pending
    } else {
      Poll::Ready(())
    }
  })
  .await;
}

/// Lets the tasks of tokio run until they have nothing to do (and no time passes).
pub async fn settle() {
  for _ in 0 .. 40 {
    tokio::task::yield_now().await;
  }
}

struct Nothing;
impl Wake for Nothing {
  fn wake(self: Arc<Self>) {}
}

/// Polls once: what the future gives, if it has it.
pub fn now<T>(f: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Option<T> {
  let w = Waker::from(Arc::new(Nothing));
  match f.as_mut().poll(&mut Context::from_waker(&w)) {
    Poll::Ready(t) => Some(t),
    Poll::Pending => None,
  }
}
