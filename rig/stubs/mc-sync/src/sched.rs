//! A controlled scheduler: the threads of one execution are real threads, of which exactly one runs
//! at any moment. Before each synchronisation operation the running thread calls in here, and the
//! chooser decides who continues. Everything between two such points is one atomic step.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar as RealCondvar, Mutex as RealMutex};

pub trait Chooser: Send {
  /// One of `n` alternatives; 0 is the default. Those from `free` on are deviations: they take the
  /// processor from a thread that could go on, or end a sleep or a timed wait early.
  fn choose(&mut self, n: usize, free: usize) -> usize;

  /// A thread that only runs when nothing else can.
  fn starved(&self) -> Option<usize> {
    None
  }
  /// Whether sleeps and timed waits only end when nothing else can run.
  fn patient(&self) -> bool {
    false
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St {
  Run,
  Blocked(usize),
  /// Waiting on a condition variable; `timed` ones can wake up by themselves.
  Waiting { key: usize, timed: bool },
  Yielded,
  Done,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Failure {
  Deadlock(String),
  Livelock(String),
  Panic(String),
}

struct Th {
  st: St,
  woken_by_timeout: bool,
  name: String,
}

struct Inner {
  threads: Vec<Th>,
  current: usize,
  chooser: Option<Box<dyn Chooser>>,
  steps: u64,
  switches: u64,
  idle_rounds: u32,
  idle_chances: u32,
  failure: Option<Failure>,
  /// A panic of some thread, whoever may have caught it.
  noted: Option<String>,
  over: bool,
}

pub struct Exec {
  inner: RealMutex<Inner>,
  turn: Vec<RealCondvar>,
  over: RealCondvar,
  /// What the hash maps of this execution start from. Chance, if there is none.
  hashes: Option<u64>,
}

const MAX_THREADS: usize = 96;
const MAX_STEPS: u64 = 200_000;
const MAX_IDLE_ROUNDS: u32 = 400;
/// How often the others may find nothing to do before a starved thread runs.
const STARVED_ROUNDS: u32 = 40;

thread_local! {
  static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

pub fn controlled() -> bool {
  CUR.try_with(|c| c.try_borrow().map_or(false, |c| c.is_some())).unwrap_or(false)
}

fn current() -> Option<(Arc<Exec>, usize)> {
  CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

/// A panic, which whoever runs the code may catch: the execution fails all the same.
pub fn note_panic(m: &str) {
  if let Some((e, me)) = current() {
    if let Ok(mut inner) = e.inner.try_lock() {
      let m = format!("{}: {m}", inner.threads[me].name);
      inner.noted.get_or_insert(m);
    };
  }
}

/// What the hash maps of this execution start from, if that is not left to chance.
pub fn hashes() -> Option<u64> {
  current().and_then(|(e, _)| e.hashes)
}

pub fn me() -> Option<usize> {
  current().map(|c| c.1)
}

impl Exec {
  fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
    self.inner.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
  }

  fn fail(&self, inner: &mut Inner, f: Failure) {
    if inner.failure.is_none() {
      inner.failure = Some(f);
    }
    inner.over = true;
    self.over.notify_all();
  }

  /// Picks who runs next; `me` has its new state already. Returns false when nobody can.
  fn pick(&self, inner: &mut Inner, me: usize) -> bool {
    inner.steps += 1;
    if inner.steps > MAX_STEPS {
      let d = describe(inner);
      self.fail(inner, Failure::Livelock(format!("no end after {MAX_STEPS} steps: {d}")));
      return false;
    }
    let (starved, patient) = inner.chooser.as_ref().map_or((None, false), |c| (c.starved(), c.patient()));
    loop {
      let mut me_runs = inner.threads[me].st == St::Run;
      let mut run: Vec<usize> = Vec::new();
      if me_runs {
        run.push(me);
      }
      for (i, t) in inner.threads.iter().enumerate() {
        if i != me && t.st == St::Run {
          run.push(i);
        }
      }
      if let Some(s) = starved {
        if run.len() > 1 {
          run.retain(|i| *i != s);
        } else if run == [s] && inner.idle_rounds < STARVED_ROUNDS && inner.threads.iter().any(|t| t.st == St::Yielded) {
          run.clear();
        }
        me_runs = run.first() == Some(&me);
      }
      let firm = run.len();
      // A sleep or timed wait may end at any moment: a deviation while others can run.
      if firm > 0 && !patient {
        for (i, t) in inner.threads.iter().enumerate() {
          if i != me && matches!(t.st, St::Waiting { timed: true, .. } | St::Yielded) {
            run.push(i);
          }
        }
      }
      if firm == 0 {
        for (i, t) in inner.threads.iter().enumerate() {
          if t.st == St::Yielded {
            run.push(i);
          }
        }
        if run.is_empty() {
          for (i, t) in inner.threads.iter().enumerate() {
            if matches!(t.st, St::Waiting { timed: true, .. }) {
              run.push(i);
            }
          }
        } else {
          inner.idle_rounds += 1;
          if inner.idle_rounds > MAX_IDLE_ROUNDS {
            // Timed waits must have had their chance before this is called a livelock.
            let timed: Vec<usize> = inner
              .threads
              .iter()
              .enumerate()
              .filter(|(_, t)| matches!(t.st, St::Waiting { timed: true, .. }))
              .map(|(i, _)| i)
              .collect();
            inner.idle_chances += 1;
            if timed.is_empty() || inner.idle_chances > MAX_IDLE_ROUNDS {
              let d = describe(inner);
              self.fail(inner, Failure::Livelock(format!("only threads that wait by yielding or sleeping are left, and nothing changes: {d}")));
              return false;
            }
            run = timed;
            inner.idle_rounds = MAX_IDLE_ROUNDS - 5;
          } else {
            // All of them go on, in order.
            for i in &run {
              inner.threads[*i].st = St::Run;
            }
            continue;
          }
        }
      }
      if run.is_empty() {
        if inner.threads.iter().all(|t| t.st == St::Done) {
          inner.over = true;
          self.over.notify_all();
          return false;
        }
        let d = describe(inner);
        self.fail(inner, Failure::Deadlock(d));
        return false;
      }
      let k = if run.len() == 1 {
        0
      } else {
        let n = run.len();
        let mut c = inner.chooser.take();
        let free = if me_runs { 1 } else if firm > 0 { firm } else { n };
        let k = c.as_mut().map_or(0, |c| c.choose(n, free));
        inner.chooser = c;
        k.min(n - 1)
      };
      let next = run[k];
      if let St::Waiting { .. } = inner.threads[next].st {
        inner.threads[next].woken_by_timeout = true;
        inner.threads[next].st = St::Run;
      }
      inner.threads[next].st = St::Run;
      if next != inner.current {
        inner.switches += 1;
      }
      inner.current = next;
      return true;
    }
  }

  /// Gives up the processor with the given new state, and returns when it is back.
  fn switch(self: &Arc<Self>, me: usize, st: St) {
    let mut inner = self.lock();
    if inner.over {
      drop(inner);
      self.stuck();
    }
    inner.threads[me].st = st;
    if !matches!(st, St::Yielded) && !matches!(st, St::Run) {
      inner.idle_rounds = 0;
    }
    if self.pick(&mut inner, me) {
      if inner.current == me {
        return;
      }
      self.turn[inner.current].notify_one();
    }
    while inner.over || inner.current != me {
      inner = self.turn[me].wait(inner).unwrap_or_else(std::sync::PoisonError::into_inner);
    }
  }

  /// The execution has failed: its remaining threads never run again.
  fn stuck(&self) -> ! {
    loop {
      std::thread::park();
    }
  }
}

fn describe(inner: &Inner) -> String {
  inner
    .threads
    .iter()
    .map(|t| {
      let s = match t.st {
        St::Run => "can run",
        St::Blocked(_) => "waits for a lock or thread",
        St::Waiting { .. } => "waits for a notification",
        St::Yielded => "sleeps or yields",
        St::Done => "done",
      };
      format!("[{} {s}]", t.name)
    })
    .collect::<Vec<_>>()
    .join(" ")
}

pub fn point() {
  if let Some((e, me)) = current() {
    e.switch(me, St::Run);
  }
}

pub fn yield_now() {
  if let Some((e, me)) = current() {
    e.switch(me, St::Yielded);
  }
}

pub fn block_on(key: usize) {
  if let Some((e, me)) = current() {
    e.switch(me, St::Blocked(key));
  }
}

/// Whoever is blocked on `key` may try again.
pub fn release(key: usize) {
  if let Some((e, _)) = current() {
    let mut inner = e.lock();
    let mut any = false;
    for t in &mut inner.threads {
      if t.st == St::Blocked(key) {
        t.st = St::Run;
        any = true;
      }
    }
    if any {
      inner.idle_rounds = 0;
    }
  }
}

/// Waits for a notification on `key`; true when it came, false on a timeout.
pub fn wait_on(key: usize, timed: bool, before: impl FnOnce()) -> bool {
  let Some((e, me)) = current() else { return true };
  e.lock().threads[me].woken_by_timeout = false;
  // The release of the mutex and the start of the wait are one step.
  before();
  e.switch(me, St::Waiting { key, timed });
  let mut inner = e.lock();
  !std::mem::take(&mut inner.threads[me].woken_by_timeout)
}

/// Wakes one (chosen) or all of those that wait on `key`; how many.
pub fn notify(key: usize, all: bool) -> usize {
  let Some((e, _)) = current() else { return 0 };
  let mut inner = e.lock();
  let waiting: Vec<usize> = inner
    .threads
    .iter()
    .enumerate()
    .filter(|(_, t)| matches!(t.st, St::Waiting { key: k, .. } if k == key))
    .map(|(i, _)| i)
    .collect();
  if waiting.is_empty() {
    return 0;
  }
  inner.idle_rounds = 0;
  if all {
    for i in &waiting {
      inner.threads[*i].st = St::Run;
    }
    return waiting.len();
  }
  let k = if waiting.len() == 1 {
    0
  } else {
    let mut c = inner.chooser.take();
    let k = c.as_mut().map_or(0, |c| c.choose(waiting.len(), waiting.len()));
    inner.chooser = c;
    k.min(waiting.len() - 1)
  };
  inner.threads[waiting[k]].st = St::Run;
  1
}

fn message(p: &Box<dyn std::any::Any + Send>) -> String {
  p.downcast_ref::<&str>()
    .map(|s| (*s).to_string())
    .or_else(|| p.downcast_ref::<String>().cloned())
    .unwrap_or_else(|| "panic".to_string())
}

/// Starts a thread of this execution. What it returns is in the slot once it is done.
pub fn spawn<T: Send + 'static>(
  name: String,
  f: impl FnOnce() -> T + Send + 'static,
) -> Option<(usize, Arc<RealMutex<Option<std::thread::Result<T>>>>)> {
  let (e, _) = current()?;
  let slot = Arc::new(RealMutex::new(None));
  let id = {
    let mut inner = e.lock();
    inner.threads.push(Th { st: St::Run, woken_by_timeout: false, name });
    inner.idle_rounds = 0;
    inner.threads.len() - 1
  };
  assert!(id < MAX_THREADS, "too many threads in one execution");
  let (e2, s2) = (e.clone(), slot.clone());
  let fresh = e.hashes.is_some();
  crate::pool::run(Box::new(move || {
    {
      let mut inner = e2.lock();
      while inner.over || inner.current != id {
        inner = e2.turn[id].wait(inner).unwrap_or_else(std::sync::PoisonError::into_inner);
      }
    }
    CUR.with(|c| *c.borrow_mut() = Some((e2.clone(), id)));
    let r = catch_unwind(AssertUnwindSafe(f));
    let failed = r.as_ref().err().map(message);
    *s2.lock().unwrap() = Some(r);
    drop(s2);
    finish(e2, id, failed);
  }), fresh);
  point();
  Some((id, slot))
}

fn finish(e: Arc<Exec>, id: usize, failed: Option<String>) {
  CUR.with(|c| *c.borrow_mut() = None);
  let mut inner = e.lock();
  inner.threads[id].st = St::Done;
  inner.idle_rounds = 0;
  let key = join_key(&e, id);
  for t in &mut inner.threads {
    if t.st == St::Blocked(key) {
      t.st = St::Run;
    }
  }
  if let Some(m) = failed {
    let name = inner.threads[id].name.clone();
    e.fail(&mut inner, Failure::Panic(format!("{name}: {m}")));
    return;
  }
  if !inner.over && e.pick(&mut inner, id) {
    e.turn[inner.current].notify_one();
  }
}

fn join_key(e: &Arc<Exec>, id: usize) -> usize {
  Arc::as_ptr(e) as usize ^ (id + 1)
}

pub fn is_done(id: usize) -> bool {
  current().map_or(true, |(e, _)| e.lock().threads[id].st == St::Done)
}

pub fn join(id: usize) {
  let Some((e, me)) = current() else { return };
  point();
  loop {
    if e.lock().threads[id].st == St::Done {
      return;
    }
    e.switch(me, St::Blocked(join_key(&e, id)));
  }
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
  pub steps: u64,
  pub switches: u64,
}

/// Runs `f` as the first thread of an execution under the chooser.
pub fn execute<T: Send + 'static>(
  chooser: Box<dyn Chooser>,
  hashes: Option<u64>,
  f: impl FnOnce() -> T + Send + 'static,
) -> (Result<T, Failure>, Stats) {
  assert!(!controlled());
  let e = Arc::new(Exec {
    inner: RealMutex::new(Inner {
      threads: vec![Th { st: St::Run, woken_by_timeout: false, name: "main".to_string() }],
      current: 0,
      chooser: Some(chooser),
      steps: 0,
      switches: 0,
      idle_rounds: 0,
      idle_chances: 0,
      failure: None,
      noted: None,
      over: false,
    }),
    turn: (0 .. MAX_THREADS).map(|_| RealCondvar::new()).collect(),
    over: RealCondvar::new(),
    hashes,
  });
  let slot = Arc::new(RealMutex::new(None));
  let (e2, s2) = (e.clone(), slot.clone());
  crate::pool::run(Box::new(move || {
    CUR.with(|c| *c.borrow_mut() = Some((e2.clone(), 0)));
    let r = catch_unwind(AssertUnwindSafe(f));
    let failed = r.as_ref().err().map(message);
    if let Ok(v) = r {
      *s2.lock().unwrap() = Some(v);
    }
    drop(s2);
    finish(e2, 0, failed);
  }), hashes.is_some());
  let mut inner = e.lock();
  while !inner.over {
    inner = e.over.wait(inner).unwrap_or_else(std::sync::PoisonError::into_inner);
  }
  let stats = Stats { steps: inner.steps, switches: inner.switches };
  // The chooser goes now: it may hold what the caller wants back.
  drop(inner.chooser.take());
  let noted = inner.noted.take().map(Failure::Panic);
  let failure = inner.failure.take().or(noted);
  drop(inner);
  match failure {
    Some(f) => (Err(f), stats),
    None => {
      let v = slot.lock().unwrap().take();
      (Ok(v.expect("the first thread has finished")), stats)
    },
  }
}
