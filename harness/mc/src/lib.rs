//! Exhaustive exploration of the executions of real code.
//!
//! A scenario is a function that asks its `Ctx` for every decision that is not the code's own: which
//! operation comes next, with what input, which thread runs, where a fault strikes. `Run::explore`
//! runs it once for every sequence of answers (depth first, without keeping states: each execution
//! starts from nothing), up to the bounds of its `Opts`. What a scenario returns as a violation, a
//! panic, a deadlock, a crash or an execution without end is reported with the answers that led to it.

pub mod fut;
pub mod lin;
mod report;
mod supervisor;

pub use report::Run;
pub use supervisor::{main, Check};

use mc_sync::sched;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Violation {
  /// What failed, precisely enough to tell one defect from another.
  pub key: String,
  pub msg: String,
}
pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! fail {
  ($key:expr, $($arg:tt)*) => {
    return Err($crate::Violation { key: ($key).to_string(), msg: format!($($arg)*) })
  };
}

#[macro_export]
macro_rules! check {
  ($cond:expr, $key:expr, $($arg:tt)*) => {
    if !$cond {
      $crate::fail!($key, $($arg)*);
    }
  };
}

/// Fails unless both are equal.
#[macro_export]
macro_rules! same {
  ($key:expr, $got:expr, $want:expr, $($arg:tt)*) => {
    match (&$got, &$want) {
      (got, want) => {
        if *got != *want {
          $crate::fail!($key, "{}: got {:?}, expected {:?}", format!($($arg)*), got, want);
        }
      }
    }
  };
}

#[derive(Clone, Debug)]
pub struct Opts {
  /// How many deviations (preemptions, faults) one execution may contain.
  pub deviations: u32,
  /// Stops the scenario here, and says in the evidence that it is not complete.
  pub max_executions: u64,
  pub max_secs: u64,
  /// One execution that takes longer than this has no end.
  pub hang_secs: u64,
  pub threads: usize,
  /// Leave out what follows on states that were seen before.
  pub prune: bool,
  /// How much of how a state was reached tells it from others: nothing, the last step that left it
  /// as it was, the last one as well, the last two.
  pub memory: u32,
}

impl Default for Opts {
  fn default() -> Self {
    Self { deviations: 0, max_executions: u64::MAX, max_secs: 3600, hang_secs: 60, threads: 8, prune: true, memory: 1 }
  }
}

impl Opts {
  pub fn dev(n: u32) -> Self {
    Self { deviations: n, ..Self::default() }
  }
  pub fn secs(mut self, n: u64) -> Self {
    self.max_secs = n;
    self
  }
  /// Every execution to its end, also where the state is one that was seen before: also finds what
  /// depends on more than the states that the scenario tells.
  pub fn full(mut self) -> Self {
    self.prune = false;
    self
  }
  pub fn memory(mut self, n: u32) -> Self {
    self.memory = n;
    self
  }
  pub fn threads(mut self, n: usize) -> Self {
    self.threads = n;
    self
  }
}

#[derive(Clone, Copy)]
struct Choice {
  chosen: u16,
  n: u16,
  free: u16,
  spent: u16,
}

struct Inner {
  prefix: Vec<u16>,
  trace: Vec<Choice>,
  spent: u32,
  states: Vec<u64>,
  transitions: u64,
  says: Option<Vec<String>>,
  diverged: bool,
  seen: Option<Arc<Mutex<HashMap<u64, u32>>>>,
  memory: u32,
  /// The state before, where in the trace it was, what was chosen for the last step that left the
  /// state as it was, and for the last one.
  before: (u64, usize, u64, u64),
}

#[derive(Clone)]
pub struct Ctx(Arc<Mutex<Inner>>);

struct AsChooser(Ctx);
impl sched::Chooser for AsChooser {
  fn choose(&mut self, n: usize, free: usize) -> usize {
    self.0.alt(n, free)
  }
}

pub fn hash_of(x: impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

impl Ctx {
  fn l(&self) -> std::sync::MutexGuard<'_, Inner> {
    self.0.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
  }

  /// One of `n` alternatives; those from `free` on cost a deviation.
  pub fn alt(&self, n: usize, free: usize) -> usize {
    assert!(n > 0 && n < 65536);
    if n == 1 {
      return 0;
    }
    let mut i = self.l();
    let at = i.trace.len();
    let mut chosen = i.prefix.get(at).copied().unwrap_or(0) as usize;
    if chosen >= n {
      chosen = n - 1;
      i.diverged = true;
    }
    let spent = i.spent as u16;
    if chosen >= free {
      i.spent += 1;
    }
    i.trace.push(Choice { chosen: chosen as u16, n: n as u16, free: free as u16, spent });
    chosen
  }

  /// Any of `n` alternatives.
  pub fn choose(&self, n: usize) -> usize {
    self.alt(n, n)
  }

  pub fn flip(&self) -> bool {
    self.choose(2) == 1
  }

  /// Normally 0; anything else is a deviation.
  pub fn deviate(&self, n: usize) -> usize {
    self.alt(n, 1)
  }

  /// Whether a fault strikes here.
  pub fn fault(&self) -> bool {
    self.deviate(2) == 1
  }

  pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
    &xs[self.choose(xs.len())]
  }

  /// Counts one operation performed.
  pub fn step(&self) {
    self.l().transitions += 1;
  }

  /// Counts the (abstract) state that was reached.
  pub fn state(&self, x: impl Hash) {
    let h = hash_of(x);
    self.l().states.push(h);
  }

  /// Counts the state, and says whether the rest of this execution can be left out: it was reached
  /// before with as much left to do. Only for states that determine all that follows.
  pub fn known(&self, x: impl Hash, left: u32) -> bool {
    let h = hash_of(x);
    let mut i = self.l();
    i.states.push(h);
    // What the model takes for no change at all is explored all the same.
    let (was, from, mut idle, last) = i.before;
    let step = hash_of(i.trace[from ..].iter().map(|c| c.chosen).collect::<Vec<_>>());
    if was == h {
      idle = step;
    }
    i.before = (h, i.trace.len(), idle, step);
    let h = match i.memory {
      0 => hash_of((h, i.spent)),
      1 => hash_of((h, i.spent, idle)),
      2 => hash_of((h, i.spent, idle, step)),
      _ => hash_of((h, i.spent, idle, step, last)),
    };
    if i.trace.len() < i.prefix.len() {
      return false;
    }
    let Some(seen) = i.seen.clone() else { return false };
    let mut seen = seen.lock().unwrap();
    match seen.get_mut(&h) {
      Some(l) if *l >= left => true,
      Some(l) => {
        *l = left;
        false
      },
      None => {
        seen.insert(h, left);
        false
      },
    }
  }

  /// A line of the account of this execution, which a report contains.
  pub fn say(&self, f: impl FnOnce() -> String) {
    let mut i = self.l();
    if i.says.is_some() {
      let s = f();
      i.says.as_mut().unwrap().push(s);
    }
  }

  /// Runs `f` under the controlled scheduler, whose decisions are choices of this execution.
  pub fn threads<T: Send + 'static>(&self, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Violation> {
    let (r, stats) = sched::execute(Box::new(AsChooser(self.clone())), None, f);
    self.l().transitions += stats.steps;
    r.map_err(failed)
  }

  /// Runs `f` under the controlled scheduler, always with the same schedule: for scenarios that
  /// explore something else, of code that has threads.
  pub fn one_schedule(&self, f: impl FnOnce() -> Res + Send + 'static) -> Res {
    struct First;
    impl sched::Chooser for First {
      fn choose(&mut self, _: usize, _: usize) -> usize {
        0
      }
    }
    let (r, stats) = sched::execute(Box::new(First), None, f);
    self.l().transitions += stats.steps;
    r.map_err(failed)?
  }

  /// As `one_schedule`, but all schedules of what happens while the window is open: all but
  /// the first schedule is a deviation there.
  /// One thread can be starved there. The order of hash maps is determined.
  pub fn windowed(&self, starved: Option<usize>, hashes: u64, f: impl FnOnce(Window) -> Res + Send + 'static) -> Res {
    struct In(AsChooser, Window);
    impl sched::Chooser for In {
      fn choose(&mut self, n: usize, free: usize) -> usize {
        let _ = free;
        if self.1.is_open() { self.0 .0.alt(n, 1) } else { 0 }
      }
      fn starved(&self) -> Option<usize> {
        if self.1.is_open() { self.1 .1 } else { None }
      }
      fn patient(&self) -> bool {
        true
      }
    }
    let w = Window(Arc::default(), starved);
    let verdict = Arc::new(std::sync::Mutex::new(Ok(())));
    let v = verdict.clone();
    let (r, stats) = sched::execute(Box::new(In(AsChooser(self.clone()), w.clone())), Some(hashes), move || {
      let r = f(w);
      v.lock().unwrap().clone_from(&r);
      r
    });
    self.l().transitions += stats.steps;
    // Once there is a violation, what the end of the execution makes of the threads that are left
    // does not matter.
    verdict.lock().unwrap().clone()?;
    r.map_err(failed)?
  }

  /// As `threads`, for an `f` that itself returns a verdict.
  pub fn under(&self, f: impl FnOnce() -> Res + Send + 'static) -> Res {
    self.threads(f)?
  }
}

/// In place of the C library's: this is where the standard library's hash maps get their keys from.
#[no_mangle]
extern "C" fn getrandom(to: *mut u8, n: usize, flags: u32) -> isize {
  const INSECURE: u32 = 4;
  const CALL: i64 = 318;
  if flags == INSECURE {
    if let Some(h) = sched::hashes() {
      for i in 0 .. n {
        // SAFETY: it is as long as it is said to be.
        unsafe { *to.add(i) = (h >> (8 * (i % 8))) as u8 };
      }
      return n as isize;
    }
  }
  extern "C" {
    fn syscall(n: i64, ...) -> i64;
  }
  // SAFETY: as the C library's.
  unsafe { syscall(CALL, to, n, flags) as isize }
}

/// For `Ctx::windowed`.
#[derive(Clone)]
pub struct Window(Arc<std::sync::atomic::AtomicBool>, Option<usize>);
impl Window {
  pub fn open(&self) {
    self.0.store(true, std::sync::atomic::Ordering::Relaxed);
  }
  pub fn close(&self) {
    self.0.store(false, std::sync::atomic::Ordering::Relaxed);
  }
  pub fn is_open(&self) -> bool {
    self.0.load(std::sync::atomic::Ordering::Relaxed)
  }
}

fn failed(f: sched::Failure) -> Violation {
  match f {
    sched::Failure::Deadlock(m) => Violation { key: "deadlock".into(), msg: format!("deadlock: {m}") },
    sched::Failure::Livelock(m) => Violation { key: "livelock".into(), msg: format!("livelock: {m}") },
    sched::Failure::Panic(m) => Violation { key: "panic".into(), msg: format!("panic in {m}{}", last_panic()) },
  }
}

/// Threads of the execution under the controlled scheduler.
pub mod th {
  pub use mc_sync::thread::{sleep, spawn, yield_now, Builder, JoinHandle};
  pub use mc_sync::sched::point;
  pub fn named<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    Builder::new().name(name.to_string()).spawn(f).unwrap()
  }
}

// Where the last panic of any thread was; the message comes with the payload.
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
  LAST_PANIC.lock().unwrap_or_else(std::sync::PoisonError::into_inner).clone()
}
thread_local! {
  static PANICKED: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
  static EXPECTING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Every panic of an execution fails it, also one that the code (or tokio) catches; but not in here.
pub fn expecting_panics<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
  EXPECTING.with(|e| e.set(true));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  EXPECTING.with(|e| e.set(false));
  r
}

pub(crate) fn quiet_panics() {
  std::panic::set_hook(Box::new(|i| {
    if EXPECTING.try_with(std::cell::Cell::get).unwrap_or(false) {
      return;
    }
    let at = i.location().map_or_else(String::new, |l| format!(" (at {}:{})", l.file(), l.line()));
    let p = i.payload();
    let m = p.downcast_ref::<&str>().copied().or_else(|| p.downcast_ref::<String>().map(String::as_str)).unwrap_or("?");
    let text = format!("{m}{at}");
    *LAST_PANIC.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = at;
    if sched::controlled() {
      sched::note_panic(&text);
    } else {
      let _ = PANICKED.try_with(|p| {
        p.borrow_mut().get_or_insert(text);
      });
    }
  }));
}

pub(crate) struct Outcome {
  pub executions: u64,
  pub complete: bool,
  pub states: u64,
  pub transitions: u64,
  pub diverged: u64,
  pub max_choices: usize,
  pub violation: Option<(Violation, Vec<u16>, Vec<String>)>,
  pub known: HashMap<String, (String, u64)>,
  pub sample: Vec<String>,
  pub stack_left: usize,
}

fn one<F: Fn(&Ctx) -> Res>(
  f: &F,
  prefix: Vec<u16>,
  verbose: bool,
  seen: Option<Arc<Mutex<HashMap<u64, u32>>>>,
  memory: u32,
) -> (Result<(), Violation>, Inner) {
  let inner = Arc::new(Mutex::new(Inner {
    prefix,
    trace: Vec::with_capacity(64),
    spent: 0,
    memory,
    before: Default::default(),
    states: Vec::new(),
    transitions: 0,
    says: verbose.then(Vec::new),
    diverged: false,
    seen,
  }));
  let ctx = Ctx(inner.clone());
  let pick = ctx.clone();
  mc_sync::set_pick(Some(Box::new(move |n| pick.deviate(n as usize) as u32)));
  PANICKED.with(|p| p.borrow_mut().take());
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ctx)));
  mc_sync::set_pick(None);
  mc_sync::set_raw_random(None);
  let r = match r {
    Ok(r) => match PANICKED.with(|p| p.borrow_mut().take()) {
      Some(m) => Err(Violation { key: "panic".into(), msg: format!("panic, caught on its way: {m}") }),
      None => r,
    },
    Err(p) => {
      let m = p
        .downcast_ref::<&str>()
        .map(|s| (*s).to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".to_string());
      Err(Violation { key: "panic".into(), msg: format!("panic: {m}{}", last_panic()) })
    },
  };
  drop(ctx);
  let empty = Inner {
    prefix: vec![],
    trace: vec![],
    spent: 0,
    memory: 0,
    before: Default::default(),
    states: vec![],
    transitions: 0,
    says: None,
    diverged: false,
    seen: None,
  };
  let inner = std::mem::replace(&mut *inner.lock().unwrap_or_else(std::sync::PoisonError::into_inner), empty);
  (r, inner)
}

pub(crate) fn replay<F: Fn(&Ctx) -> Res>(f: &F, choices: Vec<u16>) -> (Result<(), Violation>, Vec<String>) {
  let (r, inner) = one(f, choices, true, None, 0);
  (r, inner.says.unwrap_or_default())
}

/// Tells the supervisor what each worker is at.
pub(crate) trait Progress: Sync {
  fn at(&self, worker: usize, scenario: &str, prefix: &[u16]);
  fn hang(&self, worker: usize) -> !;
}

pub(crate) fn explore<F: Fn(&Ctx) -> Res + Sync>(
  name: &str,
  opts: &Opts,
  known: &HashSet<String>,
  progress: &dyn Progress,
  f: &F,
) -> Outcome {
  let start = Instant::now();
  let stack: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
  let pending = AtomicUsize::new(1);
  let stop = AtomicBool::new(false);
  let cut = AtomicBool::new(false);
  let executions = AtomicU64::new(0);
  let transitions = AtomicU64::new(0);
  let diverged = AtomicU64::new(0);
  let max_choices = AtomicUsize::new(0);
  let visited: Vec<Mutex<HashSet<u64>>> = (0 .. 64).map(|_| Mutex::new(HashSet::new())).collect();
  let seen = Arc::new(Mutex::new(HashMap::new()));
  let violation: Mutex<Option<(Violation, Vec<u16>)>> = Mutex::new(None);
  let known_hits: Mutex<HashMap<String, (String, u64)>> = Mutex::new(HashMap::new());
  let sample: Mutex<Vec<String>> = Mutex::new(vec![]);
  let began: Vec<AtomicU64> = (0 .. opts.threads).map(|_| AtomicU64::new(0)).collect();
  let finished = AtomicBool::new(false);
  let ms = || start.elapsed().as_millis() as u64 + 1;

  std::thread::scope(|s| {
    let (began, finished) = (&began, &finished);
    s.spawn(move || {
      while !finished.load(Ordering::SeqCst) {
        std::thread::park_timeout(Duration::from_millis(100));
        for (w, b) in began.iter().enumerate() {
          let b = b.load(Ordering::SeqCst);
          if b > 0 && ms() > b + opts.hang_secs * 1000 {
            progress.hang(w);
          }
        }
      }
    });
    let workers: Vec<_> = (0 .. opts.threads)
      .map(|w| {
        let (stack, pending, stop, cut, executions) = (&stack, &pending, &stop, &cut, &executions);
        let (transitions, diverged, max_choices, visited) = (&transitions, &diverged, &max_choices, &visited);
        let (seen, violation, known_hits, sample) = (&seen, &violation, &known_hits, &sample);
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
          let mut idle = 0;
          while !stop.load(Ordering::Relaxed) {
            let Some(prefix) = stack.lock().unwrap().pop() else {
              if pending.load(Ordering::SeqCst) == 0 {
                break;
              }
              idle += 1;
              if idle > 50 {
                std::thread::sleep(Duration::from_micros(50));
              } else {
                std::thread::yield_now();
              }
              continue;
            };
            idle = 0;
            let nth = executions.fetch_add(1, Ordering::Relaxed);
            if nth >= opts.max_executions || start.elapsed().as_secs() >= opts.max_secs {
              cut.store(true, Ordering::SeqCst);
              stop.store(true, Ordering::SeqCst);
              executions.fetch_sub(1, Ordering::Relaxed);
              stack.lock().unwrap().push(prefix);
              break;
            }
            progress.at(w, name, &prefix);
            began[w].store(ms(), Ordering::SeqCst);
            let len = prefix.len();
            let verbose = nth == 0 || nth == 100 || nth == 10000;
            let (r, inner) = one(f, prefix, verbose, opts.prune.then(|| seen.clone()), opts.memory);
            began[w].store(0, Ordering::SeqCst);
            let choices: Vec<u16> = inner.trace.iter().map(|c| c.chosen).collect();
            if verbose {
              let mut t = format!("{name}: choices {choices:?}");
              for l in inner.says.iter().flatten().take(60) {
                let _ = write!(t, "; {l}");
              }
              t.truncate(4000.min(t.len()));
              while !t.is_char_boundary(t.len()) { t.pop(); }
              sample.lock().unwrap().push(t);
            }
            transitions.fetch_add(inner.transitions, Ordering::Relaxed);
            max_choices.fetch_max(inner.trace.len(), Ordering::Relaxed);
            if inner.diverged {
              diverged.fetch_add(1, Ordering::Relaxed);
            }
            for h in inner.states {
              visited[(h >> 58) as usize].lock().unwrap().insert(h);
            }
            if let Err(v) = r {
              if known.contains(&v.key) {
                let mut k = known_hits.lock().unwrap();
                k.entry(v.key).or_insert((v.msg, 0)).1 += 1;
              } else {
                let mut slot = violation.lock().unwrap();
                if slot.is_none() {
                  *slot = Some((v, choices.clone()));
                }
                stop.store(true, Ordering::SeqCst);
              }
            }
            let mut more = vec![];
            for (i, c) in inner.trace.iter().enumerate().skip(len) {
              for a in (c.chosen + 1) .. c.n {
                let cost = u32::from(a >= c.free);
                if u32::from(c.spent) + cost > opts.deviations {
                  break;
                }
                let mut p = choices[.. i].to_vec();
                p.push(a);
                more.push(p);
              }
            }
            pending.fetch_add(more.len(), Ordering::SeqCst);
            more.reverse();
            stack.lock().unwrap().extend(more);
            pending.fetch_sub(1, Ordering::SeqCst);
          }
        }).unwrap()
      })
      .collect();
    for w in workers {
      let _ = w.join();
    }
    finished.store(true, Ordering::SeqCst);
  });

  let violation = violation.into_inner().unwrap();
  let complete = !cut.load(Ordering::SeqCst) && violation.is_none();
  let violation = violation.map(|(v, choices)| {
    // Once more, for the account.
    progress.at(0, name, &choices);
    let (tx, rx) = std::sync::mpsc::channel();
    let says = std::thread::scope(|s| {
      s.spawn(|| {
        let (r, mut says) = replay(f, choices.clone());
        match r {
          Ok(()) => says.push("(a second run of the same choices did not fail)".into()),
          Err(v2) => says.push(format!("fails with: {}", v2.msg)),
        }
        let _ = tx.send(says);
      });
      match rx.recv_timeout(Duration::from_secs(opts.hang_secs)) {
        Ok(s) => s,
        Err(_) => progress.hang(0),
      }
    });
    (v, choices, says)
  });
  let stack_left = stack.lock().unwrap().len();
  Outcome {
    executions: executions.load(Ordering::SeqCst),
    complete,
    states: visited.iter().map(|v| v.lock().unwrap().len() as u64).sum(),
    transitions: transitions.load(Ordering::SeqCst),
    diverged: diverged.load(Ordering::SeqCst),
    max_choices: max_choices.load(Ordering::SeqCst),
    violation,
    known: known_hits.into_inner().unwrap(),
    sample: sample.into_inner().unwrap(),
    stack_left,
  }
}

//
// Scratch directories
//

static NEXT_DIR: AtomicU64 = AtomicU64::new(0);

/// A directory of its own for one execution, removed with everything in it at the end.
pub struct Scratch(std::path::PathBuf);

impl Default for Scratch {
  fn default() -> Self {
    Self::new()
  }
}

impl Scratch {
  pub fn new() -> Self {
    let base = std::env::var("MC_SCRATCH").map_or_else(|_| std::env::temp_dir(), std::path::PathBuf::from);
    let d = base.join(format!("x{}-{}", std::process::id(), NEXT_DIR.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Self(d)
  }
  pub fn path(&self) -> &std::path::Path {
    &self.0
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

#[cfg(test)]
mod tests {
  use super::*;
  use mc_sync::atomic::AtomicU32 as A;

  struct Nowhere;
  impl Progress for Nowhere {
    fn at(&self, _: usize, _: &str, _: &[u16]) {}
    fn hang(&self, _: usize) -> ! {
      std::process::abort()
    }
  }
  fn run(dev: u32, f: impl Fn(&Ctx) -> Res + Sync) -> Outcome {
    explore("t", &Opts::dev(dev), &HashSet::new(), &Nowhere, &f)
  }

  #[test]
  fn enumerates_all() {
    let o = run(0, |c| {
      let (a, b) = (c.choose(3), c.choose(4));
      c.state((a, b));
      Ok(())
    });
    assert_eq!((12, 12, true), (o.executions, o.states, o.complete));
    // 5 positions, at most 2 deviations: 1 + 5 + 10.
    let o = run(2, |c| {
      for _ in 0 .. 5 {
        c.fault();
      }
      Ok(())
    });
    assert_eq!(16, o.executions);
  }

  fn lost_update(dev: u32) -> Option<String> {
    run(dev, |c| {
      c.under(|| {
        let x = Arc::new(A::new(0));
        let ts: Vec<_> = (0 .. 2)
          .map(|_| {
            let x = x.clone();
            th::spawn(move || {
              let v = x.load(Ordering::SeqCst);
              x.store(v + 1, Ordering::SeqCst);
            })
          })
          .collect();
        for t in ts {
          t.join().unwrap();
        }
        same!("lost", x.load(Ordering::SeqCst), 2, "count");
        Ok(())
      })
    })
    .violation
    .map(|v| v.0.key)
  }

  #[test]
  fn finds_a_lost_update_with_one_preemption() {
    assert_eq!(None, lost_update(0));
    assert_eq!(Some("lost".to_string()), lost_update(1));
  }

  #[test]
  fn finds_a_deadlock() {
    let f = |c: &Ctx| {
      c.under(|| {
        let a = Arc::new((mc_sync::Mutex::new(()), mc_sync::Mutex::new(())));
        let b = a.clone();
        let t = th::spawn(move || {
          let _x = b.0.lock();
          let _y = b.1.lock();
        });
        let y = a.1.lock();
        let x = a.0.lock();
        drop((x, y));
        t.join().unwrap();
        Ok(())
      })
    };
    assert!(run(0, f).violation.is_none());
    assert_eq!("deadlock", run(1, f).violation.unwrap().0.key);
  }

  #[test]
  fn finds_a_lost_wakeup_and_none_where_there_is_none() {
    let f = |good: bool| {
      move |c: &Ctx| {
        c.under(move || {
          let a = Arc::new((mc_sync::Mutex::new(false), mc_sync::Condvar::new()));
          let b = a.clone();
          let t = th::spawn(move || {
            if !good && *b.0.lock().unwrap() {
              return;
            }
            let mut g = b.0.lock().unwrap();
            while good && !*g {
              g = b.1.wait(g).unwrap();
            }
            if !good {
              drop(b.1.wait(g).unwrap());
            }
          });
          *a.0.lock().unwrap() = true;
          a.1.notify_one();
          t.join().unwrap();
          Ok(())
        })
      }
    };
    assert_eq!("deadlock", run(2, f(false)).violation.unwrap().0.key);
    let o = run(3, f(true));
    assert!(o.violation.is_none() && o.complete && o.executions > 5);
  }

  #[test]
  fn sleeping_for_what_comes_is_no_livelock() {
    let o = run(2, |c| {
      c.under(|| {
        let x = Arc::new(A::new(0));
        let y = x.clone();
        let t = th::spawn(move || y.store(1, Ordering::SeqCst));
        while x.load(Ordering::SeqCst) == 0 {
          th::sleep(Duration::from_secs(1));
        }
        t.join().unwrap();
        Ok(())
      })
    });
    assert!(o.violation.is_none() && o.complete);
    let o = run(0, |c| {
      c.under(|| {
        loop {
          th::yield_now();
        }
      })
    });
    assert_eq!("livelock", o.violation.unwrap().0.key);
  }

  #[test]
  fn linearizability() {
    use lin::*;
    let ev = |op: (char, i32), call, ret| Event { thread: 0, op, call, ret };
    let apply = |s: &mut i32, o: &(char, i32)| {
      if o.0 == 'w' {
        *s = o.1;
        true
      } else {
        *s == o.1
      }
    };
    let ok = |e: &[Event<(char, i32)>]| linearizable(&0, e, &apply, &|_| true);
    assert!(ok(&[ev(('w', 1), 0, 3), ev(('r', 1), 1, 2)]));
    assert!(ok(&[ev(('w', 1), 0, 3), ev(('r', 0), 1, 2)]));
    assert!(!ok(&[ev(('w', 1), 0, 1), ev(('r', 0), 2, 3)]));
    assert!(!ok(&[ev(('w', 1), 0, 5), ev(('r', 1), 1, 2), ev(('r', 0), 3, 4)]));
  }
}
