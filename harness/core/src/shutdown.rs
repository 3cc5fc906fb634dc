//! C12: graceful shutdown of components.

use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger, ComponentStatus};
use mc::fut::{self, Tasks};
use mc::{check, th, Ctx, Opts, Res, Run, Violation};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub fn c12(r: &mut Run) {
  r.assume("tokio's watch channel is atomic between its await points");
  r.explore(
    "threads",
    "2 components of 7 kinds (waiting, polling, cloning, made late from a handle, waiting twice, already gone, waiting in a select) in threads, shut down by blocking or by awaiting: every interleaving",
    Opts::dev(r.by_tier(2, 3)),
    threads,
  );
  let n = r.by_tier(2, 3);
  r.explore(
    "tasks",
    &format!("{n} components of the same kinds in tasks of one thread, and one more made during the shutdown: every order of polling"),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| tasks(ctx, n),
  );
}

#[derive(Default)]
struct World {
  begun: AtomicBool,
  live: AtomicUsize,
  bad: Mutex<Vec<(&'static str, String)>>,
}
impl World {
  fn bad(&self, k: &'static str, m: &str) {
    self.bad.lock().unwrap().push((k, m.to_string()));
  }
  fn cancelled(&self, s: &ComponentShutdown, who: &str) {
    if !self.begun.load(SeqCst) {
      self.bad("early", &format!("{who} was cancelled before the shutdown began"));
    }
    if s.component_status() != ComponentStatus::PendingShutdown {
      self.bad("status", &format!("{who} was cancelled, but its status is still running"));
    }
  }
  fn verdict(&self) -> Res {
    match self.bad.lock().unwrap().first() {
      Some((k, m)) => Err(Violation { key: (*k).to_string(), msg: m.clone() }),
      None => Ok(()),
    }
  }
}

const KINDS: usize = 7;
const NAMES: [&str; KINDS] = ["waits", "polls", "clones", "made late", "waits twice", "gone", "selects"];

/// What a component does until it is done; it has counted itself as live.
async fn component(kind: usize, mut s: ComponentShutdown, w: &World, pause: impl Fn() -> bool) {
  let who = NAMES[kind];
  match kind {
    1 => {
      while s.component_status() == ComponentStatus::Running {
        if pause() {
          fut::turn().await;
        }
      }
      w.cancelled(&s, who);
    },
    2 => {
      let mut c = s.clone();
      drop(s);
      c.cancelled().await;
      w.cancelled(&c, who);
      let mut d = c.clone();
      d.cancelled().await;
      w.cancelled(&d, "a clone made after the shutdown began");
      s = d;
    },
    4 => {
      s.cancelled().await;
      w.cancelled(&s, who);
      fut::turn().await;
      s.cancelled().await;
      s.cancelled().await;
    },
    5 => {},
    6 => {
      // Gives up waiting a few times before it waits in earnest.
      for _ in 0 .. 2 {
        let mut c = Box::pin(s.cancelled());
        let mut first = true;
        std::future::poll_fn(|cx| match c.as_mut().poll(cx) {
          std::task::Poll::Pending if std::mem::take(&mut first) => {
            cx.waker().wake_by_ref();
            std::task::Poll::Ready(())
          },
          x => x,
        })
        .await;
        drop(c);
        fut::turn().await;
      }
      s.cancelled().await;
      w.cancelled(&s, who);
    },
    _ => {
      s.cancelled().await;
      w.cancelled(&s, who);
    },
  }
  fut::turn().await;
  w.live.fetch_sub(1, SeqCst);
  drop(s);
}
use std::future::Future;

fn threads(ctx: &Ctx) -> Res {
  let kinds = [ctx.choose(KINDS), ctx.choose(KINDS)];
  let blocking = ctx.flip();
  if kinds[0] > kinds[1] {
    return Ok(());
  }
  ctx.state((kinds, blocking));
  ctx.say(|| format!("components: {} and {}; shutdown {}", NAMES[kinds[0]], NAMES[kinds[1]], if blocking { "blocks" } else { "is awaited" }));
  ctx.under(move || {
    let w = Arc::new(World::default());
    let trigger = ComponentShutdownTrigger::default();
    let mut ts = vec![];
    for k in kinds {
      let (w, h) = (w.clone(), trigger.make_handle());
      let early = (k != 3).then(|| {
        w.live.fetch_add(1, SeqCst);
        trigger.make_shutdown()
      });
      ts.push(th::spawn(move || {
        th::point();
        // One that is made when the shutdown may have begun, or may be over, is not waited for, but
        // it is cancelled.
        let late = early.is_none();
        let s = early.unwrap_or_else(|| h.make_shutdown());
        if late {
          let mut s = s;
          fut::block_on(s.cancelled());
          w.cancelled(&s, "one made late");
        } else {
          th::point();
          fut::block_on(component(k, s, &w, || {
            th::yield_now();
            false
          }));
        }
        th::point();
      }));
    }
    th::point();
    w.begun.store(true, SeqCst);
    if blocking {
      trigger.shutdown_blocking();
    } else {
      fut::block_on(trigger.shutdown());
    }
    let live = w.live.load(SeqCst);
    check!(live == 0, "left-behind", "the shutdown is over, and {live} components are not");
    for t in ts {
      t.join().unwrap();
    }
    w.verdict()
  })
}

fn tasks(ctx: &Ctx, n: usize) -> Res {
  let mut kinds = vec![];
  for _ in 0 .. n {
    let k = ctx.choose(KINDS);
    if k < kinds.last().copied().unwrap_or(0) {
      return Ok(());
    }
    kinds.push(k);
  }
  ctx.state(&kinds);
  ctx.step();
  ctx.say(|| format!("components: {:?}", kinds.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()));
  let w = Rc::new(World::default());
  let over = Rc::new(Cell::new(false));
  let trigger = ComponentShutdownTrigger::default();
  let mut all = Tasks::new(ctx);
  for (i, k) in kinds.iter().copied().enumerate() {
    let (w, h) = (w.clone(), trigger.make_handle());
    let s = RefCell::new((k != 3).then(|| {
      w.live.fetch_add(1, SeqCst);
      trigger.make_shutdown()
    }));
    let over = over.clone();
    all.spawn(&format!("component {i}"), async move {
      fut::turn().await;
      let s = s.take().unwrap_or_else(|| {
        // In one thread, whether the shutdown still waits is known.
        w.live.fetch_add(1, SeqCst);
        h.make_shutdown()
      });
      if over.get() {
        let mut s = s;
        s.cancelled().await;
        w.cancelled(&s, "one made after the shutdown");
        w.live.fetch_sub(1, SeqCst);
      } else {
        component(k, s, &w, || true).await;
      }
    });
  }
  {
    let (w, over) = (w.clone(), over.clone());
    all.spawn("shutdown", async move {
      fut::turn().await;
      fut::turn().await;
      w.begun.store(true, SeqCst);
      trigger.shutdown().await;
      over.set(true);
      let live = w.live.load(SeqCst);
      if live != 0 {
        w.bad("left-behind", &format!("the shutdown is over, and {live} components are not"));
      }
    });
  }
  // With nothing left to poll the runtime moves its clock; an hour on, it is a deadlock.
  let rt = fut::runtime();
  let ended = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(3600), all.run()).await.is_ok() });
  check!(ended, "deadlock", "the components and the shutdown wait for each other");
  w.verdict()
}
