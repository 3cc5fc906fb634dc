//! C48: what is asked of the platform, and when, is what the runtime configuration says.

use crate::upload::runtime;
use bd_client_stats_store::Collector;
use bd_log_primitives::{LogInterceptor, LogType};
use bd_runtime::runtime::ConfigLoader;
use bd_session_replay::Recorder;
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
struct Asked {
  ticks: AtomicU64,
  shots: AtomicU64,
}
impl Asked {
  fn take(&self) -> (u64, u64) {
    (self.ticks.swap(0, SeqCst), self.shots.swap(0, SeqCst))
  }
}
struct Platform(Arc<Asked>);
impl bd_resource_utilization::Target for Platform {
  fn tick(&self) {
    self.0.ticks.fetch_add(1, SeqCst);
  }
}
impl bd_session_replay::Target for Platform {
  fn capture_screen(&self) {
    self.0.ticks.fetch_add(1, SeqCst);
  }
  fn capture_screenshot(&self) {
    self.0.shots.fetch_add(1, SeqCst);
  }
}

enum What {
  Resources(bd_resource_utilization::Reporter),
  Replay(Recorder),
  Events(bd_events::Listener),
}

/// One of them, with the future that is dropped whenever something else is to be done.
struct Driven {
  run: Option<Pin<Box<dyn Future<Output = ()>>>>,
  what: Box<What>,
}
impl Driven {
  fn new(what: What) -> Self {
    Self { run: None, what: Box::new(what) }
  }
  fn cancel(&mut self) {
    self.run = None;
  }
  fn poll(&mut self) -> Res {
    let p: *mut What = &mut *self.what;
    // What it borrows is boxed, and outlives it.
    let run = self.run.get_or_insert_with(|| match unsafe { &mut *p } {
      What::Resources(x) => Box::pin(x.run()),
      What::Replay(x) => Box::pin(x.run()),
      What::Events(x) => Box::pin(x.run()),
    });
    let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mc::fut::now(run)));
    match ended {
      Ok(None) => Ok(()),
      Ok(Some(())) => fail!("ended", "it ended by itself"),
      Err(_) => fail!("panic", "it panicked: {}", mc::last_panic()),
    }
  }
}
impl Drop for Driven {
  fn drop(&mut self) {
    self.run = None;
  }
}

/// Flags, and the values that they had since they were last looked at.
struct Flags {
  loader: Arc<ConfigLoader>,
  set: BTreeMap<&'static str, u32>,
  before: BTreeMap<&'static str, u32>,
  changed: BTreeMap<&'static str, bool>,
}
impl Flags {
  fn new(dir: &mc::Scratch, initial: &[(&'static str, u32)]) -> Self {
    let set: BTreeMap<_, _> = initial.iter().copied().collect();
    Self { loader: ConfigLoader::new(dir.path()), before: set.clone(), set, changed: BTreeMap::new() }
  }
  fn update(&mut self, key: &'static str, v: u32) {
    self.changed.insert(key, true);
    self.set.insert(key, v);
    self.send();
  }
  fn send(&self) {
    self.loader.update_snapshot(&runtime(&self.set.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()));
  }
  fn is(&self, key: &str) -> u32 {
    self.set[key]
  }
  /// It may have been seen on, and it has been seen to be on all the time.
  fn on(&self, key: &str) -> (bool, bool) {
    let (was, is, changed) = (self.before[key] != 0, self.set[key] != 0, self.is_new(key));
    (was || is, was && is && !changed)
  }
  fn is_new(&self, key: &str) -> bool {
    self.changed.get(key).copied().unwrap_or_default()
  }
  fn seen(&mut self) {
    self.before = self.set.clone();
    self.changed.clear();
  }
}

const PERIODS: [u32; 3] = [10, 25, 0];

/// When it may next be asked for.
struct Periodic {
  enabled: &'static str,
  interval: &'static str,
  /// From when and until when, which is known unless the interval is none. One that was asked for
  /// up to 5 ms late does not put off the next.
  due: Option<(u64, u64)>,
}
impl Periodic {
  fn polled(&mut self, f: &Flags, now: u64, ticks: u64) -> Res {
    let (may, _) = f.on(self.enabled);
    let must = f.is(self.enabled) != 0;
    let (new, is) = (f.is_new(self.interval), u64::from(f.is(self.interval)));
    let every = (is > 0).then_some(is);
    match self.due {
      // With no interval, how often is left open.
      Some((from, until)) if !(new && every.is_none()) => {
        check!(ticks <= 1, "often", "{ticks} at {now}");
        check!(ticks == 0 || may, "disabled", "asked at {now}, disabled");
        check!(ticks == 0 || now >= from, "early", "asked at {now}, due at {from}");
        check!(ticks == 1 || !must || now < until || new, "late", "not asked at {now}, due at {until}");
        if new {
          self.due = every.map(|e| (now + e, now + e));
        } else if ticks > 0 {
          self.due = every.map(|e| ((from + e).max((now + e).saturating_sub(5)), now + e));
        }
      },
      _ => {
        check!(ticks == 0 || may, "disabled", "asked at {now}, disabled");
        if new {
          self.due = every.map(|e| (now + e, now + e));
        }
      },
    }
    Ok(())
  }
  fn state(&self, now: u64) -> Option<(u64, u64)> {
    // How much later it is does not matter.
    self.due.map(|(a, b)| (a.saturating_sub(now.saturating_sub(6)), b.saturating_sub(now.saturating_sub(6))))
  }
}

fn resources(ctx: &Ctx, depth: u32) -> Res {
  let dir = mc::Scratch::new();
  mc::fut::runtime().block_on(async {
    const ON: &str = "resource_utilization.enabled";
    const EVERY: &str = "resource_utilization.reporting_interval_ms";
    let mut f = Flags::new(&dir, &[(ON, 0), (EVERY, 6000)]);
    let asked = Arc::new(Asked::default());
    // The first configuration comes before it is there, before it runs, or later.
    let early = ctx.flip();
    if early {
      f.set.insert(EVERY, 10);
      f.send();
    }
    let mut d = Driven::new(What::Resources(bd_resource_utilization::Reporter::new(Box::new(Platform(asked.clone())), &f.loader)));
    let mut p = Periodic { enabled: ON, interval: EVERY, due: Some((0, 0)) };
    let mut now = 0u64;
    for i in 0 .. depth {
      match ctx.choose(7) {
        k @ (0 | 1) => {
          let by = [4, 10][k];
          tokio::time::advance(Duration::from_millis(by)).await;
          now += by;
        },
        2 => f.update(ON, 1 - f.is(ON)),
        k @ (3 | 4) => {
          // The one after it, or the one before it.
          let at = PERIODS.iter().position(|p| *p == f.is(EVERY)).unwrap_or(2);
          f.update(EVERY, PERIODS[(at + k - 2) % 3]);
        },
        5 => d.cancel(),
        _ => {
          d.poll()?;
          p.polled(&f, now, asked.take().0)?;
          f.seen();
        },
      }
      ctx.step();
      if ctx.known((early, &f.set, &f.before, &f.changed, p.state(now), now == 0, d.run.is_some()), depth - i) {
        break;
      }
    }
    Ok(())
  })
}

fn count(c: &Collector, kind: &str) -> u64 {
  c.scope("").scope("screenshots").counter_with_labels("requests_total", [("type".to_string(), kind.to_string())].into()).get()
}

fn replay(ctx: &Ctx, depth: u32, screens: bool) -> Res {
  let dir = mc::Scratch::new();
  mc::fut::runtime().block_on(async {
    const SCREENS: &str = "session_replay.screens.enabled";
    const EVERY: &str = "session_replay.screens.interval_ms";
    const SHOTS: &str = "session_replay.screenshots.enabled";
    let mut f = Flags::new(&dir, &[(SCREENS, 0), (EVERY, 3000), (SHOTS, 0)]);
    let asked = Arc::new(Asked::default());
    let collector = Collector::default();
    let (recorder, handler, interceptor) = Recorder::new(Box::new(Platform(asked.clone())), &f.loader, &collector.scope(""));
    let mut d = Driven::new(What::Replay(recorder));
    let mut p = Periodic { enabled: SCREENS, interval: EVERY, due: Some((0, 0)) };
    let mut now = 0u64;
    let (mut requested, mut waits, mut log_waits) = (0u64, false, false);
    // Whether there is one that the platform was asked for, and has not logged: it may not be known,
    // if it was asked for when the log of another came.
    let mut outstanding = Some(false);
    let mut counts = [0; 4];
    for i in 0 .. depth {
      let ops: &[usize] = if screens { &[0, 1, 2, 3, 6, 7, 8, 9] } else { &[4, 5, 6, 7, 8] };
      match *ctx.pick(ops) {
        k @ (0 | 1) => {
          let by = [4, 10][k];
          tokio::time::advance(Duration::from_millis(by)).await;
          now += by;
        },
        2 => f.update(SCREENS, 1 - f.is(SCREENS)),
        3 => {
          let at = PERIODS.iter().position(|p| *p == f.is(EVERY)).unwrap_or(2);
          f.update(EVERY, PERIODS[(at + 1) % 3]);
        },
        4 => {
          // What comes from others is not the log of a screenshot.
          let which = ctx.choose(3);
          let (t, m) = [
            (LogType::Replay, bd_session_replay::SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE),
            (LogType::Normal, bd_session_replay::SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE),
            (LogType::Replay, "Screen captured"),
          ][which];
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            interceptor.process(2, t, &m.into(), &mut vec![]);
          }));
          check!(r.is_ok(), "log", "a log of a screenshot that was not asked for: {}", mc::last_panic());
          log_waits |= which == 0;
        },
        5 => f.update(SHOTS, 1 - f.is(SHOTS)),
        6 => d.cancel(),
        7 => {
          d.poll()?;
          let (ticks, shots) = asked.take();
          p.polled(&f, now, ticks)?;
          let (may, must) = f.on(SHOTS);
          let is = ["success", "channel_full", "disabled", "not_ready"].map(|k| count(&collector, k));
          let more: [u64; 4] = std::array::from_fn(|i| is[i] - counts[i]);
          counts = is;
          check!(more[0] == shots, "count", "{shots} screenshots are counted as {}", more[0]);
          check!(more[2] == 0 || !must, "count", "a request counts as disabled, with screenshots enabled");
          check!(more[3] == 0 || outstanding != Some(false), "count", "a request counts as not ready, with none outstanding");
          if shots > 0 {
            same!("shots", shots, 1, "screenshots asked for at once");
            check!(waits, "unasked", "a screenshot that nobody asked for");
            check!(may, "shot disabled", "a screenshot, with none enabled");
            check!(outstanding != Some(true) || log_waits, "outstanding", "a screenshot, before the last is there");
            outstanding = if log_waits && outstanding == Some(false) { None } else { Some(true) };
          } else {
            check!(!(waits && must && outstanding == Some(false)), "ignored", "a screenshot that was to be taken is not");
            if log_waits {
              outstanding = Some(false);
            }
          }
          (waits, log_waits) = (false, false);
          f.seen();
        },
        _ => {
          handler.capture_screenshot();
          let full = count(&collector, "channel_full") - counts[1];
          counts[1] += full;
          same!("full", full != 0, waits, "that a request is one too many");
          requested += 1;
          waits = true;
        },
      }
      let (ok, full, off, early) = (count(&collector, "success"), count(&collector, "channel_full"), count(&collector, "disabled"), count(&collector, "not_ready"));
      same!("counted", ok + full + off + early + u64::from(waits), requested, "of the requests, taken {ok}, too many {full}, disabled {off}, not ready {early}, and waiting {waits}");
      ctx.step();
      if ctx.known((&f.set, &f.before, &f.changed, p.state(now), now == 0, d.run.is_some(), waits, log_waits, outstanding), depth - i) {
        break;
      }
    }
    Ok(())
  })
}

struct Events(Arc<Mutex<Vec<bool>>>);
impl bd_events::ListenerTarget for Events {
  fn start(&self) {
    self.0.lock().unwrap().push(true);
  }
  fn stop(&self) {
    self.0.lock().unwrap().push(false);
  }
}

fn events(ctx: &Ctx, depth: u32) -> Res {
  let dir = mc::Scratch::new();
  mc::fut::runtime().block_on(async {
    const ON: &str = "platform_events.enabled";
    let mut f = Flags::new(&dir, &[(ON, 0)]);
    let calls = Arc::new(Mutex::new(vec![]));
    let mut d = Driven::new(What::Events(bd_events::Listener::new(Box::new(Events(calls.clone())), &f.loader)));
    let mut polled = false;
    for _ in 0 .. depth {
      match ctx.choose(3) {
        0 => f.update(ON, 1 - f.is(ON)),
        1 => d.cancel(),
        _ => {
          d.poll()?;
          polled = true;
          f.seen();
        },
      }
      let calls = calls.lock().unwrap().clone();
      for (i, started) in calls.iter().enumerate() {
        check!(*started == (i % 2 == 0), "twice", "started and stopped: {calls:?}");
      }
      if polled && !f.is_new(ON) {
        let is = calls.last().copied().unwrap_or_default();
        check!(is == (f.is(ON) != 0), "listening", "started and stopped {calls:?}, and it is to be {}", f.is(ON) != 0);
      }
      ctx.step();
      ctx.state((calls, &f.set, d.run.is_some()));
    }
    Ok(())
  })
}

pub fn c48(r: &mut Run) {
  let (d, k) = (r.by_tier(8, 10), r.by_tier(1, 2));
  r.explore("resources", &format!("all sequences of {d} of: 4 ms or 10 ms pass, it is enabled or disabled, either of two other intervals of 10 ms, 25 ms and none, it is dropped, it is polled; from a first interval that it starts with or is yet to learn; and every order in which it looks at what is ready, in up to {k} of the looks"), Opts::dev(k), move |ctx| resources(ctx, d));
  r.explore("screens", &format!("all sequences of {d} of the same for screens, and of requests for screenshots"), Opts::dev(k), move |ctx| replay(ctx, d, true));
  r.explore("screenshots", &format!("all sequences of {d} of: a log of a screenshot or one that is similar, screenshots enabled or disabled, it is dropped, it is polled, a screenshot is asked for; and every order in which it looks at what is ready, in up to {k} of the looks"), Opts::dev(k), move |ctx| replay(ctx, d, false));
  r.explore("events", &format!("all sequences of {d} of: enabled or disabled, dropped, polled"), Opts::default().full(), move |ctx| events(ctx, d));
}
