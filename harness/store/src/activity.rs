//! C06 and C07: sessions that end with inactivity.

use crate::disk::Disk;
use bd_session::{activity_based, Strategy};
use bd_time::TimeProvider;
use mc::{check, same, th, Ctx, Opts, Res, Run, Violation};
use std::sync::{Arc, Mutex};
use time::ext::NumericalDuration;
use time::{Duration, OffsetDateTime};

const KEY: &str = "session_strategy.activity_based.state.1";

#[derive(Clone)]
struct Clock(Arc<Mutex<OffsetDateTime>>);
impl TimeProvider for Clock {
  fn now(&self) -> OffsetDateTime {
    th::point();
    *self.0.lock().unwrap()
  }
  fn sleep<'a, 'b>(&'a self, _: Duration) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'b>>
  where
    'a: 'b,
    Self: 'b,
  {
    Box::pin(std::future::pending())
  }
}

struct Callbacks(Arc<Mutex<Vec<String>>>);
impl activity_based::Callbacks for Callbacks {
  fn session_id_changed(&self, id: &str) {
    th::point();
    self.0.lock().unwrap().push(id.to_string());
  }
}

struct World {
  disk: Disk,
  clock: Clock,
  told: Arc<Mutex<Vec<String>>>,
  threshold: Duration,
}

impl World {
  fn new(threshold: Duration, points: bool) -> Self {
    Self {
      disk: if points { Disk::with_points() } else { Disk::new() },
      clock: Clock(Arc::new(Mutex::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap()))),
      told: Arc::default(),
      threshold,
    }
  }
  fn start(&self) -> Arc<Strategy> {
    Arc::new(Strategy::ActivityBased(activity_based::Strategy::new(
      self.threshold,
      self.disk.store(),
      Arc::new(Callbacks(self.told.clone())),
      Arc::new(self.clock.clone()),
    )))
  }
  fn now(&self) -> OffsetDateTime {
    *self.clock.0.lock().unwrap()
  }
}

/// What a user of sessions expects.
#[derive(Clone, Debug, Hash)]
struct Model {
  // What is stored: session and the last activity.
  stored: Option<(u32, OffsetDateTime)>,
  // In memory, once it was needed.
  mem: Option<Mem>,
  sessions: u32,
  told: u32,
}
#[derive(Clone, Debug, Hash)]
struct Mem {
  session: u32,
  previous: Option<u32>,
  last: OffsetDateTime,
  written: Option<OffsetDateTime>,
}

impl Model {
  fn fresh(&mut self) -> u32 {
    self.sessions += 1;
    self.sessions
  }
  fn read(&mut self, now: OffsetDateTime, threshold: Duration) -> u32 {
    let mut m = match self.mem.clone() {
      Some(m) => m,
      None => match self.stored {
        Some((session, last)) => Mem { session, previous: Some(session), last, written: None },
        None => {
          self.told += 1;
          Mem { session: self.fresh(), previous: None, last: now, written: None }
        },
      },
    };
    let expired = now < m.last || now - m.last > threshold;
    let due = m.written.map_or(true, |w| now - w > 15.seconds());
    m.last = now;
    if expired {
      m.session = self.fresh();
      self.told += 1;
    }
    if expired || due {
      m.written = Some(now);
      self.stored = Some((m.session, now));
    }
    let s = m.session;
    self.mem = Some(m);
    s
  }
  fn start(&mut self, now: OffsetDateTime) -> u32 {
    let previous = self.previous();
    let session = self.fresh();
    self.stored = Some((session, now));
    self.mem = Some(Mem { session, previous, last: now, written: Some(now) });
    session
  }
  fn previous(&self) -> Option<u32> {
    self.mem.as_ref().map_or(self.stored.map(|s| s.0), |m| m.previous)
  }
  fn flush(&mut self) {
    if let Some(m) = &self.mem {
      self.stored = Some((m.session, m.last));
    }
  }
}

/// The ids seen, by the number of the session in the model.
#[derive(Default)]
struct Names(std::collections::BTreeMap<u32, String>);
impl Names {
  fn is(&mut self, n: u32, id: &str) -> bool {
    match self.0.get(&n) {
      Some(x) => x == id,
      None => {
        let new = !self.0.values().any(|x| x == id);
        self.0.insert(n, id.to_string());
        new
      },
    }
  }
}

const THRESHOLD: i64 = 60;

fn steps() -> Vec<Duration> {
  let ns = Duration::nanoseconds(1);
  vec![
    Duration::ZERO,
    500.milliseconds(),
    15.seconds(),
    15.seconds() + ns,
    THRESHOLD.seconds(),
    THRESHOLD.seconds() + ns,
    -ns,
    40.seconds(),
  ]
}

pub fn c06(r: &mut Run) {
  let depth = r.by_tier(6, 9);
  r.explore(
    "sequences",
    &format!("every sequence of {depth} operations (read, start, previous, flush, restart), the clock moving before each by one of 8 steps around the write interval and the inactivity threshold, backwards too"),
    Opts::default(),
    |ctx| sequences(ctx, depth, THRESHOLD.seconds()),
  );
  let depth = r.by_tier(3, 4);
  r.explore(
    "sequences-full",
    &format!("every sequence of {depth} of these, whatever states they reach"),
    Opts::default().full(),
    |ctx| sequences(ctx, depth, THRESHOLD.seconds()),
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "odd-thresholds",
    &format!("as above, {depth} operations, with a threshold of zero or less than the write interval"),
    Opts::default(),
    |ctx| {
      let t = *ctx.pick(&[Duration::ZERO, 10.seconds()]);
      sequences(ctx, depth, t)
    },
  );
}

fn sequences(ctx: &Ctx, depth: u32, threshold: Duration) -> Res {
  let w = World::new(threshold, false);
  let mut s = w.start();
  let mut m = Model { stored: None, mem: None, sessions: 0, told: 0 };
  let mut names = Names::default();
  let steps = steps();
  for left in (0 .. depth).rev() {
    let d = *ctx.pick(&steps);
    *w.clock.0.lock().unwrap() += d;
    let now = w.now();
    ctx.step();
    let op = ctx.choose(5);
    match op {
      0 => {
        let told = m.told;
        let want = m.read(now, threshold);
        let id = s.session_id();
        ctx.say(|| format!("after {d}: read {id}"));
        check!(names.is(want, &id), "session", "after {d}, the session is {id}, expected session {want} of {:?}", names.0);
        if m.told > told {
          same!("told", w.told.lock().unwrap().last(), Some(&id), "the session the callback was told of");
        }
      },
      1 => {
        let want = m.start(now);
        s.start_new_session();
        ctx.say(|| format!("after {d}: start"));
        let _ = want;
      },
      2 => {
        let want = m.previous();
        let got = s.previous_process_session_id();
        ctx.say(|| format!("after {d}: previous {got:?}"));
        match (want, &got) {
          (None, None) => {},
          (Some(n), Some(g)) if names.is(n, g) => {},
          _ => mc::fail!("previous", "the previous session is {got:?}, expected session {want:?} of {:?}", names.0),
        }
      },
      3 => {
        m.flush();
        s.flush();
        ctx.say(|| format!("after {d}: flush"));
      },
      _ => {
        m.mem = None;
        s = w.start();
        ctx.say(|| format!("after {d}: restart"));
      },
    }
    same!("told", w.told.lock().unwrap().len() as u32, m.told, "callbacks of changed sessions");
    same!("stored", w.disk.raw(KEY).is_some(), m.stored.is_some(), "whether a session is stored");
    // Names do not matter to what follows, nor does the origin of time.
    let rel = |t: OffsetDateTime| (now - t).whole_nanoseconds() as i64;
    let key = (
      m.stored.map(|(n, t)| (m.sessions - n, rel(t))),
      m.mem.as_ref().map(|x| (m.sessions - x.session, x.previous.map(|p| m.sessions - p), rel(x.last), x.written.map(rel))),
      names.0.contains_key(&m.sessions),
    );
    if ctx.known(key, left) {
      break;
    }
  }
  // What is stored is what the model says: the next process goes on from it.
  let writes = w.disk.writes(KEY);
  let t = w.start();
  match (m.stored, t.previous_process_session_id()) {
    (None, None) => {},
    (Some((n, _)), Some(id)) if names.is(n, &id) => {},
    (want, got) => mc::fail!("stored-session", "the stored session is {got:?}, expected session {want:?} of {:?}", names.0),
  }
  same!("write", w.disk.writes(KEY), writes, "writes by asking for the previous session");
  m.mem = None;
  // The stored activity decides, to the nanosecond, when it expires.
  if let Some((n, last)) = m.stored {
    let late = ctx.flip();
    *w.clock.0.lock().unwrap() = last + threshold + Duration::nanoseconds(i64::from(late));
    let id = t.session_id();
    let want = m.read(w.now(), threshold);
    check!(names.is(want, &id), "expiry", "a next process {} the threshold after the stored activity has {id}, session {n} was stored: {:?}", if late { "just past" } else { "exactly" }, names.0);
  }
  Ok(())
}

pub fn c07(r: &mut Run) {
  let programs: &[&[&[u8]]] = &[
    &[b"rr", b"rr"],
    &[b"r", b"s"],
    &[b"rf", b"sr"],
    &[b"rp", b"sp"],
    &[b"r", b"r", b"s"],
    &[b"rf", b"rf"],
  ];
  let more: &[&[&[u8]]] = &[&[b"rsr", b"rf"], &[b"rf", b"sf", b"rp"], &[b"rr", b"rr", b"ss"]];
  let mut all = programs.to_vec();
  if r.thorough() {
    all.extend(more);
  }
  r.explore(
    "concurrent",
    &format!("{} programs of 2 or 3 threads (read, start, previous, flush), starting new, from a stored session, or from an expired one; every interleaving of lock, clock, callback and storage operations", all.len()),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| concurrent(ctx, *ctx.pick(&all)),
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "crash",
    &format!("{depth} operations with the process dying before any storage call, then a next process"),
    Opts::default(),
    |ctx| crash(ctx, depth),
  );
}

#[derive(Clone, Debug)]
enum Op {
  Read(String),
  Start,
  Previous(Option<String>),
  Flush,
}

fn concurrent(ctx: &Ctx, program: &[&[u8]]) -> Res {
  let program: Vec<Vec<u8>> = program.iter().map(|t| t.to_vec()).collect();
  let before = ctx.choose(3);
  let c = ctx.clone();
  ctx.under(move || {
    let w = World::new(THRESHOLD.seconds(), true);
    let mut old = None;
    if before > 0 {
      old = Some(w.start().session_id());
      *w.clock.0.lock().unwrap() += if before == 1 { 1.seconds() } else { (THRESHOLD + 1).seconds() };
      w.told.lock().unwrap().clear();
    }
    let s = w.start();
    let h = mc::lin::History::new();
    let ts: Vec<_> = program
      .into_iter()
      .enumerate()
      .map(|(i, ops)| {
        let (s, h) = (s.clone(), h.clone());
        th::named(&format!("t{i}"), move || {
          for o in ops {
            h.op(i, || match o {
              b'r' => Op::Read(s.session_id()),
              b's' => {
                s.start_new_session();
                Op::Start
              },
              b'f' => {
                s.flush();
                Op::Flush
              },
              _ => Op::Previous(s.previous_process_session_id()),
            });
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let end = s.session_id();
    let told = w.told.lock().unwrap().clone();
    let events = h.events();
    c.say(|| format!("{events:?}; told {told:?}; in the end {end}; before {old:?}"));
    // The state: current session (Err: started, name not seen yet), sessions that came and went, how
    // many changes were told.
    #[derive(Clone)]
    struct S {
      cur: Option<Option<String>>,
      gone: Vec<String>,
      told: usize,
    }
    let read = |st: &mut S, id: &String| match &st.cur {
      Some(Some(x)) => x == id,
      Some(None) => {
        // Started before, seen now for the first time.
        let new = !st.gone.contains(id) && !told.contains(id);
        st.cur = Some(Some(id.clone()));
        new
      },
      None => {
        if before == 1 {
          st.cur = Some(old.clone());
          return old.as_ref() == Some(id);
        }
        // A new session, which is told of.
        let ok = told.get(st.told) == Some(id) && old.as_ref() != Some(id) && !st.gone.contains(id);
        st.told += 1;
        st.cur = Some(Some(id.clone()));
        ok
      },
    };
    let ok = mc::lin::linearizable(
      &S { cur: None, gone: old.iter().filter(|_| before == 2).cloned().collect(), told: 0 },
      &events,
      &|st: &mut S, op: &Op| match op {
        Op::Read(id) => read(st, id),
        Op::Start => {
          if let Some(Some(x)) = st.cur.take() {
            st.gone.push(x);
          }
          st.cur = Some(None);
          true
        },
        Op::Previous(p) => *p == old || (st.cur.is_none() && *p == old),
        Op::Flush => true,
      },
      &|st| {
        let mut st = st.clone();
        read(&mut st, &end) && st.told == told.len()
      },
    );
    check!(ok, "linearizable", "no order of these explains what was returned: {events:?}; told {told:?}; in the end {end}; before {old:?}");
    let quiet = Disk { points: false, ..w.disk.clone() };
    let next = World { disk: quiet, ..w }.start().previous_process_session_id();
    same!("persisted", next, Some(end), "the stored session, once all is quiet");
    c.state((events.len(), told.len()));
    Ok::<(), Violation>(())
  })
}

/// What is stored is at any moment a session that was current, and the last one but for the operation
/// in which the process died.
fn crash(ctx: &Ctx, depth: usize) -> Res {
  let w = World::new(THRESHOLD.seconds(), false);
  let first = ctx.flip().then(|| w.start().session_id());
  let die = ctx.choose(depth + 2) as u32;
  {
    let mut c = w.disk.c.lock().unwrap();
    c.dead_from = Some(c.ops + die);
  }
  let dead = || {
    let c = w.disk.c.lock().unwrap();
    c.dead_from.is_some_and(|d| c.ops > d)
  };
  let s = w.start();
  let mut cur = first.clone();
  for _ in 0 .. depth {
    let d = *ctx.pick(&[Duration::ZERO, 16.seconds(), (THRESHOLD + 1).seconds()]);
    *w.clock.0.lock().unwrap() += d;
    let was = cur.clone();
    match ctx.choose(3) {
      0 => cur = Some(s.session_id()),
      1 => {
        s.start_new_session();
        let dead_before = dead();
        if !dead_before {
          // Its id shows with the next read, at the same moment.
          cur = Some(s.session_id());
        } else {
          cur = None;
        }
      },
      _ => s.flush(),
    }
    ctx.step();
    let quiet = Disk::new();
    quiet.c.lock().unwrap().map = w.disk.c.lock().unwrap().map.clone();
    let now = World { disk: quiet, clock: w.clock.clone(), told: Arc::default(), threshold: w.threshold };
    let kept = now.start().previous_process_session_id();
    if dead() {
      check!(kept == was || cur.is_none() || kept == cur, "crash", "died in an operation from session {was:?} to {cur:?}, and {kept:?} is stored");
      // A next process is well: one session, which lasts.
      let (a, b) = { let p = now.start(); (p.session_id(), p.session_id()) };
      same!("crash-next", a, b, "session of a next process");
      ctx.state((was.is_some(), cur.is_some(), kept.is_some()));
      return Ok(());
    }
    same!("stored", kept, cur, "the stored session");
    ctx.state((cur.is_some(), kept.is_some()));
  }
  Ok(())
}
