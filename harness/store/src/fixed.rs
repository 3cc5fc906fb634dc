//! C03 to C05: sessions that last for a process.

use crate::disk::{Disk, Faults};
use bd_session::{fixed, Strategy};
use mc::lin::{linearizable, History};
use mc::{check, same, th, Ctx, Opts, Res, Run, Violation};
use std::sync::{Arc, Mutex, OnceLock};

const KEY: &str = "session_strategy.fixed.state.1";

/// What the callback of one session does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cb {
  Plain,
  Fails,
  Reads,
  Yields,
  /// Returns this.
  Returns(&'static str),
  /// Calls from within, `ops` of them (bit i of `starts`: the i-th is a start), then fails or not.
  Script { ops: u8, starts: u8, fails: bool },
}
impl Cb {
  fn fails(self) -> bool {
    matches!(self, Cb::Fails | Cb::Script { fails: true, .. })
  }
  fn reads(self) -> usize {
    match self {
      Cb::Script { ops, starts, .. } => (0 .. ops).filter(|i| starts >> i & 1 == 0).count(),
      Cb::Reads => 1,
      _ => 0,
    }
  }
}

struct Callbacks {
  next: Arc<Mutex<u32>>,
  made: Arc<Mutex<Vec<String>>>,
  behave: Box<dyn Fn(u32) -> Cb + Send + Sync>,
  strategy: OnceLock<std::sync::Weak<Strategy>>,
  inside: Mutex<Vec<String>>,
}

impl fixed::Callbacks for Callbacks {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let n = {
      let mut n = self.next.lock().unwrap();
      *n += 1;
      *n
    };
    let how = (self.behave)(n);
    let me = self.strategy.get().and_then(std::sync::Weak::upgrade);
    match how {
      Cb::Reads => {
        let id = me.unwrap().session_id();
        self.inside.lock().unwrap().push(id);
      },
      Cb::Script { ops, starts, .. } => {
        let me = me.unwrap();
        for i in 0 .. ops {
          th::point();
          if starts >> i & 1 == 1 {
            me.start_new_session();
          } else {
            let id = me.session_id();
            self.inside.lock().unwrap().push(id);
          }
        }
        th::point();
      },
      Cb::Yields => th::point(),
      _ => {},
    }
    if how.fails() {
      anyhow::bail!("no id");
    }
    let id = match how {
      Cb::Returns(id) => id.to_owned(),
      _ => format!("s{n}"),
    };
    self.made.lock().unwrap().push(id.clone());
    Ok(id)
  }
}

struct Process {
  s: Arc<Strategy>,
  cb: Arc<Callbacks>,
}

fn process(disk: &Disk, next: &Arc<Mutex<u32>>, behave: impl Fn(u32) -> Cb + Send + Sync + 'static) -> Process {
  let cb = Arc::new(Callbacks {
    next: next.clone(),
    made: Arc::default(),
    behave: Box::new(behave),
    strategy: OnceLock::new(),
    inside: Mutex::default(),
  });
  let s = Arc::new(Strategy::Fixed(fixed::Strategy::new(disk.store(), cb.clone())));
  let _ = cb.strategy.set(Arc::downgrade(&s));
  Process { s, cb }
}

/// The id that is stored for the next process.
fn stored(disk: &Disk) -> Option<String> {
  let clean = Disk { ctx: None, points: false, ..disk.clone() };
  let next = Arc::new(Mutex::new(0));
  process(&clean, &next, |_| Cb::Plain).s.previous_process_session_id()
}

#[derive(Clone, Debug)]
enum Op {
  Read(String),
  Start,
  Previous(Option<String>),
}

pub fn c03(r: &mut Run) {
  r.assume("session ids that callbacks make are all different");
  let programs: &[&[&[u8]]] = &[
    &[b"rr", b"rr"],
    &[b"rr", b"sr"],
    &[b"sr", b"sr"],
    &[b"rp", b"sr"],
    &[b"ps", b"rp"],
    &[b"r", b"s", b"r"],
    &[b"s", b"s", b"r"],
  ];
  let more: &[&[&[u8]]] = &[&[b"rsr", b"rsr"], &[b"rs", b"sr", b"rr"], &[b"prs", b"srp"], &[b"s", b"s", b"s"]];
  let mut all = programs.to_vec();
  if r.thorough() {
    all.extend(more);
  }
  r.explore(
    "concurrent",
    &format!("{} programs of 2 or 3 threads that read the current session, start a new one or ask for the previous, with a session stored before or none; every interleaving of lock, callback and storage operations", all.len()),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| concurrent(ctx, *ctx.pick(&all), false),
  );
  r.explore(
    "concurrent-reentrant",
    "2 threads; the callback of one session reads the current session from within",
    Opts::dev(r.by_tier(3, 4)),
    |ctx| concurrent(ctx, *ctx.pick(&all[.. 4]), true),
  );
  let depth = r.by_tier(5, 7);
  r.explore(
    "sequences",
    &format!("every sequence of {depth} reads, starts and questions for the previous session in one process"),
    Opts::default(),
    |ctx| {
      let disk = Disk::new();
      if ctx.flip() {
        drop(first_session(&disk));
      }
      let before = stored(&disk);
      let next = Arc::new(Mutex::new(10));
      let p = process(&disk, &next, |_| Cb::Plain);
      let mut cur: Option<String> = None;
      for _ in 0 .. depth {
        ctx.step();
        match ctx.choose(3) {
          0 => {
            let id = p.s.session_id();
            if let Some(c) = &cur {
              same!("current", &id, c, "current session");
            } else {
              check!(p.cb.made.lock().unwrap().last() == Some(&id), "made", "{id} is not what the callback made");
              check!(before.as_ref() != Some(&id), "new", "a new process has the session of the one before");
            }
            cur = Some(id);
          },
          1 => {
            p.s.start_new_session();
            let made = p.cb.made.lock().unwrap().last().cloned();
            check!(made.is_some() && made != cur, "start", "no new session was made");
            cur = made;
          },
          _ => same!("previous", p.s.previous_process_session_id(), before, "previous session"),
        }
        same!("persisted", stored(&disk), cur.clone().or_else(|| before.clone()), "stored session");
        ctx.state((&cur, &before));
      }
      Ok(())
    },
  );
}

fn first_session(disk: &Disk) -> String {
  let next = Arc::new(Mutex::new(0));
  process(&Disk { points: false, ctx: None, ..disk.clone() }, &next, |_| Cb::Plain).s.session_id()
}

fn concurrent(ctx: &Ctx, program: &[&[u8]], reentrant: bool) -> Res {
  let program: Vec<Vec<u8>> = program.iter().map(|t| t.to_vec()).collect();
  let had = ctx.flip();
  let c = ctx.clone();
  ctx.under(move || {
    let disk = Disk::with_points();
    let before = had.then(|| first_session(&disk));
    let next = Arc::new(Mutex::new(10));
    let p = process(&disk, &next, move |n| if reentrant && n == 11 { Cb::Reads } else { Cb::Yields });
    let h: History<Op> = History::new();
    let ts: Vec<_> = program
      .into_iter()
      .enumerate()
      .map(|(i, ops)| {
        let (s, h) = (p.s.clone(), h.clone());
        th::named(&format!("t{i}"), move || {
          for o in ops {
            h.op(i, || match o {
              b'r' => Op::Read(s.session_id()),
              b's' => {
                s.start_new_session();
                Op::Start
              },
              _ => Op::Previous(s.previous_process_session_id()),
            });
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let end = p.s.session_id();
    let events = h.events();
    let made = p.cb.made.lock().unwrap().clone();
    let inside = p.cb.inside.lock().unwrap().clone();
    c.say(|| format!("{events:?}; made {made:?}; inside {inside:?}; in the end {end}"));
    for id in &inside {
      check!(!made.contains(id), "inside", "a read from within the callback returned {id}");
    }
    // A state: how many of the sessions made have begun.
    let ok = linearizable(
      &0usize,
      &events,
      &|n: &mut usize, op: &Op| match op {
        Op::Read(id) => {
          if *n == 0 {
            *n = 1;
          }
          made.get(*n - 1) == Some(id)
        },
        Op::Start => {
          *n += 1;
          *n <= made.len()
        },
        Op::Previous(p) => *p == before,
      },
      &|n| (*n == made.len() || *n == 0) && made.last() == Some(&end),
    );
    check!(ok, "linearizable", "no order of these explains what was returned: {events:?}; sessions made: {made:?}, in the end {end}, before {before:?}");
    same!("persisted", stored(&disk), Some(end), "the stored session, once all is quiet");
    c.state((made.len(), events.len()));
    Ok::<(), Violation>(())
  })
}

pub fn c04(r: &mut Run) {
  let (processes, depth) = r.by_tier((4, 4), (6, 6));
  r.explore(
    "restarts",
    &format!("{processes} processes of up to {depth} operations (read, start, previous); a process may die before any storage call, and a storage write may fail"),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| restarts(ctx, processes, depth),
  );
  let (processes, depth) = r.by_tier((3, 2), (4, 3));
  r.explore(
    "restarts-full",
    &format!("{processes} processes of up to {depth} operations of these, whatever is stored in between"),
    Opts::dev(r.by_tier(2, 3)).full(),
    |ctx| restarts(ctx, processes, depth),
  );
}

fn restarts(ctx: &Ctx, processes: usize, depth: usize) -> Res {
  let disk = Disk::faulty(ctx, Faults { write: true, ..Faults::default() });
  let next = Arc::new(Mutex::new(0));
  for left in (0 .. processes).rev() {
    let before = stored(&disk);
    // All that one process leaves to the next is whether a session is stored.
    if ctx.known(before.is_some(), left as u32) {
      return Ok(());
    }
    let dies = ctx.deviate(5);
    {
      let mut c = disk.c.lock().unwrap();
      c.dead_from = (dies > 0).then(|| c.ops + dies as u32 - 1);
    }
    let dead = || {
      let c = disk.c.lock().unwrap();
      c.dead_from.is_some_and(|d| c.ops > d)
    };
    let p = process(&disk, &next, |_| Cb::Plain);
    let mut cur: Option<String> = None;
    // What the storage may hold: the last id whose write did not fail, or those whose write did.
    let mut may = vec![before.clone()];
    for _ in 0 .. depth {
      let op = ctx.choose(4);
      if op == 3 || dead() {
        break;
      }
      ctx.step();
      let (faults, writes) = (disk.faults_on(KEY), disk.writes(KEY));
      let was = cur.clone();
      match op {
        0 => {
          let id = p.s.session_id();
          if dead() {
            break;
          }
          if let Some(c) = &cur {
            same!("current", &id, c, "current session");
          }
          cur = Some(id);
        },
        1 => {
          p.s.start_new_session();
          if dead() {
            break;
          }
          cur = p.cb.made.lock().unwrap().last().cloned();
          check!(cur != was, "start", "no new session was made");
        },
        _ => {
          let prev = p.s.previous_process_session_id();
          if dead() {
            break;
          }
          same!("previous", prev, before, "previous session");
        },
      }
      if cur != was {
        if disk.faults_on(KEY) == faults {
          may = vec![cur.clone()];
        } else {
          may.push(cur.clone());
        }
      }
      let _ = writes;
      ctx.say(|| format!("op {op}: current {cur:?}"));
    }
    if dies > 0 {
      // It died in an operation: what was made last may be there as well.
      may.push(p.cb.made.lock().unwrap().last().cloned().or_else(|| before.clone()));
    }
    disk.c.lock().unwrap().dead_from = None;
    let after = stored(&disk);
    ctx.say(|| format!("process ends; stored {after:?}"));
    check!(may.contains(&after), "persisted", "the session stored for the next process is {after:?}, expected one of {may:?}");
    ctx.state((&before, &after, &cur));
  }
  Ok(())
}

pub fn c05(r: &mut Run) {
  let (depth, inner) = r.by_tier((3, 3), (4, 3));
  r.explore(
    "callbacks",
    &format!("every sequence of {depth} reads and starts, where each callback makes up to {inner} reads or starts from within and then succeeds or fails"),
    Opts::default(),
    |ctx| callbacks(ctx, depth, inner),
  );
  r.explore(
    "odd-ids",
    "2 processes of 2 reads or starts each, where callbacks return one of 5 ids: empty, blank, short, long, or with odd characters",
    Opts::default().full(),
    odd_ids,
  );
  r.explore(
    "concurrent",
    "2 threads that read or start sessions twice each, where the callbacks of one call back from within and fail or not: every interleaving",
    Opts::dev(r.by_tier(2, 4)),
    meanwhile,
  );
}

/// Callbacks that return what nobody expects of an id, as it is.
fn odd_ids(ctx: &Ctx) -> Res {
  const IDS: [&str; 5] = ["", " ", "a", "ä\u{0}\n\"\u{1f600}", "an id that is longer than what a uuid takes, by some characters"];
  let c = ctx.clone();
  ctx.under(move || {
    let disk = Disk::new();
    let next = Arc::new(Mutex::new(0));
    let mut before: Option<String> = None;
    for _ in 0 .. 2 {
      let how: Arc<Mutex<Cb>> = Arc::new(Mutex::new(Cb::Plain));
      let h = how.clone();
      let p = process(&disk, &next, move |_| *h.lock().unwrap());
      let mut cur: Option<String> = None;
      for _ in 0 .. 2 {
        c.step();
        let id = *c.pick(&IDS);
        *how.lock().unwrap() = Cb::Returns(id);
        let calls = *next.lock().unwrap();
        let start = c.flip();
        let makes = start || cur.is_none();
        if start {
          p.s.start_new_session();
        }
        let got = p.s.session_id();
        if makes {
          cur = Some(id.to_owned());
        }
        c.say(|| format!("{} with a callback that returns {id:?}: {got:?}", if start { "start" } else { "read" }));
        same!("odd", Some(&got), cur.as_ref(), "the session");
        same!("odd", p.s.session_id(), got, "the session, once more");
        same!("calls", *next.lock().unwrap() - calls, u32::from(makes), "callbacks made");
        same!("previous", p.s.previous_process_session_id(), before, "previous session");
        same!("persisted", stored(&disk), cur.clone(), "stored session");
        c.state((&cur, &before));
      }
      before = cur;
    }
    Ok(())
  })
}

fn script(c: &Ctx, inner: usize) -> Cb {
  let ops = c.choose(inner + 1) as u8;
  Cb::Script { ops, starts: if ops > 0 { c.choose(1 << ops) as u8 } else { 0 }, fails: c.flip() }
}

fn meanwhile(ctx: &Ctx) -> Res {
  let c = ctx.clone();
  ctx.under(move || {
    let disk = Disk::with_points();
    let next = Arc::new(Mutex::new(0));
    let k = script(&c, 2);
    let p = process(&disk, &next, move |n| if n == 1 { k } else { Cb::Yields });
    // Every id that an operation outside of callbacks returned or left, in the order they ended.
    let out: Arc<Mutex<Vec<String>>> = Arc::default();
    let ops: Vec<bool> = (0 .. 3).map(|_| c.flip()).collect();
    c.step();
    let ts: Vec<_> = [ops[.. 1].to_vec(), ops[1 ..].to_vec()]
      .into_iter()
      .map(|ops| {
        let (s, out) = (p.s.clone(), out.clone());
        th::spawn(move || {
          for start in ops {
            if start {
              s.start_new_session();
            } else {
              let id = s.session_id();
              out.lock().unwrap().push(id);
            }
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let end = p.s.session_id();
    same!("persisted", stored(&disk), Some(end.clone()), "the stored session, once all is quiet");
    let (made, inside, out) = (p.cb.made.lock().unwrap().clone(), p.cb.inside.lock().unwrap().clone(), out.lock().unwrap().clone());
    same!("inside", inside.len(), k.reads(), "reads from within the callback");
    check!(!inside.contains(&end), "inside", "an id made up within a callback is the session");
    let mut others: Vec<_> = vec![];
    for id in out.iter().chain([&end]) {
      check!(!inside.contains(id), "inside", "a thread outside got {id}, made up within a callback");
      if !made.contains(id) && !others.contains(id) {
        others.push(id.clone());
      }
    }
    check!(others.len() <= usize::from(k.fails()), "made-up", "sessions that no callback made: {others:?}");
    let calls = *next.lock().unwrap();
    let starts = ops.iter().filter(|s| **s).count() as u32;
    check!(calls == starts || calls == starts + 1, "calls", "{calls} callbacks for {starts} starts");
    c.state((ops, calls, out.len(), k.fails()));
    Ok::<(), Violation>(())
  })
}

fn callbacks(ctx: &Ctx, depth: usize, inner: usize) -> Res {
  let c = ctx.clone();
  ctx.under(move || {
    let disk = Disk::new();
    let before = c.flip().then(|| first_session(&disk));
    let next = Arc::new(Mutex::new(10));
    let how: Arc<Mutex<Cb>> = Arc::new(Mutex::new(Cb::Plain));
    let h = how.clone();
    let p = process(&disk, &next, move |_| *h.lock().unwrap());
    let mut cur: Option<String> = None;
    let mut seen: Vec<String> = before.iter().cloned().collect();
    for _ in 0 .. depth {
      let op = c.choose(2);
      // Only an operation that makes a session calls back.
      let makes = op == 1 || cur.is_none();
      let k = if makes { script(&c, inner) } else { Cb::Plain };
      *how.lock().unwrap() = k;
      let (calls, inside) = (*next.lock().unwrap(), p.cb.inside.lock().unwrap().len());
      if op == 0 {
        let id = p.s.session_id();
        if let Some(x) = &cur {
          same!("current", &id, x, "current session");
        }
        cur = Some(id);
      } else {
        p.s.start_new_session();
        let id = p.s.session_id();
        check!(Some(&id) != cur.as_ref(), "start", "the session did not change");
        cur = Some(id);
      }
      let id = cur.clone().unwrap();
      c.step();
      c.say(|| format!("op {op} with a callback that {k:?}: {id}"));
      check!(!id.is_empty(), "empty", "an empty session id");
      same!("calls", *next.lock().unwrap() - calls, u32::from(makes), "callbacks made");
      if makes {
        if k.fails() {
          check!(!seen.contains(&id), "fallback", "a failing callback led to the old id {id}");
        } else {
          same!("made", Some(&id), p.cb.made.lock().unwrap().last(), "what the callback returned is the session");
        }
        seen.push(id.clone());
      }
      let ins = p.cb.inside.lock().unwrap().clone();
      same!("inside", ins.len() - inside, k.reads(), "reads from within the callback");
      for i in &ins[inside ..] {
        check!(!i.is_empty(), "inside", "a read from within the callback returned nothing");
        check!(*i != id && !seen.contains(i), "inside", "a read from within the callback returned {i}, a session");
      }
      same!("persisted", stored(&disk), Some(id), "stored session");
      same!("previous", p.s.previous_process_session_id(), before, "previous session");
      c.state((op, format!("{k:?}"), seen.len()));
    }
    Ok(())
  })
}
