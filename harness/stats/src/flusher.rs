//! C33: stats are aggregated and uploaded once. C34: also when the disk fails or the process ends.

use crate::disk::{add, decode, Disk, Fault, Flight, Process, Sum, Val};
use bd_client_stats_store::Counter;
use bd_time::TestTimeProvider;
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use time::OffsetDateTime;

const WINDOW: i64 = 10;

#[derive(Clone, Debug, Hash)]
struct File {
  id: u32,
  sum: Sum,
  start: i64,
  end: Option<i64>,
}

#[derive(Clone, Debug, Hash, Default)]
struct Model {
  mem: Sum,
  files: VecDeque<File>,
  flight: Option<u32>,
  now: i64,
  next: u32,
  /// Values of the histogram are all different.
  value: u64,
}

impl Model {
  fn flush(&mut self, max: usize) {
    let delta = std::mem::take(&mut self.mem);
    if !delta.is_empty() {
      let old = self.files.back_mut().is_none_or_old(self.now);
      if old {
        if self.files.len() >= max {
          self.files.pop_front();
        }
        self.files.push_back(File { id: self.next, sum: Sum::new(), start: self.now, end: None });
        self.next += 1;
      }
      let to = &mut self.files.back_mut().unwrap().sum;
      for (k, v) in &delta {
        add(to, k, v);
      }
    }
    add(&mut self.mem, "stats:flush_time", &Val::Values(vec![0]));
  }

  fn upload(&mut self, only_old: bool) {
    let now = self.now;
    if let Some(f) = self.files.front_mut() {
      if only_old && f.start + WINDOW > now {
        return;
      }
      f.end.get_or_insert(now);
      self.flight = Some(f.id);
    }
  }

  fn answered(&mut self, ok: bool) {
    let id = self.flight.take();
    if ok {
      if self.files.front().map(|f| f.id) == id {
        self.files.pop_front();
      }
      self.upload(true);
    }
  }
}

trait Old {
  fn is_none_or_old(self, now: i64) -> bool;
}
impl Old for Option<&mut File> {
  fn is_none_or_old(self, now: i64) -> bool {
    let Some(f) = self else { return true };
    if f.end.is_none() && f.start + WINDOW <= now {
      f.end = Some(now);
    }
    f.end.is_some()
  }
}

struct World {
  p: Process,
  m: Model,
  held: Counter,
  flight: Option<Flight>,
  uuids: BTreeMap<u32, String>,
}

fn start() -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp(1000).unwrap()
}

async fn histories(ctx: &Ctx, depth: u32, max: u32, prune: bool) -> Res {
  let flags = [("stats.max_aggregated_files", max), ("stats.max_aggregation_window_per_file_ms", WINDOW as u32 * 1000)];
  let disk = Disk::new(ctx, false);
  let time = TestTimeProvider::new(start());
  let p = Process::new(Box::new(disk.clone()), &time, &flags);
  let held = p.collector.scope("s").counter("held");
  let mut w = World { p, m: Model { now: 1000, ..Model::default() }, held, flight: None, uuids: BTreeMap::new() };
  let ticks = ctx.flip();
  for left in (1 ..= depth).rev() {
    if prune && ctx.known(&(&w.m, ticks), left) {
      return Ok(());
    }
    ctx.state(&w.m);
    ctx.step();
    let mut ops = vec!["held", "tagged", "values", "flush", "upload", "half", "window", "restart"];
    if w.flight.is_some() {
      ops.extend(["ok", "no", "gone"]);
    }
    let op = *ctx.pick(&ops);
    ctx.say(|| op.to_string());
    match op {
      "held" => {
        w.held.inc();
        add(&mut w.m.mem, "s:held", &Val::Count(1));
      },
      "tagged" => {
        w.p.dynamic.record_dynamic_counter("d", [("k".to_string(), "v".to_string())].into(), 2);
        add(&mut w.m.mem, "d{\"k\": \"v\"}", &Val::Count(2));
      },
      // More than what is kept as it is, when done thrice.
      "values" => {
        for _ in 0 .. 2 {
          w.m.value += 1;
          w.p.dynamic.record_dynamic_histogram("h", BTreeMap::new(), w.m.value as f64);
          add(&mut w.m.mem, "h", &Val::Values(vec![w.m.value]));
        }
      },
      "flush" => {
        if ticks {
          w.p.flush.try_send(()).unwrap();
        } else {
          let (tx, rx) = bd_completion::Sender::new();
          w.p.trigger.flush(Some(tx)).await.unwrap();
          mc::fut::settle().await;
          let mut rx = std::pin::pin!(rx.recv());
          let done = std::future::poll_fn(|cx| std::task::Poll::Ready(rx.as_mut().poll(cx).is_ready())).await;
          check!(done, "completion", "the flush does not say that it is done");
        }
        w.m.flush(max.max(1) as usize);
      },
      "upload" => {
        w.p.upload.try_send(()).unwrap();
        if w.m.flight.is_none() {
          w.m.upload(false);
        }
      },
      "half" | "window" => {
        let by = if op == "half" { WINDOW / 2 } else { WINDOW };
        w.m.now += by;
        time.advance(time::Duration::seconds(by));
      },
      "restart" => {
        w.flight = None;
        let old = std::mem::replace(&mut w.p, Process::new(Box::new(disk.clone()), &time, &flags));
        old.kill();
        w.held = w.p.collector.scope("s").counter("held");
        w.m.mem.clear();
        w.m.flight = None;
      },
      op => {
        let f = w.flight.take().unwrap();
        let ok = match op {
          "ok" => Some(true),
          "no" => Some(false),
          _ => None,
        };
        f.answer(ok);
        w.m.answered(op == "ok");
      },
    }
    w.p.settle().await?;
    if w.flight.is_none() {
      w.flight = Flight::take(&mut w.p)?;
    }
    check!(Flight::take(&mut w.p)?.is_none(), "uploads", "more than one upload at a time");
    match (&w.flight, w.m.flight) {
      (None, None) => {},
      (Some(f), None) => fail!("upload", "an upload of {:?} that is not due", f.sent),
      (None, Some(id)) => fail!("no upload", "no upload of file {id}, in {:?}", w.m.files),
      (Some(f), Some(id)) => {
        let known = w.uuids.entry(id).or_insert_with(|| f.uuid.clone()).clone();
        same!("uuid", &f.uuid, &known, "id under which file {id} is uploaded");
        check!(w.uuids.values().filter(|u| **u == f.uuid).count() == 1, "uuid", "two files have the same id");
        if let Some(want) = w.m.files.iter().find(|f| f.id == id) {
          same!("sum", f.sent.sum, want.sum, "stats that are uploaded");
          same!("period", (f.sent.start, Some(f.sent.end)), (want.start, want.end), "period of the upload");
        }
      },
    }
  }
  Ok(())
}

use std::future::Future;

pub fn in_tokio<T>(f: impl Future<Output = T>) -> T {
  mc::fut::runtime().block_on(f)
}

pub fn c33(r: &mut Run) {
  crate::disk::silent();
  let depth = r.by_tier(7, 9);
  let what = "steps of: a counter that is held, one that is looked up, a histogram, flush (by timer or on demand), upload, the server's ok, no and failure to answer, half a window passes, a whole one, restart; at most 0 (which is as 1), 1, 2 or 10 files";
  r.explore("histories", &format!("{depth} {what}"), Opts::default(), |ctx| {
    let max = [1, 2, 10, 0][ctx.choose(4)];
    in_tokio(histories(ctx, depth, max, true))
  });
  let depth = r.by_tier(4, 5);
  r.explore("histories-full", &format!("{depth} {what}"), Opts::default().full(), |ctx| {
    let max = [2, 1, 10, 0][ctx.choose(4)];
    in_tokio(histories(ctx, depth, max, false))
  });
}

//
// A disk that fails
//

/// What may be lost: what the disk failed to take or to give back.
#[derive(Default)]
struct Account {
  all: u64,
  lost: BTreeSet<u64>,
  /// By upload id.
  sent: BTreeMap<String, Vec<u64>>,
}

impl Account {
  fn unsent(&self) -> Vec<u64> {
    let sent: BTreeSet<u64> = self.sent.values().flatten().copied().collect();
    (1 ..= self.all).filter(|v| !sent.contains(v)).collect()
  }
}

fn observed(s: &Sum) -> Vec<u64> {
  match s.get("h") {
    Some(Val::Values(v)) => v.clone(),
    _ => vec![],
  }
}

fn is_index(p: &std::path::Path) -> bool {
  p.ends_with("pending_aggregation_index.pb")
}

async fn faults(ctx: &Ctx, depth: u32, max: u32) -> Res {
  let flags = [("stats.max_aggregated_files", max), ("stats.max_aggregation_window_per_file_ms", WINDOW as u32 * 1000)];
  let disk = Disk::new(ctx, true);
  let time = TestTimeProvider::new(start());
  let mut p = Process::new(Box::new(disk.clone()), &time, &flags);
  let mut a = Account::default();
  let mut flight: Option<Flight> = None;
  let mut seen = 0;
  let mut torn_index = false;
  // In the end, everything is to be uploaded.
  for n in 0 .. 3 * depth + 8 {
    ctx.step();
    let op = if n < depth {
      let mut ops = vec!["flush", "upload", "window", "restart"];
      if flight.is_some() {
        ops.extend(["ok", "no"]);
      }
      *ctx.pick(&ops)
    } else if n == depth {
      "flush"
    } else if flight.is_some() {
      "ok"
    } else {
      "upload"
    };
    ctx.say(|| op.to_string());
    let mut now = None;
    match op {
      "flush" => {
        a.all += 1;
        now = Some(a.all);
        p.dynamic.record_dynamic_histogram("h", BTreeMap::new(), a.all as f64);
        p.flush.try_send(()).unwrap();
      },
      "upload" => p.upload.try_send(()).unwrap(),
      "window" => time.advance(time::Duration::seconds(WINDOW)),
      "restart" => {},
      op => flight.take().unwrap().answer(Some(op == "ok")),
    }
    if op != "restart" {
      p.settle().await?;
    }
    let (struck, ended) = {
      let mut s = disk.s.lock().unwrap();
      let new = s.struck[seen ..].to_vec();
      seen = s.struck.len();
      (new, std::mem::take(&mut s.ended) || op == "restart")
    };
    for s in &struck {
      let torn = matches!(s.how, Fault::Torn | Fault::Amid);
      // What was to be written is lost, also when it could not be given a file.
      a.lost.extend(now);
      if is_index(&s.path) {
        torn_index |= torn;
        if s.what == "read" && s.how == Fault::Error {
          a.lost.extend(a.unsent());
        }
      } else if torn || (s.what == "read" && s.how == Fault::Error) {
        a.lost.extend(decode(&s.had).iter().flat_map(observed));
      }
    }
    if ended {
      flight = None;
      p.kill();
      p = Process::new(Box::new(disk.clone()), &time, &flags);
      if torn_index {
        // The list of files may be lost, and with it the files.
        a.lost.extend(a.unsent());
      }
    }
    if flight.is_none() {
      flight = Flight::take(&mut p)?;
      if let Some(f) = &flight {
        let v = observed(&f.sent.sum);
        if let Some(before) = a.sent.get(&f.uuid) {
          same!("changed", &v, before, "values that are uploaded under an id that was used before");
        }
        a.sent.insert(f.uuid.clone(), v);
      }
    }
    let mut once = BTreeSet::new();
    for v in a.sent.values().flatten() {
      check!(once.insert(*v), "twice", "observation {v} is uploaded under two ids, or twice: {:?}", a.sent);
    }
    let s = disk.s.lock().unwrap();
    let files: Vec<_> = s.files.iter().filter(|(p, _)| !is_index(p)).map(|(_, d)| decode(d)).collect();
    ctx.state((&files, a.sent.values().collect::<Vec<_>>(), &a.lost, flight.is_some(), time_of(&time)));
  }
  for v in a.unsent() {
    check!(a.lost.contains(&v), "lost", "observation {v} of {} is lost; uploaded are {:?}", a.all, a.sent.values());
  }
  Ok(())
}

fn time_of(t: &TestTimeProvider) -> i64 {
  use bd_time::TimeProvider;
  t.now().unix_timestamp()
}

pub fn c34(r: &mut Run) {
  crate::disk::silent();
  let what = "steps of: record and flush, upload, the server's ok and no, a window passes, restart";
  let how = "of the operations on the disk fail, or are cut off by the end of the process, before, amid or after them; then all is uploaded";
  let depth = r.by_tier(4, 6);
  r.explore("one fault", &format!("{depth} {what}; one {how}"), Opts::dev(1), |ctx| in_tokio(faults(ctx, depth, 10)));
  let depth = r.by_tier(2, 3);
  r.explore("two faults", &format!("{depth} {what}; two {how}"), Opts::dev(2), |ctx| in_tokio(faults(ctx, depth, 10)));
}
