//! C43: from the buffers to the server: continuous, triggered and streamed uploads.

use crate::upload::runtime;
use bd_api::upload::{TrackedLogBatch, UploadResponse};
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::RingBuffer as _;
use bd_buffer::{Manager, Producer};
use bd_client_common::fb::make_log;
use bd_client_stats_store::Collector;
use bd_log_primitives::LogType;
use bd_logger::verif::upload_manager;
use bd_proto::protos::config::v1::config::buffer_config::{BufferSizes, Type};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Scratch, Violation};
use std::collections::{BTreeMap, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};
use tokio::task::JoinHandle;
use tokio::time::Instant;

const LARGE: u32 = 1_000_000;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Flags {
  logs: u32,
  bytes: u32,
  deadline: u32,
  lookback: u32,
}
const FLAGS: [Flags; 4] = [
  Flags { logs: 2, bytes: LARGE, deadline: 1000, lookback: 0 },
  Flags { logs: 10, bytes: 45, deadline: 1000, lookback: 600_000 },
  Flags { logs: 10, bytes: 20, deadline: 300, lookback: 600_000 },
  Flags { logs: 1, bytes: LARGE, deadline: 1000, lookback: 0 },
];
fn update(f: Flags) -> bd_proto::protos::client::api::RuntimeUpdate {
  runtime(&[
    ("log_uploader.retry_count", 0),
    ("upload_ratelimit.bytes_count_per_period", 100_000_000),
    ("log_uploader.batch_size", f.logs),
    ("log_uploader.batch_size_bytes", f.bytes),
    ("log_uploader.batch_deadline_ms", f.deadline),
    ("workflows.flush_buffer_lookback_ms", f.lookback),
  ])
}

/// Continuous, trigger, and stream buffer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Config {
  c: bool,
  t: bool,
  s: bool,
}
const CONFIGS: [Config; 5] = [
  Config { c: true, t: true, s: false },
  Config { c: true, t: true, s: true },
  Config { c: true, t: false, s: false },
  Config { c: false, t: true, s: false },
  Config { c: false, t: false, s: false },
];
fn list(k: Config) -> BufferConfigList {
  let one = |id: &str, t: Type| BufferConfig {
    name: id.into(),
    id: id.into(),
    type_: t.into(),
    buffer_sizes: Some(BufferSizes { volatile_buffer_size_bytes: 4_000, non_volatile_buffer_size_bytes: 20_000, ..Default::default() }).into(),
    ..Default::default()
  };
  let mut all = vec![];
  if k.t {
    all.push(one("t", Type::TRIGGER));
  }
  if k.c {
    all.push(one("c", Type::CONTINUOUS));
  }
  BufferConfigList { buffer_config: all, ..Default::default() }
}

type Log = Vec<u8>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
  Short,
  Long,
  /// These two are logs, with a time.
  Fresh,
  Old,
}
fn log(id: u8, kind: Kind) -> Log {
  match kind {
    Kind::Short => vec![id; 10],
    Kind::Long => vec![id; 40],
    Kind::Fresh | Kind::Old => {
      let at = time::OffsetDateTime::now_utc() - if kind == Kind::Old { time::Duration::hours(1) } else { time::Duration::minutes(1) };
      let mut out = vec![];
      make_log(
        &mut flatbuffers::FlatBufferBuilder::new(),
        1,
        LogType::Normal,
        &format!("log {id}").into(),
        &[].into(),
        "session",
        at,
        std::iter::empty(),
        std::iter::empty(),
        |d| {
          out = d.to_vec();
          Ok(())
        },
      )
      .unwrap();
      out
    },
  }
}

type Item = (Log, Kind);
#[derive(Debug, Default)]
struct Pump {
  /// In the buffer and not read.
  left: VecDeque<Item>,
  batch: Vec<Item>,
  /// Sent, or about to be.
  flight: Option<Vec<Item>>,
  request: Option<TrackedLogBatch>,
  deadline: Option<Instant>,
}
impl Pump {
  fn full(&self, f: Flags) -> bool {
    !self.batch.is_empty() && (self.batch.len() >= f.logs as usize || self.batch.iter().map(|l| l.0.len()).sum::<usize>() >= f.bytes as usize)
  }
  fn key(&self) -> impl std::hash::Hash {
    let kinds = |v: &mut dyn Iterator<Item = &Item>| v.map(|i| i.1).collect::<Vec<_>>();
    (
      kinds(&mut self.left.iter()),
      kinds(&mut self.batch.iter()),
      self.flight.as_ref().map(|f| kinds(&mut f.iter())),
      self.deadline.map(|d| d.saturating_duration_since(Instant::now())),
    )
  }
}

struct Upload {
  lookback: bool,
  waiting: Vec<oneshot::Receiver<()>>,
}

#[derive(Default)]
struct Model {
  c: Option<Pump>,
  t: Option<(Pump, Option<Upload>)>,
  s: Option<Pump>,
  dropped: u64,
}

struct Process {
  loader: Arc<ConfigLoader>,
  manager: Arc<Manager>,
  task: JoinHandle<anyhow::Result<()>>,
  rx: mpsc::Receiver<DataUpload>,
  triggers: mpsc::Sender<TriggerUpload>,
  shutdown: ComponentShutdownTrigger,
  producers: BTreeMap<&'static str, Producer>,
  collector: Collector,
}

impl Process {
  fn new(dir: &Path, flags: Flags) -> Result<Self, Violation> {
    let loader = ConfigLoader::new(dir);
    loader.update_snapshot(&update(flags));
    let collector = Collector::default();
    let scope = collector.scope("");
    let (manager, events) = Manager::new(dir.to_path_buf(), &scope, &loader);
    let (tx, rx) = mpsc::channel(1);
    let (triggers, trigger_rx) = mpsc::channel(1);
    let shutdown = ComponentShutdownTrigger::default();
    let m = match upload_manager(tx, &loader, shutdown.make_shutdown(), events, trigger_rx, &scope) {
      Ok(m) => m,
      Err(e) => fail!("start", "{e}"),
    };
    let task = tokio::spawn(m.run());
    Ok(Self { loader, manager, task, rx, triggers, shutdown, producers: BTreeMap::new(), collector })
  }
}

/// They are there until the last task is gone.
type Dirs = Arc<Mutex<Vec<Scratch>>>;
fn scratch(dirs: &Dirs) -> PathBuf {
  let s = Scratch::new();
  let p = s.path().to_path_buf();
  dirs.lock().unwrap().push(s);
  p
}

struct Sys {
  p: Process,
  m: Model,
  k: Config,
  flags: Flags,
  dir: PathBuf,
  dirs: Dirs,
  next: u8,
}

impl Sys {
  async fn configure(&mut self, k: Config) -> Res {
    self.p.producers.retain(|id, _| match *id {
      "c" => k.c,
      "t" => k.t,
      _ => k.s,
    });
    let l = list(k);
    // What the server answers is not seen before the configuration is applied.
    match tokio::time::timeout(Duration::from_secs(60), self.p.manager.update_from_config(&l, k.s)).await {
      Err(_) => fail!("stuck", "the configuration {k:?} is not applied"),
      Ok(Err(e)) => fail!("config", "{e}"),
      Ok(Ok(_)) => (),
    }
    let buffers = self.p.manager.buffers();
    for id in ["c", "t"] {
      if let Some((_, b)) = buffers.get(id) {
        if !self.p.producers.contains_key(id) {
          self.p.producers.insert(id, b.new_thread_local_producer().map_err(|e| Violation { key: "producer".into(), msg: e.to_string() })?);
        }
      }
    }
    if let (Some(b), false) = (self.p.manager.stream_buffer(), self.p.producers.contains_key("s")) {
      self.p.producers.insert("s", b.register_producer().map_err(|e| Violation { key: "producer".into(), msg: e.to_string() })?);
    }
    let m = &mut self.m;
    if !k.c {
      m.c = None;
    } else if m.c.is_none() {
      m.c = Some(Pump::default());
    }
    if !k.t {
      if let Some((_, Some(u))) = m.t.take() {
        for w in u.waiting {
          // Those that wait for the upload are told that it is over.
          match tokio::time::timeout(Duration::from_millis(1), w).await {
            Ok(Ok(())) => (),
            r => fail!("completion", "{r:?} for an upload of a buffer that is removed"),
          }
        }
      }
    } else if m.t.is_none() {
      m.t = Some(Default::default());
    }
    if !k.s {
      m.s = None;
    } else if m.s.is_none() {
      m.s = Some(Pump::default());
    }
    self.k = k;
    Ok(())
  }

  fn write(&mut self, to: &'static str, kind: Kind) -> Res {
    self.next += 1;
    let l = log(self.next, kind);
    let Some(p) = self.p.producers.get_mut(to) else { return Ok(()) };
    let locked = to == "t" && matches!(&self.m.t, Some((_, Some(_))));
    let r = p.write(&l);
    check!(r.is_ok() != locked, "write", "a write to {to} gives {r:?}");
    if to == "s" {
      self.m.s.as_mut().unwrap().left.push_back((l, kind));
      return Ok(());
    }
    if !locked {
      // A trigger does this itself.
      if to == "c" {
        self.p.manager.buffers()[to].1.flush();
      }
      let pump = if to == "c" { self.m.c.as_mut() } else { self.m.t.as_mut().map(|t| &mut t.0) };
      pump.unwrap().left.push_back((l, kind));
    }
    Ok(())
  }

  /// The requests that come are those that the model makes.
  async fn settle(&mut self) -> Res {
    let now = Instant::now();
    let f = self.flags;
    if let Some(p) = &mut self.m.c {
      while p.flight.is_none() {
        let flush = p.full(f) || p.deadline.is_some_and(|d| now >= d);
        if flush {
          p.deadline = None;
          p.flight = Some(std::mem::take(&mut p.batch));
          break;
        }
        let Some(l) = p.left.pop_front() else { break };
        p.batch.push(l);
        if !p.full(f) && p.deadline.is_none() {
          p.deadline = Some(now + Duration::from_millis(f.deadline.into()));
        }
      }
    }
    if let Some(p) = &mut self.m.s {
      if p.flight.is_none() {
        p.flight = p.left.pop_front().map(|l| vec![l]);
      }
    }
    let mut completed = vec![];
    if let Some((p, u)) = &mut self.m.t {
      while let (Some(up), true) = (&u, p.flight.is_none()) {
        let l = p.left.pop_front();
        let none = l.is_none();
        if let Some(l) = l {
          if up.lookback && l.1 == Kind::Old {
            self.m.dropped += 1;
            continue;
          }
          p.batch.push(l);
        }
        if p.full(f) || none && !p.batch.is_empty() {
          p.flight = Some(std::mem::take(&mut p.batch));
        } else if none {
          completed = u.take().unwrap().waiting;
        }
      }
    }
    loop {
      mc::fut::settle().await;
      let Ok(d) = self.p.rx.try_recv() else { break };
      let DataUpload::LogsUploadRequest(t) = d else { fail!("request", "a request of another kind") };
      let p = match t.payload.buffer_uuid.as_str() {
        "c" => self.m.c.as_mut(),
        "t" => self.m.t.as_mut().map(|t| &mut t.0),
        "streamed" => self.m.s.as_mut(),
        b => fail!("request", "an upload for {b:?}"),
      };
      let Some(p) = p else { fail!("request", "an upload of {}, which is not there", t.payload.buffer_uuid) };
      check!(p.request.is_none(), "request", "a second upload of {} at a time", t.payload.buffer_uuid);
      let want: Option<Vec<&Log>> = p.flight.as_ref().map(|f| f.iter().map(|l| &l.0).collect());
      same!("batch", Some(t.payload.logs.iter().collect::<Vec<_>>()), want, "the logs that are uploaded from {}", t.payload.buffer_uuid);
      p.request = Some(t);
    }
    for (of, p) in [("c", self.m.c.as_ref()), ("t", self.m.t.as_ref().map(|t| &t.0)), ("s", self.m.s.as_ref())] {
      if let Some(p) = p {
        check!(p.flight.is_none() || p.request.is_some(), "upload", "{of} does not upload {:?}", p.flight);
      }
    }
    for w in completed {
      match tokio::time::timeout(Duration::ZERO, w).await {
        Ok(Ok(())) => (),
        r => fail!("completion", "{r:?} when the upload is complete"),
      }
    }
    if let Some((_, Some(u))) = &mut self.m.t {
      for w in &mut u.waiting {
        check!(w.try_recv().is_err(), "completion", "the upload counts as complete before it is");
      }
    }
    same!("stats", self.p.collector.scope("").counter("old_logs_dropped").get(), self.m.dropped, "old logs that are counted");
    check!(!self.p.task.is_finished(), "ended", "the task of all uploads has ended");
    Ok(())
  }

  fn pump(&mut self, of: &str) -> Option<&mut Pump> {
    match of {
      "c" => self.m.c.as_mut(),
      "t" => self.m.t.as_mut().map(|t| &mut t.0),
      _ => self.m.s.as_mut(),
    }
  }

  fn answer(&mut self, of: &str, success: bool) {
    let p = self.pump(of).unwrap();
    p.flight = None;
    let t = p.request.take().unwrap();
    let _ = t.response_tx.send(UploadResponse { success, uuid: t.uuid });
  }

  async fn trigger(&mut self, ids: &[&str]) -> Res {
    let (tx, mut rx) = oneshot::channel();
    let t = TriggerUpload::new(ids.iter().map(|s| (*s).to_string()).collect(), tx);
    check!(self.p.triggers.try_send(t).is_ok(), "trigger", "an earlier trigger is not handled");
    let lookback = self.flags.lookback != 0;
    match &mut self.m.t {
      Some((_, u @ None)) if ids.contains(&"t") => *u = Some(Upload { lookback, waiting: vec![rx] }),
      _ => {
        mc::fut::settle().await;
        same!("completion", rx.try_recv(), Ok(()), "the answer to a trigger of {ids:?} that starts nothing");
      },
    }
    Ok(())
  }

  /// The process ends, in good order or not, and another starts.
  async fn restart(&mut self, crash: bool) -> Res {
    let dir = scratch(&self.dirs);
    if crash {
      for (_, b) in self.p.manager.buffers().values() {
        b.flush();
      }
      for f in ["c", "t"] {
        let from = self.dir.join(f);
        if from.exists() {
          std::fs::copy(from, dir.join(f)).unwrap();
        }
      }
    }
    let next = Process::new(if crash { &dir } else { &self.dir }, self.flags)?;
    let Process { manager, task, rx, triggers, shutdown, producers, .. } = std::mem::replace(&mut self.p, next);
    tokio::spawn(shutdown.shutdown());
    // Answers come no more.
    match tokio::time::timeout(Duration::from_secs(60), task).await {
      Err(_) => fail!("stuck", "the task of all uploads does not end"),
      Ok(Ok(Ok(()))) => (),
      Ok(r) => fail!("ended", "the task of all uploads ends with {r:?}"),
    }
    mc::fut::settle().await;
    let m = std::mem::take(&mut self.m);
    drop((producers, triggers, rx, manager));
    let of = |p: Pump, read: bool| {
      // What is uploaded, and read, is not yet removed.
      let mut left: VecDeque<Item> = if read { p.flight.unwrap_or_default().into_iter().chain(p.batch).collect() } else { VecDeque::new() };
      left.extend(p.left);
      Pump { left, ..Default::default() }
    };
    self.m.c = m.c.map(|p| of(p, true));
    if let Some((p, u)) = m.t {
      self.m.t = Some((of(p, false), None));
      for w in u.into_iter().flat_map(|u| u.waiting) {
        check!(tokio::time::timeout(Duration::ZERO, w).await.is_ok(), "completion", "an upload does not end at the shutdown");
      }
    }
    self.m.s = m.s.map(|_| Pump::default());
    if crash {
      self.dir = dir;
    }
    let k = self.k;
    self.configure(k).await
  }
}

async fn run(ctx: &Ctx, events: &[&'static str], depth: u32, dirs: Dirs) -> Res {
  let dir = scratch(&dirs);
  let p = Process::new(&dir, FLAGS[0])?;
  let mut s = Sys { p, m: Model::default(), k: CONFIGS[4], flags: FLAGS[0], dir, dirs, next: 0 };
  s.configure(*ctx.pick(&CONFIGS[.. 2])).await?;
  s.settle().await?;
  for left in (0 .. depth).rev() {
    let sent = |p: Option<&Pump>| p.is_some_and(|p| p.request.is_some());
    let (c, t, st) = (sent(s.m.c.as_ref()), sent(s.m.t.as_ref().map(|t| &t.0)), sent(s.m.s.as_ref()));
    let can: Vec<&str> = events
      .iter()
      .copied()
      .filter(|e| match *e {
        "c" | "C" => s.k.c,
        "t" | "T" | "fresh" | "old" => s.k.t,
        "s" => s.k.s,
        "ok c" | "fail c" => c,
        "ok t" | "fail t" => t,
        "ok s" | "fail s" => st,
        "flags 0" | "flags 1" | "flags 2" | "flags 3" => FLAGS[e[6 ..].parse::<usize>().unwrap()] != s.flags,
        "config 0" | "config 1" | "config 2" | "config 3" | "config 4" => CONFIGS[e[7 ..].parse::<usize>().unwrap()] != s.k,
        _ => true,
      })
      .collect();
    let what = *ctx.pick(&can);
    ctx.say(|| what.to_string());
    ctx.step();
    match what {
      "c" => s.write("c", Kind::Short)?,
      "C" => s.write("c", Kind::Long)?,
      "t" => s.write("t", Kind::Short)?,
      "T" => s.write("t", Kind::Long)?,
      "fresh" => s.write("t", Kind::Fresh)?,
      "old" => s.write("t", Kind::Old)?,
      "s" => s.write("s", Kind::Short)?,
      "ok c" | "ok t" | "ok s" => s.answer(&what[3 ..], true),
      "fail c" | "fail t" | "fail s" => s.answer(&what[5 ..], false),
      "trigger" => s.trigger(&["t"]).await?,
      "triggers" => s.trigger(&["x", "t", "t"]).await?,
      "unknown" => s.trigger(&["x", "c"]).await?,
      "restart" => s.restart(false).await?,
      "crash" => s.restart(true).await?,
      "wait" => {
        // Until just before the deadline, and a little longer than it.
        let d = s.m.c.as_ref().and_then(|p| p.deadline).unwrap_or(Instant::now() + Duration::from_millis(1100));
        tokio::time::sleep_until(d - Duration::from_millis(2)).await;
        s.settle().await?;
        tokio::time::sleep(Duration::from_millis(4)).await;
      },
      "time" => tokio::time::sleep(Duration::from_millis(150)).await,
      "again" => {
        let k = s.k;
        s.configure(CONFIGS[4]).await?;
        s.configure(k).await?;
      },
      e if e.starts_with("flags") => {
        s.flags = FLAGS[e[6 ..].parse::<usize>().unwrap()];
        s.p.loader.update_snapshot(&update(s.flags));
      },
      e => s.configure(CONFIGS[e[7 ..].parse::<usize>().unwrap()]).await?,
    }
    s.settle().await?;
    let key = mc::hash_of(&(s.k, s.flags, s.m.c.as_ref().map(Pump::key), s.m.t.as_ref().map(|t| (t.0.key(), t.1.as_ref().map(|u| u.lookback))), s.m.s.as_ref().map(Pump::key)));
    ctx.state(key);
    if ctx.known(key, left.into()) {
      break;
    }
  }
  // In the end all that is there is uploaded.
  if s.k.t {
    s.trigger(&["t"]).await?;
    s.settle().await?;
  }
  for _ in 0 .. 40 {
    let mut any = false;
    for of in ["c", "t", "s"] {
      if s.pump(of).is_some_and(|p| p.request.is_some()) {
        s.answer(of, true);
        any = true;
      }
    }
    if let (Some(d), false) = (s.m.c.as_ref().and_then(|p| p.deadline), any) {
      tokio::time::sleep_until(d + Duration::from_millis(2)).await;
      any = true;
    }
    if !any {
      break;
    }
    s.settle().await?;
  }
  for of in ["c", "t", "s"] {
    if let Some(p) = s.pump(of) {
      check!(p.left.is_empty() && p.batch.is_empty() && p.flight.is_none(), "left", "{p:?} is left in {of}");
    }
  }
  s.restart(false).await?;
  s.settle().await?;
  s.restart(false).await
}

fn explore(ctx: &Ctx, events: &'static [&'static str], depth: u32) -> Res {
  let ctx2 = ctx.clone();
  ctx.one_schedule(move || {
    let dirs = Dirs::default();
    let runtime = mc::fut::runtime();
    let r = runtime.block_on(run(&ctx2, events, depth, dirs.clone()));
    drop(runtime);
    r
  })
}

const CONTINUOUS: &[&str] = &["c", "C", "ok c", "fail c", "wait", "time", "flags 0", "flags 1", "flags 2", "flags 3", "config 3", "config 0", "again", "restart", "crash"];
const TRIGGER: &[&str] = &["t", "T", "fresh", "old", "trigger", "triggers", "ok t", "fail t", "flags 0", "flags 1", "flags 2", "config 2", "config 0", "again", "restart", "crash"];
const ALL: &[&str] = &["c", "t", "s", "old", "ok c", "fail c", "ok t", "ok s", "fail s", "wait", "trigger", "unknown", "flags 1", "flags 3", "config 0", "config 1", "config 2", "config 3", "config 4", "again", "restart", "crash"];

pub fn c43(r: &mut Run) {
  crate::logs();
  let t = r.thorough();
  let n = if t { 8 } else { 6 };
  r.explore("continuous", &format!("{n} events: logs of two sizes, answers, time, four settings, the buffer removed and added, restarts, crashes"), Opts::dev(0).memory(0), |c| explore(c, CONTINUOUS, n));
  let n = if t { 6 } else { 5 };
  r.explore("trigger", &format!("{n} events: logs of two sizes, with old and new times, triggers, answers, settings, the buffer removed and added, restarts, crashes"), Opts::dev(0).memory(0), |c| explore(c, TRIGGER, n));
  let n = if t { 6 } else { 5 };
  r.explore("all", &format!("{n} events of three buffers and five configurations"), Opts::dev(0).memory(0), |c| explore(c, ALL, n));
  let n = if t { 4 } else { 3 };
  r.explore("all-full", &format!("{n} events of them, nothing left out"), Opts::dev(1).full(), |c| explore(c, ALL, n));
}
