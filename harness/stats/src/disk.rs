//! A disk that the exploration may break, and the process that keeps its stats there.

use async_trait::async_trait;
use bd_api::upload::{TrackedStatsUploadRequest, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats::file_manager::{FileManager, FileSystem};
use bd_client_stats::stats::{Flusher, Ticker};
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{Collector, MetricData};
use bd_proto::protos::client::api::stats_upload_request::snapshot::{Occurred_at, Snapshot_type};
use bd_proto::protos::client::api::{RuntimeUpdate, StatsUploadRequest};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::TestTimeProvider;
use mc::{check, fail, Ctx, Res, Violation};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

/// What becomes of an operation on the disk.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
  None,
  Error,
  /// An error after a part is written.
  Torn,
  /// The process ends before the operation, in the middle of it, or after it.
  Before,
  Amid,
  After,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Struck {
  pub what: &'static str,
  pub path: PathBuf,
  pub how: Fault,
  /// What the file had in it before.
  pub had: Vec<u8>,
}

/// Errors are expected.
struct Silent;
impl bd_client_common::error::Reporter for Silent {
  fn report(&self, _: &str, _: &Option<String>, _: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}
pub fn silent() {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Silent));
}

/// What a file has in it, if it can be read.
pub fn decode(data: &[u8]) -> Option<Sum> {
  let u: StatsUploadRequest = bd_client_common::file::read_compressed_protobuf(data).ok()?;
  sum_of(&u).ok()
}

#[derive(Default)]
pub struct State {
  pub files: BTreeMap<PathBuf, Vec<u8>>,
  pub dirs: Vec<PathBuf>,
  pub struck: Vec<Struck>,
  pub ended: bool,
}

#[derive(Clone)]
pub struct Disk {
  ctx: Ctx,
  pub s: Arc<Mutex<State>>,
  breaks: bool,
}

impl Disk {
  pub fn new(ctx: &Ctx, breaks: bool) -> Self {
    Self { ctx: ctx.clone(), s: Arc::default(), breaks }
  }

  pub fn hash(&self) -> u64 {
    mc::hash_of(self.s.lock().unwrap().files.len())
  }

  async fn op<T>(&self, what: &'static str, path: &Path, data: &[u8], f: impl FnOnce(&mut State, &[u8]) -> anyhow::Result<T>) -> anyhow::Result<T> {
    let writes = what == "write";
    let how = if self.breaks {
      let all: &[Fault] = if writes {
        &[Fault::None, Fault::Error, Fault::Torn, Fault::Before, Fault::Amid, Fault::After]
      } else if what == "read" {
        &[Fault::None, Fault::Error, Fault::Before]
      } else {
        &[Fault::None, Fault::Error, Fault::Before, Fault::After]
      };
      all[self.ctx.deviate(all.len())]
    } else {
      Fault::None
    };
    let r = {
      let mut s = self.s.lock().unwrap();
      if how != Fault::None {
        self.ctx.say(|| format!("    {how:?} at {what} {}", path.display()));
        let had = s.files.get(path).cloned().unwrap_or_default();
        s.struck.push(Struck { what, path: path.to_path_buf(), how, had });
      }
      match how {
        Fault::None | Fault::After => Some(f(&mut s, data)),
        Fault::Torn | Fault::Amid => {
          let _ = f(&mut s, &data[.. data.len() / 2]);
          None
        },
        Fault::Error | Fault::Before => None,
      }
    };
    if matches!(how, Fault::Before | Fault::Amid | Fault::After) {
      self.s.lock().unwrap().ended = true;
      std::future::pending::<()>().await;
    }
    r.unwrap_or_else(|| Err(anyhow::anyhow!("the disk fails")))
  }
}

#[async_trait]
impl FileSystem for Disk {
  async fn read_file(&self, path: &Path) -> anyhow::Result<Vec<u8>> {
    self.op("read", path, &[], |s, _| s.files.get(path).cloned().ok_or_else(|| anyhow::anyhow!("no such file"))).await
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    self
      .op("write", path, data, |s, data| {
        anyhow::ensure!(s.dirs.iter().any(|d| path.parent() == Some(d)), "no such directory");
        s.files.insert(path.to_path_buf(), data.to_vec());
        Ok(())
      })
      .await
  }
  async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
    self
      .op("delete", path, &[], |s, _| {
        s.files.remove(path);
        Ok(())
      })
      .await
  }
  async fn remove_dir(&self, path: &Path) -> anyhow::Result<()> {
    self
      .op("remove directory", path, &[], |s, _| {
        s.files.retain(|p, _| !p.starts_with(path));
        s.dirs.retain(|d| d != path);
        Ok(())
      })
      .await
  }
  async fn create_dir(&self, path: &Path) -> anyhow::Result<()> {
    self
      .op("create directory", path, &[], |s, _| {
        anyhow::ensure!(!s.dirs.iter().any(|d| d == path), "it is there");
        s.dirs.push(path.to_path_buf());
        Ok(())
      })
      .await
  }
}

/// Ticks when it is told to.
pub struct Told(mpsc::Receiver<()>);
impl Told {
  pub fn new(r: mpsc::Receiver<()>) -> Self {
    Self(r)
  }
}
#[async_trait]
impl Ticker for Told {
  async fn tick(&mut self) {
    if self.0.recv().await.is_none() {
      std::future::pending::<()>().await;
    }
  }
}

pub fn runtime(dir: &Path, flags: &[(&str, u32)]) -> Arc<ConfigLoader> {
  let runtime = ConfigLoader::new(dir);
  set(&runtime, flags);
  runtime
}

fn set(runtime: &ConfigLoader, flags: &[(&str, u32)]) {
  runtime.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".to_string(),
    runtime: Some(Runtime {
      values: flags.iter().map(|(k, n)| (k.to_string(), Value { type_: Some(value::Type::UintValue(*n)), ..Default::default() })).collect(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  });
}

pub struct Process {
  pub collector: Collector,
  pub dynamic: Arc<DynamicStats>,
  pub trigger: FlushTrigger,
  pub flush: mpsc::Sender<()>,
  pub upload: mpsc::Sender<()>,
  pub uploads: mpsc::Receiver<DataUpload>,
  pub task: tokio::task::JoinHandle<()>,
  pub shutdown: ComponentShutdownTrigger,
  _runtime: Arc<ConfigLoader>,
}

impl Process {
  /// Within a tokio runtime.
  pub fn new(fs: Box<dyn FileSystem>, time: &TestTimeProvider, flags: &[(&str, u32)]) -> Self {
    let (p, flusher) = Self::without_task(fs, time, flags);
    let task = tokio::spawn(flusher.periodic_flush());
    Self { task, ..p }
  }

  pub fn without_task(fs: Box<dyn FileSystem>, time: &TestTimeProvider, flags: &[(&str, u32)]) -> (Self, Flusher) {
    let runtime = runtime(Path::new("/nonexistent"), flags);
    let collector = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&collector.scope(""), &runtime));
    let stats = Stats::new(collector.clone(), dynamic.clone());
    let shutdown = ComponentShutdownTrigger::default();
    let (flush, flush_rx) = mpsc::channel(4);
    let (upload, upload_rx) = mpsc::channel(4);
    let (tx, uploads) = mpsc::channel(8);
    let (trigger, trigger_rx) = FlushTrigger::new();
    let flusher = Flusher::new(
      stats.clone(),
      shutdown.make_shutdown(),
      Told(flush_rx),
      trigger_rx,
      stats.scope("stats").histogram("flush_time"),
      Told(upload_rx),
      tx,
      Arc::new(FileManager::new(fs, Arc::new(time.clone()), &runtime).unwrap()),
    );
    let task = tokio::spawn(async {});
    (Self { collector, dynamic, trigger, flush, upload, uploads, task, shutdown, _runtime: runtime }, flusher)
  }

  /// The flusher has nothing left to do; it is not to have ended.
  pub async fn settle(&mut self) -> Res {
    mc::fut::settle().await;
    if self.task.is_finished() {
      let e = (&mut self.task).await;
      return Err(Violation { key: "ended".into(), msg: format!("the flusher has ended: {e:?}{}", mc::last_panic()) });
    }
    Ok(())
  }

  pub fn set_flags(&self, flags: &[(&str, u32)]) {
    set(&self._runtime, flags);
  }

  pub fn kill(self) {
    self.task.abort();
  }
}

//
// What is uploaded
//

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
  Count(u64),
  /// In order.
  Values(Vec<u64>),
}

pub type Sum = BTreeMap<String, Val>;

pub fn add(s: &mut Sum, name: &str, v: &Val) {
  match (s.get_mut(name), v) {
    (None, v) => {
      s.insert(name.to_string(), v.clone());
    },
    (Some(Val::Count(n)), Val::Count(m)) => *n += m,
    (Some(Val::Values(a)), Val::Values(b)) => {
      a.extend(b);
      a.sort_unstable();
    },
    _ => unreachable!(),
  }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sent {
  pub sum: Sum,
  pub start: i64,
  pub end: i64,
}

fn values(d: Data) -> Option<Val> {
  let mut v: Vec<u64> = match d {
    Data::Counter(c) => return Some(Val::Count(c.value + u64::from(c.value_deprecated))),
    Data::InlineHistogramValues(v) => v.values.iter().map(|f| *f as u64).collect(),
    // As the stand-in for the sketches has it.
    Data::DdsketchHistogram(h) => h
      .serialized
      .chunks(16)
      .flat_map(|c| {
        let f = f64::from_bits(u64::from_le_bytes(c[.. 8].try_into().unwrap()));
        let n = u64::from_le_bytes(c[8 ..].try_into().unwrap());
        std::iter::repeat(f as u64).take(n as usize)
      })
      .collect(),
    _ => return None,
  };
  v.sort_unstable();
  Some(Val::Values(v))
}

pub fn read(u: &StatsUploadRequest) -> Result<Sent, Violation> {
  check!(u.snapshot.len() == 1, "snapshots", "an upload with {} snapshots", u.snapshot.len());
  let s = &u.snapshot[0];
  let Some(Occurred_at::Aggregated(a)) = &s.occurred_at else { fail!("period", "an upload without a period") };
  let sum = sum_of(u)?;
  let (Some(start), Some(end)) = (a.period_start.as_ref(), a.period_end.as_ref()) else { fail!("period", "half a period") };
  Ok(Sent { sum, start: start.seconds, end: end.seconds })
}

fn sum_of(u: &StatsUploadRequest) -> Result<Sum, Violation> {
  let Some(Snapshot_type::Metrics(m)) = u.snapshot.first().and_then(|s| s.snapshot_type.as_ref()) else {
    fail!("metrics", "an upload without metrics")
  };
  let mut sum = Sum::new();
  for m in &m.metric {
    let mut name = m.name.clone();
    let tags: BTreeMap<_, _> = m.tags.iter().collect();
    if !tags.is_empty() {
      name = format!("{name}{tags:?}");
    }
    let Some(v) = m.data.clone().and_then(values) else { fail!("metrics", "{name} has no value") };
    // How long a flush takes is not known.
    let v = if name == "stats:flush_time" {
      let Val::Values(v) = v else { fail!("metrics", "{name} is no histogram") };
      Val::Values(vec![0; v.len()])
    } else {
      v
    };
    check!(sum.insert(name.clone(), v).is_none(), "metrics", "{name} is there twice");
  }
  Ok(sum)
}

pub struct Flight {
  pub uuid: String,
  pub sent: Sent,
  tracked: TrackedStatsUploadRequest,
}

impl Flight {
  pub fn take(p: &mut Process) -> Result<Option<Self>, Violation> {
    match p.uploads.try_recv() {
      Ok(DataUpload::StatsUploadRequest(t)) => {
        mc::same!("uuid", t.payload.upload_uuid, t.uuid, "id of the upload");
        Ok(Some(Self { uuid: t.uuid.clone(), sent: read(&t.payload)?, tracked: t }))
      },
      Ok(u) => fail!("upload", "unexpected {u:?}"),
      Err(_) => Ok(None),
    }
  }
  /// None: no answer, and there will be none.
  pub fn answer(self, ok: Option<bool>) {
    if let Some(success) = ok {
      let _ = self.tracked.response_tx.send(UploadResponse { success, uuid: self.uuid });
    }
  }
}

pub fn unused(_: &MetricData) {}
