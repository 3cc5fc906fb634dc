//! C44: from what the application logs to what the server gets. C45: what a crash leaves of it.

use crate::flushing::{self, Flush};
use crate::matcher::M;
use crate::wf::{Act, Tr, Wf};
use bd_api::api::{LogsUploadDecision, LogsUploadDecisionUploadImmediately};
use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_client_common::fb::root_as_log;
use bd_grpc_codec::{Decoder, Decompression, Encoder, OptimizeFor};
use bd_key_value::{Storage, Store};
use bd_log_metadata::MetadataProvider;
use bd_logger::{log_level, AnnotatedLogField, AnnotatedLogFields, InitParams, LogField, LogFieldKind, LogAttributesOverridesPreviousRunSessionID, LogType, Logger, LoggerBuilder, LoggerHandle};
use bd_metadata::{Metadata, Platform};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::stats_upload_request::snapshot::Snapshot_type;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as old;
use bd_proto::protos::filter::filter::filter::transform::set_field::set_field_value::Value as SetTo;
use bd_proto::protos::filter::filter::filter::transform::set_field::{FieldType, SetFieldValue};
use bd_proto::protos::filter::filter::filter::transform::{SetField, Transform_type};
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use bd_proto::protos::workflow::workflow as p;
use bd_runtime::runtime::ConfigLoader;
use bd_session::fixed::{Callbacks, Strategy as Fixed};
use bd_session::Strategy;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Scratch, Violation};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, LazyLock, Mutex, Weak};
use std::time::Duration;
use time::OffsetDateTime;
use tokio::sync::mpsc;

//
// The platform
//

struct StreamRec {
  tx: mpsc::Sender<StreamEvent>,
  decoder: Decoder<ApiRequest>,
  got: VecDeque<Request_type>,
}
#[derive(Clone, Default)]
struct Net(Arc<Mutex<Vec<StreamRec>>>, Arc<AtomicBool>);
struct Handle(Net, usize);

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(&self, tx: mpsc::Sender<StreamEvent>, _: &ConfigLoader, _: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    if self.1.load(Ordering::SeqCst) {
      // There is no network.
      std::future::pending::<()>().await;
    }
    let mut s = self.0.lock().unwrap();
    s.push(StreamRec { tx, decoder: Decoder::new(Some(Decompression::StatelessZlib), OptimizeFor::Memory), got: VecDeque::new() });
    Ok(Box::new(Handle(self.clone(), s.len() - 1)))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Handle {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let s = &mut self.0 .0.lock().unwrap()[self.1];
    for r in s.decoder.decode_data(data)? {
      s.got.extend(r.request_type);
    }
    Ok(())
  }
}

struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    [("app_id".to_string(), "the.app".to_string())].into()
  }
}

#[derive(Clone, Default)]
struct Disk(Arc<Mutex<BTreeMap<String, String>>>);
impl Storage for Disk {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    self.0.lock().unwrap().insert(key.to_string(), value.to_string());
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    Ok(self.0.lock().unwrap().get(key).cloned())
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.0.lock().unwrap().remove(key);
    Ok(())
  }
}

/// Sessions are numbered, over all processes.
#[derive(Clone, Default)]
struct Sessions(Arc<Mutex<u32>>);
impl Callbacks for Sessions {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let mut n = self.0.lock().unwrap();
    *n += 1;
    Ok(format!("s{n}"))
  }
}

/// What time it is, and a field that all logs get.
#[derive(Clone, Default)]
struct Provider(Arc<Mutex<(i64, &'static str)>>, Arc<Mutex<Weak<LoggerHandle>>>);
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(OffsetDateTime::from_unix_timestamp(self.0.lock().unwrap().0)?)
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    // What is logged from here goes nowhere, and neither do fields.
    if let Some(h) = self.1.lock().unwrap().upgrade() {
      h.log(log_level::INFO, LogType::Normal, "tc:again".into(), vec![], vec![], None, false);
      h.add_log_field(LogField { key: "again".into(), value: "again".into() });
      h.remove_log_field("added");
      h.start_new_session();
    }
    Ok(vec![field("p", self.0.lock().unwrap().1)])
  }
}

fn field(k: &str, v: &str) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: k.to_string(), value: v.into() }, kind: LogFieldKind::Custom }
}

struct Nothing;
impl bd_resource_utilization::Target for Nothing {
  fn tick(&self) {}
}
impl bd_session_replay::Target for Nothing {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}
impl bd_events::ListenerTarget for Nothing {
  fn start(&self) {}
  fn stop(&self) {}
}

/// They are there until the last task is gone.
type Dirs = Arc<Mutex<Vec<Scratch>>>;
fn scratch(dirs: &Dirs) -> PathBuf {
  let s = Scratch::new();
  let p = s.path().to_path_buf();
  dirs.lock().unwrap().push(s);
  p
}

fn copy(from: &Path, to: &Path) {
  std::fs::create_dir_all(to).unwrap();
  for e in std::fs::read_dir(from).unwrap() {
    let e = e.unwrap();
    let at = to.join(e.file_name());
    if e.file_type().unwrap().is_dir() {
      copy(&e.path(), &at);
    } else {
      std::fs::copy(e.path(), at).unwrap();
    }
  }
}

//
// What the server says
//

// Where a log is to go is in its message: before the colon are the buffers, and what else is to be
// done with it; after it, what a workflow makes of it.
const FLUSHES: [Flush; 3] = [
  Flush { id: "f1", buffers: &["t"], stream: None },
  Flush { id: "f2", buffers: &["t"], stream: Some((&["c"], Some(1))) },
  Flush { id: "f3", buffers: &[], stream: Some((&[], None)) },
];

fn flags(workflows: bool, filters: bool) -> Vec<(&'static str, u32)> {
  vec![
    ("workflows.enabled", workflows.into()),
    ("filter_chain.enabled", filters.into()),
    ("log_uploader.batch_size", 1),
    ("log_uploader.retry_count", 0),
    ("stats.upload_flush_interval_ms", 2000),
    // Once, and then only when it has to.
    ("workflows.persistence_write_interval_ms", u32::MAX),
  ]
}

fn runtime(nonce: &str, flags: &[(&str, u32)]) -> Response_type {
  let values = flags
    .iter()
    .map(|(k, n)| {
      let t = if k.ends_with("enabled") { value::Type::BoolValue(*n != 0) } else { value::Type::UintValue(*n) };
      (k.to_string(), Value { type_: Some(t), ..Default::default() })
    })
    .collect();
  Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: nonce.to_string(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() })
}

/// More than the continuous buffer takes.
static BIG: LazyLock<String> = LazyLock::new(|| format!("ct{}:f1", "q".repeat(3000)));

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Config {
  buffers: &'static [&'static str],
  workflows: bool,
  stream: bool,
  filter: &'static str,
}
const CONFIGS: [Config; 3] = [
  Config { buffers: &["c", "t", "u"], workflows: true, stream: true, filter: "1" },
  Config { buffers: &["c", "t"], workflows: true, stream: false, filter: "2" },
  Config { buffers: &["t", "u"], workflows: false, stream: true, filter: "1" },
];

fn continuous(buffer: &str) -> bool {
  buffer == "c"
}

fn update(nonce: &str, k: Config) -> Response_type {
  use old::buffer_config::{BufferFilter, BufferSizes, Type};
  use old::log_matcher::base_log_matcher::{Match_type as T, MessageMatch, StringMatchType as S, TagMatch};
  use old::log_matcher::{BaseLogMatcher, MatcherList, Match_type};
  let base = |t| old::LogMatcher { match_type: Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(t), ..Default::default() })), ..Default::default() };
  let buffer = |id: &str| {
    let mut any = vec![base(T::MessageMatch(MessageMatch { match_type: S::REGEX.into(), match_value: format!("^[a-z]*{id}[a-z]*:"), ..Default::default() }))];
    if id == "u" {
      any.push(base(T::TagMatch(TagMatch { match_type: S::EXACT.into(), tag_key: "k".into(), match_value: "1".into(), ..Default::default() })));
    }
    let m = old::LogMatcher { match_type: Some(Match_type::OrMatcher(MatcherList { matcher: any, ..Default::default() })), ..Default::default() };
    old::BufferConfig {
      name: id.into(),
      id: id.into(),
      type_: if continuous(id) { Type::CONTINUOUS } else { Type::TRIGGER }.into(),
      filters: vec![BufferFilter { id: "f".into(), filter: Some(m).into(), ..Default::default() }],
      buffer_sizes: Some(BufferSizes { volatile_buffer_size_bytes: if id == "c" { 2_000 } else { 10_000 }, non_volatile_buffer_size_bytes: if id == "c" { 3_000 } else { 20_000 }, ..Default::default() }).into(),
      ..Default::default()
    }
  };
  let set = SetField {
    name: "k".into(),
    value: Some(SetFieldValue { value: Some(SetTo::StringValue(k.filter.into())), ..Default::default() }).into(),
    field_type: FieldType::CAPTURED.into(),
    allow_override: true,
    ..Default::default()
  };
  let filter = Filter {
    matcher: Some(M::MsgRe("^[a-z]*x[a-z]*:").proto()).into(),
    transforms: vec![Transform { transform_type: Some(Transform_type::SetField(set)), ..Default::default() }],
    ..Default::default()
  };
  let stream = BdTailStream { stream_id: "live".into(), matcher: Some(M::MsgRe("^[a-z]*s[a-z]*:").proto()).into(), ..Default::default() };
  // What counts the logs that have it.
  let counts = Wf::new("m", true, vec![vec![Tr { to: 1, on: M::MsgRe(":m$"), count: 1, acts: vec![Act::Metric("hits".to_string(), Ok(1), vec![], false)], takes: vec![] }], vec![]]).proto();
  let flows = FLUSHES
    .iter()
    .map(|f| {
      let act = Act::Flush(f.id.to_string(), f.buffers.to_vec(), f.stream.map(|(to, n)| (to.to_vec(), n)));
      let re = match f.id {
        "f1" => ":f1$",
        "f2" => ":f2$",
        _ => ":f3$",
      };
      Wf::new(f.id, true, vec![vec![Tr { to: 1, on: M::MsgRe(re), count: 1, acts: vec![act], takes: vec![] }], vec![]]).proto()
    })
    .chain([counts])
    .collect();
  let sotw = StateOfTheWorld {
    buffer_config_list: Some(old::BufferConfigList { buffer_config: k.buffers.iter().map(|b| buffer(b)).collect(), ..Default::default() }).into(),
    workflows_configuration: k.workflows.then(|| p::WorkflowsConfiguration { workflows: flows, ..Default::default() }).into(),
    bdtail_configuration: k.stream.then(|| BdTailConfigurations { active_streams: vec![stream], ..Default::default() }).into(),
    filters_configuration: Some(FiltersConfiguration { filters: vec![filter], ..Default::default() }).into(),
    ..Default::default()
  };
  Response_type::ConfigurationUpdate(ConfigurationUpdate { version_nonce: nonce.to_string(), update_type: Some(Update_type::StateOfTheWorld(sotw)), ..Default::default() })
}

//
// The reference
//

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Rec {
  message: String,
  kind: u32,
  level: u32,
  session: String,
  at: i64,
  fields: Vec<(String, String)>,
  actions: Vec<String>,
  streams: Vec<String>,
}

fn read(bytes: &[u8]) -> Result<Rec, Violation> {
  let l = root_as_log(bytes).map_err(|e| Violation { key: "log".into(), msg: format!("a log that cannot be read: {e}") })?;
  let text = |d: Option<bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::StringData<'_>>| d.map_or("[none]", |d| d.data()).to_string();
  Ok(Rec {
    message: text(l.message_as_string_data()),
    kind: l.log_type().0,
    level: l.log_level(),
    session: l.session_id().unwrap_or("[none]").to_string(),
    at: l.timestamp().map_or(-1, |t| t.seconds()),
    fields: l.fields().map(|f| f.iter().map(|f| (f.key().to_string(), text(f.value_as_string_data()))).collect()).unwrap_or_default(),
    actions: l.workflow_action_ids().map(|f| f.iter().map(str::to_string).collect()).unwrap_or_default(),
    streams: l.stream_ids().map(|f| f.iter().map(str::to_string).collect()).unwrap_or_default(),
  })
}

/// When what is logged for the previous process happened.
const EARLIER: i64 = 77;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
  config: Option<Config>,
  cached: Option<Config>,
  workflows: bool,
  filters: bool,
  /// If workflows run.
  engine: bool,
  queue: Vec<Rec>,
  flush: flushing::Model,
  hits: u64,
  /// If what workflows keep differs from what was stored, and if anything was stored at all.
  dirty: bool,
  stored: bool,
  held: BTreeMap<&'static str, Vec<Rec>>,
  uploads: BTreeMap<&'static str, Vec<Rec>>,
  session: Option<String>,
  /// The last one of earlier processes.
  previous: Option<String>,
  sessions: u32,
  field: Option<&'static str>,
  provided: &'static str,
  now: i64,
}

impl Model {
  fn session(&mut self) -> String {
    if self.session.is_none() {
      self.new_session();
    }
    self.session.clone().unwrap()
  }
  fn new_session(&mut self) {
    self.sessions += 1;
    self.session = Some(format!("s{}", self.sessions));
  }

  fn restart(&mut self) {
    self.config = None;
    self.engine = false;
    self.queue.clear();
    self.field = None;
    self.previous = self.session.take().or(self.previous.take());
    if let Some(k) = self.cached {
      self.configure(k);
    }
  }
  fn set_flags(&mut self, workflows: bool, filters: bool) {
    self.workflows = workflows;
    self.filters = filters;
    // They start with the next configuration.
    self.engine &= workflows;
  }
  fn persist(&mut self, must: bool) {
    if self.engine && self.dirty && (must || !self.stored) {
      self.flush.disk = Some(self.flush.now.clone());
      self.stored = true;
      self.dirty = false;
    }
  }

  /// What all that follows depends on.
  fn key(&self) -> u64 {
    let mut m = self.clone();
    m.now = 0;
    for r in m.queue.iter_mut().chain(m.held.values_mut().flatten()) {
      r.at = 0;
    }
    mc::hash_of(m)
  }

  fn log(&mut self, message: &'static str, earlier: bool) {
    let mut fields = vec![("own".to_string(), "o".to_string())];
    fields.extend(self.field.map(|f| ("added".to_string(), f.to_string())));
    fields.push(("p".to_string(), self.provided.to_string()));
    let (session, at) = if earlier { (self.previous.clone().unwrap(), EARLIER) } else { (self.session(), self.now) };
    if earlier {
      fields.push(("_logged_at".into(), OffsetDateTime::from_unix_timestamp(self.now).unwrap().to_string()));
    }
    let r = Rec { message: message.to_string(), kind: 0, level: 2, session, at, fields, actions: vec![], streams: vec![] };
    if self.config.is_some() {
      self.process(r);
    } else {
      self.queue.push(r);
    }
  }

  fn process(&mut self, mut r: Rec) {
    let k = self.config.unwrap();
    let message = r.message.clone();
    let (to, tag) = message.split_once(':').unwrap();
    if self.filters && to.contains('x') {
      r.fields.retain(|f| f.0 != "k");
      r.fields.push(("k".into(), k.filter.into()));
    }
    if k.stream && to.contains('s') {
      let mut r = r.clone();
      r.streams.push("live".into());
      self.uploads.entry("streamed").or_default().push(r);
    }
    let tagged = r.fields.contains(&("k".into(), "1".into()));
    let to: flushing::Set = k.buffers.iter().copied().filter(|b| to.contains(b) || *b == "u" && tagged).collect();
    let (triggered, flushed, goes) = if self.engine {
      let tag = if k.workflows { tag } else { "" };
      self.hits += u64::from(tag == "m");
      let mut before = self.flush.now.clone();
      let goes = self.flush.log(tag, &r.session, &to);
      if before.session.is_empty() {
        before.session.clone_from(&r.session);
      }
      self.dirty |= before != self.flush.now;
      goes
    } else {
      (BTreeSet::new(), BTreeSet::new(), to)
    };
    r.actions = triggered.iter().map(ToString::to_string).collect();
    for b in &goes {
      self.write(b, r.clone());
    }
    // It is known to the server whatever it goes to.
    if !flushed.is_empty() && goes.is_disjoint(&flushed) && !goes.iter().any(|b| continuous(b)) {
      r.kind = LogType::InternalSDK.0;
      r.level = log_level::DEBUG;
      self.write(flushed.first().unwrap(), r);
    }
    self.persist(false);
  }

  fn write(&mut self, b: &'static str, r: Rec) {
    // It takes no more than that.
    if b == "c" && r.message.len() > 2_000 {
      return;
    }
    let at = if continuous(b) { &mut self.uploads } else { &mut self.held };
    at.entry(b).or_default().push(r);
  }

  fn upload(&mut self, buffers: &flushing::Set) {
    for b in buffers {
      if let Some(h) = self.held.remove(b) {
        self.uploads.entry(b).or_default().extend(h);
      }
    }
  }

  fn configure(&mut self, k: Config) {
    self.cached = Some(k);
    let first = self.config.is_none();
    self.config = Some(k);
    self.held.retain(|b, _| k.buffers.contains(b));
    self.flush.trigger = k.buffers.iter().copied().filter(|b| !continuous(b)).collect();
    self.flush.continuous = k.buffers.iter().copied().filter(|b| continuous(b)).collect();
    if self.workflows {
      if first || !self.engine {
        self.flush.restart();
        self.dirty = false;
        self.stored = false;
      } else {
        self.flush.standardize();
      }
    }
    self.engine = self.workflows;
    for r in std::mem::take(&mut self.queue) {
      self.process(r);
    }
  }
}

//
// The system
//

struct Process {
  logger: Option<Logger>,
  handle: Arc<LoggerHandle>,
  net: Net,
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
}

#[derive(Clone, Default)]
struct Platf {
  disk: Disk,
  sessions: Sessions,
  provider: Provider,
}

impl Process {
  fn new(dir: &Path, pf: &Platf) -> Result<Self, Violation> {
    let net = Net::default();
    let store = Arc::new(Store::new(Box::new(pf.disk.clone())));
    let built = LoggerBuilder::new(InitParams {
      sdk_directory: dir.to_path_buf(),
      api_key: "key".into(),
      session_strategy: Arc::new(Strategy::Fixed(Fixed::new(store.clone(), Arc::new(pf.sessions.clone())))),
      store: store.clone(),
      metadata_provider: Arc::new(pf.provider.clone()),
      resource_utilization_target: Box::new(Nothing),
      session_replay_target: Box::new(Nothing),
      events_listener_target: Box::new(Nothing),
      device: Arc::new(bd_device::Device::new(store)),
      network: Box::new(net.clone()),
      platform: bd_api::Platform::Ios,
      static_metadata: Arc::new(Meta),
    })
    .with_mobile_features(true)
    .build();
    let (logger, _, future) = match built {
      Ok(b) => b,
      Err(e) => fail!("start", "{e}"),
    };
    let handle = Arc::new(logger.new_logger_handle());
    *pf.provider.1.lock().unwrap() = Arc::downgrade(&handle);
    let task = tokio::task::spawn_local(future);
    Ok(Self { logger: Some(logger), handle, net, task })
  }

  fn say(&self, r: Response_type) {
    let mut e = Encoder::new(None);
    let bytes = e.encode(&ApiResponse { response_type: Some(r), ..Default::default() }).to_vec();
    let s = self.net.0.lock().unwrap();
    let _ = s.last().unwrap().tx.try_send(StreamEvent::Data(bytes));
  }
}

fn send(h: &LoggerHandle, message: &'static str, earlier: Option<String>, blocking: bool) {
  let o = earlier.map(|s| LogAttributesOverridesPreviousRunSessionID {
    expected_previous_process_session_id: s,
    occurred_at: OffsetDateTime::from_unix_timestamp(EARLIER).unwrap(),
  });
  h.log(log_level::INFO, LogType::Normal, message.into(), vec![field("own", "o")], vec![], o, blocking);
}

struct Sys {
  p: Process,
  pf: Platf,
  dirs: Dirs,
  dir: PathBuf,
  m: Model,
  /// What the server got.
  got: BTreeMap<&'static str, Vec<Rec>>,
  hits: u64,
  question: Option<LogUploadIntentRequest>,
  shaken: bool,
  nonces: u32,
}

async fn settle() {
  for _ in 0 .. 3 {
    mc::th::yield_now();
    tokio::time::sleep(Duration::from_millis(1)).await;
  }
}

impl Sys {
  async fn serve(&mut self) -> Res {
    loop {
      settle().await;
      let r = self.p.net.0.lock().unwrap().last_mut().and_then(|s| s.got.pop_front());
      let Some(r) = r else { break };
      match r {
        Request_type::Handshake(_) => {
          check!(!self.shaken, "handshake", "a second handshake");
          self.shaken = true;
          self.p.say(Response_type::Handshake(HandshakeResponse {
            stream_settings: Some(StreamSettings { ping_interval: Some(protobuf::well_known_types::duration::Duration { seconds: 3600, ..Default::default() }).into(), ..Default::default() }).into(),
            ..Default::default()
          }));
        },
        Request_type::LogUpload(u) => {
          let b = match u.buffer_uuid.as_str() {
            "c" => "c",
            "t" => "t",
            "u" => "u",
            "streamed" => "streamed",
            b => fail!("upload", "an upload from {b:?}"),
          };
          for l in &u.logs {
            let l = read(l)?;
            self.got.entry(b).or_default().push(l);
          }
          self.p.say(Response_type::LogUpload(LogUploadResponse { upload_uuid: u.upload_uuid, ..Default::default() }));
        },
        Request_type::StatsUpload(u) => {
          for s in &u.snapshot {
            let Some(Snapshot_type::Metrics(m)) = &s.snapshot_type else { fail!("stats", "a snapshot of nothing") };
            for m in m.metric.iter().filter(|m| m.tags.values().any(|v| v == "hits")) {
              let Some(Data::Counter(c)) = &m.data else { fail!("stats", "{m:?}") };
              self.hits += c.value;
            }
          }
          self.p.say(Response_type::StatsUpload(StatsUploadResponse { upload_uuid: u.upload_uuid, ..Default::default() }));
        },
        Request_type::LogUploadIntent(q) => {
          check!(self.question.is_none(), "question", "a second question at a time");
          self.question = Some(q);
        },
        Request_type::RuntimeUpdateAck(a) => check!(a.nack.is_none(), "nack", "{a:?}"),
        Request_type::ConfigurationUpdateAck(a) => check!(a.nack.is_none(), "nack", "{a:?}"),
        r => fail!("request", "{r:?}"),
      }
    }
    check!(!self.p.task.is_finished(), "ended", "the logger has ended");
    Ok(())
  }

  /// What the server got is what the model says it gets.
  fn compare(&mut self) -> Res {
    same!("uploads", self.got, self.m.uploads, "the logs that the server got");
    self.got.clear();
    self.m.uploads.clear();
    let before = self.m.flush.now.clone();
    self.m.flush.skip();
    self.m.dirty |= before != self.m.flush.now;
    let asked = self.question.as_ref().map(|q| match &q.intent_type {
      Some(log_upload_intent_request::Intent_type::WorkflowActionUpload(w)) => w.workflow_action_ids.clone(),
      _ => vec![],
    });
    let ask = if self.m.engine { self.m.flush.asking.front().map(|a| vec![a.0.to_string()]) } else { None };
    same!("asked", asked, ask, "the flush that the server is asked about");
    Ok(())
  }

  fn nonce(&mut self) -> String {
    self.nonces += 1;
    format!("n{}", self.nonces)
  }

  fn send(&self, message: &'static str, earlier: bool) {
    send(&self.p.handle, message, earlier.then(|| self.m.previous.clone().unwrap()), false);
  }

  /// Another thread does this, and the server answers meanwhile.
  async fn call(&mut self, what: &'static str, f: impl FnOnce(&LoggerHandle) + Send + 'static) -> Res {
    let done = Arc::new(AtomicBool::new(false));
    let (h, d) = (self.p.handle.clone(), done.clone());
    let t = mc::th::spawn(move || {
      f(&h);
      d.store(true, Ordering::SeqCst);
    });
    for _ in 0 .. 20 {
      self.serve().await?;
      if done.load(Ordering::SeqCst) {
        let _ = t.join();
        return Ok(());
      }
    }
    fail!("stuck", "{what} does not return")
  }

  /// The process ends and another one starts.
  async fn restart(&mut self, crash: bool) -> Res {
    let (dir, disk) = if crash {
      let dir = scratch(&self.dirs);
      copy(&self.dir, &dir);
      (dir, Disk(Arc::new(Mutex::new(self.pf.disk.0.lock().unwrap().clone()))))
    } else {
      (self.dir.clone(), self.pf.disk.clone())
    };
    let logger = Arc::new(Mutex::new(self.p.logger.take().unwrap()));
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let t = mc::th::spawn(move || {
      logger.lock().unwrap().shutdown(true);
      d.store(true, Ordering::SeqCst);
    });
    let mut rounds = 0;
    while !done.load(Ordering::SeqCst) || !self.p.task.is_finished() {
      settle().await;
      rounds += 1;
      check!(rounds < 50, "stuck", "the shutdown does not end (returned: {}, task ended: {})", done.load(Ordering::SeqCst), self.p.task.is_finished());
    }
    let _ = t.join();
    match (&mut self.p.task).await {
      Ok(Ok(())) => {},
      r => fail!("ended", "the logger ends with {r:?}"),
    }
    self.dir = dir;
    self.pf.disk = disk;
    self.question = None;
    self.shaken = false;
    self.p = Process::new(&self.dir, &self.pf)?;
    Ok(())
  }

  fn disconnect(&mut self) {
    let tx = self.p.net.0.lock().unwrap().last().unwrap().tx.clone();
    let _ = tx.try_send(StreamEvent::StreamClosed("gone".into()));
    self.shaken = false;
  }

  async fn answer(&mut self, yes: bool) {
    let q = self.question.take().unwrap();
    self.p.say(Response_type::LogUploadIntent(LogUploadIntentResponse {
      intent_uuid: q.intent_uuid,
      decision: yes.then(|| LogsUploadDecision::UploadImmediately(LogsUploadDecisionUploadImmediately::default())),
      ..Default::default()
    }));
    self.m.dirty = true;
    if let Some((id, buffers)) = self.m.flush.answer(yes) {
      self.m.upload(&buffers);
      // It is over when the next step is taken.
      self.m.flush.flushing.insert(id, false);
    }
  }
}

async fn begin(start: Option<Config>, dirs: Dirs) -> Result<Sys, Violation> {
  let dir = scratch(&dirs);
  let pf = Platf::default();
  *pf.provider.0.lock().unwrap() = (1, "p1");
  let p = Process::new(&dir, &pf)?;
  let m = Model {
    config: None,
    cached: None,
    workflows: false,
    filters: false,
    engine: false,
    queue: vec![],
    flush: flushing::Model {
      flushes: &FLUSHES,
      now: flushing::Kept::default(),
      disk: None,
      trigger: BTreeSet::new(),
      continuous: BTreeSet::new(),
      asking: VecDeque::new(),
      rejected: BTreeSet::new(),
      flushing: BTreeMap::new(),
    },
    hits: 0,
    dirty: false,
    stored: false,
    held: BTreeMap::new(),
    uploads: BTreeMap::new(),
    session: None,
    previous: None,
    sessions: 0,
    field: None,
    provided: "p1",
    now: 1,
  };
  let mut s = Sys { p, pf, dirs, dir, m, got: BTreeMap::new(), hits: 0, question: None, shaken: false, nonces: 0 };
  s.serve().await?;
  s.p.say(runtime("r0", &flags(true, true)));
  s.m.workflows = true;
  s.m.filters = true;
  s.serve().await?;
  if let Some(k) = start {
    s.p.say(update("first", k));
    s.m.configure(k);
    s.serve().await?;
  }
  Ok(s)
}

async fn run(ctx: &Ctx, start: Option<usize>, events: &[&'static str], depth: u32, dirs: Dirs) -> Res {
  let mut s = begin(start.map(|k| CONFIGS[k]), dirs).await?;
  for left in (0 .. depth).rev() {
    let can: Vec<&str> = events
      .iter()
      .copied()
      .filter(|e| match *e {
        "yes" | "no" => s.question.is_some(),
        "flags" => s.m.workflows || s.m.filters,
        "flags w" => !s.m.workflows || s.m.filters,
        "flags F" => s.m.workflows || !s.m.filters,
        "flags wF" => !s.m.workflows || !s.m.filters,
        "no field" => s.m.field.is_some(),
        e if e.starts_with('<') => s.m.previous.is_some(),
        "config 0" | "config 1" | "config 2" => s.m.config != Some(CONFIGS[e[7 ..].parse::<usize>().unwrap()]),
        _ => true,
      })
      .collect();
    let what = *ctx.pick(&can);
    ctx.say(|| what.to_string());
    ctx.step();
    match what {
      "yes" | "no" => s.answer(what == "yes").await,
      "session" => {
        s.p.handle.start_new_session();
        s.m.new_session();
      },
      "command" => {
        s.p.say(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["t".into(), "c".into(), "x".into()], ..Default::default() }));
        s.m.upload(&["t"].into());
      },
      "field" => {
        s.m.field = Some(if s.m.field == Some("a1") { "a2" } else { "a1" });
        s.p.handle.add_log_field(LogField { key: "added".into(), value: s.m.field.unwrap().into() });
      },
      "no field" => {
        s.m.field = None;
        s.p.handle.remove_log_field("added");
      },
      "provider" => {
        s.m.provided = if s.m.provided == "p1" { "p2" } else { "p1" };
        s.pf.provider.0.lock().unwrap().1 = s.m.provided;
      },
      "flush" => {
        s.call("flush_state", |h| h.flush_state(true)).await?;
        s.m.persist(true);
      },
      "restart" | "crash" => {
        s.restart(what == "crash").await?;
        s.m.restart();
      },
      "disconnect" => {
        let tx = s.p.net.0.lock().unwrap().last().unwrap().tx.clone();
        let _ = tx.try_send(StreamEvent::StreamClosed("gone".into()));
        s.shaken = false;
        s.question = None;
        tokio::time::sleep(Duration::from_secs(3)).await;
      },
      e if e.starts_with("flags") => {
        let (w, f) = (e.contains('w'), e.contains('f'.to_ascii_uppercase()));
        let n = s.nonce();
        s.p.say(runtime(&n, &flags(w, f)));
        s.m.set_flags(w, f);
        if !w {
          s.question = None;
        }
      },
      e if e.starts_with("config") => {
        let k = CONFIGS[e[7 ..].parse::<usize>().unwrap()];
        let n = s.nonce();
        s.p.say(update(&n, k));
        s.m.configure(k);
      },
      // Workflows are off for a while.
      "again" => {
        for on in [false, true] {
          let n = s.nonce();
          s.p.say(runtime(&n, &flags(on, true)));
          s.m.set_flags(on, true);
          s.question = None;
          s.serve().await?;
        }
        let n = s.nonce();
        s.p.say(update(&n, CONFIGS[0]));
        s.m.configure(CONFIGS[0]);
      },
      e => {
        s.m.now += 1;
        s.pf.provider.0.lock().unwrap().0 = s.m.now;
        // As a log that the caller waits for, or one of the previous process.
        let (blocking, earlier) = (e.starts_with('!'), e.starts_with('<'));
        let approved = e.starts_with('+');
        let e = match e.trim_start_matches(['!', '<', '+']) {
          "big" => &BIG,
          e => e,
        };
        if blocking {
          s.call("a blocking log", move |h| send(h, e, None, true)).await?;
        } else {
          s.send(e, earlier);
        }
        s.m.log(e, earlier);
        if blocking {
          s.m.persist(true);
        }
        if approved {
          s.serve().await?;
          s.compare()?;
          if s.question.is_some() {
            s.answer(true).await;
            s.serve().await?;
            s.call("flush_state", |h| h.flush_state(true)).await?;
            s.m.persist(true);
          }
        }
      },
    }
    s.serve().await?;
    s.compare()?;
    let key = mc::hash_of((s.m.key(), s.question.is_some()));
    ctx.state(key);
    if ctx.known(key, left.into()) {
      break;
    }
  }
  // In the end what is held is what there is to upload.
  if s.m.config.is_some() {
    s.p.say(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["t".into(), "u".into()], ..Default::default() }));
    s.m.upload(&["t", "u"].into());
    s.serve().await?;
    s.compare()?;
  }
  Ok(())
}

fn explore(ctx: &Ctx, start: Option<usize>, events: &'static [&'static str], depth: u32) -> Res {
  let ctx2 = ctx.clone();
  ctx.one_schedule(move || {
    let dirs = Dirs::default();
    let runtime = mc::fut::runtime();
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&runtime, run(&ctx2, start, events, depth, dirs.clone()));
    drop(local);
    drop(runtime);
    r
  })
}

//
// What a crash leaves
//

const SMALL: [Config; 3] = [
  Config { buffers: &["c", "t", "u"], workflows: true, stream: false, filter: "2" },
  Config { buffers: &["c"], workflows: true, stream: false, filter: "2" },
  Config { buffers: &["t"], workflows: true, stream: false, filter: "2" },
];

/// What is before the crash: logs that are waited for, or whose flush is approved; and then, with
/// all schedules, logs, the last of which is waited for, or a flush of everything.
async fn crash(ctx: &Ctx, w: mc::Window, config: usize, before: &[&'static str], during: &[&'static str], last: &[&'static str], dirs: Dirs) -> Res {
  let mut s = begin(Some(SMALL[config]), dirs).await?;
  let b = *ctx.pick(before);
  ctx.say(|| format!("before: {b}"));
  for e in b.split_whitespace() {
    s.m.now += 1;
    s.pf.provider.0.lock().unwrap().0 = s.m.now;
    s.m.log(e, false);
    s.send(e, false);
    s.serve().await?;
    s.compare()?;
    if s.question.is_some() {
      s.answer(true).await;
      s.serve().await?;
      s.compare()?;
    }
  }
  let mut logs: Vec<&'static str> = ctx.pick(during).split_whitespace().collect();
  let last = *ctx.pick(last);
  ctx.say(|| format!("during: {logs:?}, {last}"));
  s.m.now += 1;
  s.pf.provider.0.lock().unwrap().0 = s.m.now;
  let all = last == "flush";
  if !all {
    logs.push(last);
  }
  let held = s.m.held.clone();
  for l in &logs {
    s.m.log(l, false);
  }
  s.m.persist(true);
  // Only what is in the same buffers as the last log is sure to be there.
  let sure: flushing::Set = SMALL[config].buffers.iter().copied().filter(|b| all || s.m.held.get(b).or(s.m.uploads.get(b)).is_some_and(|h| h.last().is_some_and(|r| r.message == last && r.at == s.m.now))).collect();
  let to = scratch(&s.dirs);
  let kept = Arc::new(Mutex::new(None));
  let (h, k, from, to2, disk, w2) = (s.p.handle.clone(), kept.clone(), s.dir.clone(), to.clone(), s.pf.disk.clone(), w.clone());
  w.open();
  let t = mc::th::spawn(move || {
    for (i, l) in logs.iter().enumerate() {
      send(&h, l, None, !all && i + 1 == logs.len());
    }
    if all {
      h.flush_state(true);
    }
    w2.close();
    copy(&from, &to2);
    let d = disk.0.lock().unwrap().clone();
    *k.lock().unwrap() = Some(d);
  });
  let mut rounds = 0;
  while kept.lock().unwrap().is_none() {
    settle().await;
    rounds += 1;
    check!(rounds < 50, "stuck", "{last} does not return");
  }
  let _ = t.join();
  ctx.step();
  let kept = kept.lock().unwrap().take().unwrap();
  // The next process starts from that.
  s.m.restart();
  s.question = None;
  s.shaken = false;
  s.dir = to;
  s.pf.disk = Disk(Arc::new(Mutex::new(kept)));
  let next = Process::new(&s.dir, &s.pf)?;
  let old = std::mem::replace(&mut s.p, next);
  s.serve().await?;
  s.p.say(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["t".into(), "u".into()], ..Default::default() }));
  s.m.upload(&["t", "u"].into());
  s.serve().await?;
  for b in ["c", "t", "u"] {
    let got = s.got.remove(b).unwrap_or_default();
    let want = s.m.uploads.remove(b).unwrap_or_default();
    ctx.state((b, &got));
    if sure.contains(b) {
      same!("lost", got, want, "after the crash, what is in {b}");
    } else {
      let safe = held.get(b).map_or(0, Vec::len);
      check!(got.len() >= safe && want.starts_with(&got), "other", "after the crash, what is in {b}: {got:?}, of {want:?}");
    }
  }
  s.got.clear();
  s.m.uploads.clear();
  s.compare()?;
  // And workflows go on from where they were.
  for (e, earlier) in [("t:", false), ("c:", true)] {
    s.m.now += 1;
    s.pf.provider.0.lock().unwrap().0 = s.m.now;
    s.m.log(e, earlier);
    s.send(e, earlier);
    s.serve().await?;
    s.compare()?;
  }
  // What was counted before it is still counted.
  tokio::time::sleep(Duration::from_secs(3)).await;
  s.serve().await?;
  same!("counted", s.hits, s.m.hits, "what the server knows of the counter");
  drop(old);
  Ok(())
}

fn windowed<F: std::future::Future<Output = Res>>(ctx: &Ctx, f: impl FnOnce(Ctx, mc::Window, Dirs) -> F + Send + 'static) -> Res {
  let ctx2 = ctx.clone();
  let starved = ctx.deviate(12).checked_sub(1);
  let hashes = ctx.choose(2) as u64;
  ctx.say(|| format!("starved: {starved:?}, hash maps of kind {hashes}"));
  ctx.windowed(starved, hashes, move |w| {
    let dirs = Dirs::default();
    let runtime = mc::fut::runtime();
    let local = tokio::task::LocalSet::new();
    mc_fs::set_gaps(true);
    mc_sync::set_raw_random(Some(Box::new(|| 1 << 62)));
    let r = local.block_on(&runtime, f(ctx2, w, dirs.clone()));
    drop(local);
    drop(runtime);
    mc_fs::set_gaps(false);
    mc_sync::set_raw_random(None);
    r
  })
}

fn crashes(ctx: &Ctx, config: usize, before: &'static [&'static str], during: &'static [&'static str], last: &'static [&'static str]) -> Res {
  windowed(ctx, move |ctx, w, dirs| async move { crash(&ctx, w, config, before, during, last, dirs).await })
}

pub fn c45(r: &mut Run) {
  crate::logs();
  let text = |n| format!("the schedules that deviate up to {n} times from the first one, or starve a thread, from the first log on until the call returns");
  r.explore("logs", &text(1), Opts::dev(1).memory(0), |c| crashes(c, 0, &["", "tu: c:m", "t:f2 t:"], &["", "t:m", "c:a tu:a"], &["t:", "ct:", "u:f2", ":f1", ":m"]));
  r.explore("flushes", &text(1), Opts::dev(1).memory(0), |c| {
    let k = 1 + c.choose(2);
    crashes(c, k, &["", "c: t:", ":f1"], &["c:a", "t:m t:b"], &["flush"])
  });
  if r.thorough() {
    r.explore("more logs", &text(1), Opts::dev(1).memory(0), |c| {
      crashes(c, 0, &["", "tu: c:m", "t:f2", "t:f2 t:", ":f1 u:f2", "c:m t:m u:m"], &["", "t:m", "c:a tu:a", "t:f2 c:", ":f1 t: t:", "u:f2 :m c:"], &["t:", "ct:", "u:f2", ":f1", ":m", "tu:m", "t:f2", "cu:f1"])
    });
    r.explore("logs, closer", &text(2), Opts::dev(2).memory(0).secs(300), |c| crashes(c, 0, &[""], &["t:m"], &["ct:", "u:f2"]));
  }
}

//
// Calls from several threads
//

fn act(h: &LoggerHandle, e: &'static str) {
  match e {
    "flush" => h.flush_state(true),
    "session" => h.start_new_session(),
    "field" => h.add_log_field(LogField { key: "added".into(), value: "a".into() }),
    e => send(h, e.trim_start_matches('!'), None, e.starts_with('!')),
  }
}

/// More, together, than the continuous buffer has room for at a time.
static FILL: LazyLock<Vec<String>> = LazyLock::new(|| (0 .. 7).map(|i| format!("c:{i}{}", "q".repeat(450))).collect());

fn expanded(list: &'static str) -> Vec<&'static str> {
  let fill = || [&*FILL[0], &FILL[1], "flush", &FILL[2], &FILL[3], "flush", &FILL[4], &FILL[5], "flush", &FILL[6]];
  list.split_whitespace().flat_map(|e| if e == "fill" { fill().to_vec() } else { vec![e] }).collect()
}

const CALLS: [&[&str]; 3] = [
  &["t:1 !t:2", "!cs:1", "flush t:1", "c:1 flush", "t:f2 !t:1", "fill"],
  &["!t:3", "flush", "session c:3", "field !tu:3"],
  &["nothing", "config 1", "flags", "two configs", "disconnect", "command", "config 2", "shutdown", "offline"],
];

async fn calls(ctx: &Ctx, all: bool, w: mc::Window, dirs: Dirs) -> Res {
  let mut s = begin(Some(CONFIGS[0]), dirs).await?;
  let (a, e) = (ctx.choose(CALLS[0].len()), ctx.choose(CALLS[2].len()));
  if !all && (a + e) % 2 == 1 {
    return Ok(());
  }
  // Of each event with each of the first ones, all of the others, or some of them.
  let b = if all { ctx.choose(CALLS[1].len()) } else { (a + e) % CALLS[1].len() };
  let what = [CALLS[0][a], CALLS[1][b], CALLS[2][e]];
  ctx.say(|| format!("{what:?}"));
  if what[2] == "offline" && what[0] == "fill" {
    // That waits for the server.
    return Ok(());
  }
  let left = Arc::new(Mutex::new(2));
  if what[2] == "offline" {
    // There is something to upload already.
    s.p.net.1.store(true, Ordering::SeqCst);
    s.disconnect();
    tokio::time::sleep(Duration::from_millis(50)).await;
    s.send("c:0", false);
    settle().await;
    tokio::time::sleep(Duration::from_secs(70)).await;
  }
  w.open();
  let mut threads = vec![];
  for list in &what[.. 2] {
    let (h, l, list) = (s.p.handle.clone(), left.clone(), *list);
    let over = what[2] == "shutdown";
    threads.push(mc::th::spawn(move || {
      for e in expanded(list) {
        if over {
          // What comes after the shutdown is unexpected, and says so.
          let _ = mc::expecting_panics(|| act(&h, e));
        } else {
          act(&h, e);
        }
      }
      *l.lock().unwrap() -= 1;
    }));
  }
  match what[2] {
    "nothing" | "offline" => {},
    "config 1" => s.p.say(update("next", CONFIGS[1])),
    "config 2" => s.p.say(update("next", CONFIGS[2])),
    "two configs" => {
      s.p.say(update("next", CONFIGS[1]));
      s.p.say(update("after", CONFIGS[0]));
    },
    "flags" => s.p.say(runtime("next", &flags(false, false))),
    "command" => s.p.say(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["t".into(), "u".into()], ..Default::default() })),
    "disconnect" => s.disconnect(),
    _ => {
      let (logger, l) = (Arc::new(Mutex::new(s.p.logger.take().unwrap())), left.clone());
      *left.lock().unwrap() += 1;
      threads.push(mc::th::spawn(move || {
        logger.lock().unwrap().shutdown(true);
        *l.lock().unwrap() -= 1;
      }));
    },
  }
  let over = what[2] == "shutdown";
  let mut rounds = 0;
  loop {
    if over {
      settle().await;
    } else {
      s.serve().await?;
      s.question = None;
    }
    let left = *left.lock().unwrap();
    if left == 0 && (!over || s.p.task.is_finished()) {
      break;
    }
    rounds += 1;
    if rounds > 20 {
      tokio::time::sleep(Duration::from_secs(1)).await;
    }
    check!(rounds < 60, if over && what[0] == "fill" { "full" } else { "stuck" }, "after {what:?}, {left} calls do not return (ended: {})", s.p.task.is_finished());
  }
  w.close();
  if what[2] == "offline" {
    return Ok(());
  }
  ctx.step();
  for t in threads {
    let _ = t.join();
  }
  if over {
    return match (&mut s.p.task).await {
      Ok(Ok(())) => Ok(()),
      r => fail!("ended", "the logger ends with {r:?}"),
    };
  }
  // All goes on.
  if what[2] == "disconnect" {
    tokio::time::sleep(Duration::from_secs(3)).await;
  }
  s.call("a blocking log", |h| send(h, "t:last", None, true)).await?;
  s.p.say(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["t".into(), "u".into()], ..Default::default() }));
  s.serve().await?;
  let configs = what[2].contains("config");
  let logs: Vec<&str> = what[.. 2].iter().flat_map(|l| expanded(l)).filter(|e| e.contains(':')).map(|e| e.trim_start_matches('!')).chain(["t:last"]).collect();
  for (b, mark) in [("c", 'c'), ("t", 't'), ("u", 'u'), ("streamed", 's')] {
    let got: Vec<String> = s.got.remove(b).unwrap_or_default().into_iter().map(|r| r.message).collect();
    ctx.state((b, &got));
    for l in &logs {
      let to = l.split_once(':').unwrap().0;
      let n = got.iter().filter(|g| g == l).count();
      let must = to.contains(mark);
      // A buffer takes nothing while it is uploaded.
      let may = configs || what[2] == "command" && ["t", "u"].contains(&b) && *l != "t:last";
      check!(n <= usize::from(must) && (may || n == usize::from(must)), "delivered", "{b} gets {l} {n} times, after {what:?}: {got:?}");
    }
    for list in &what[.. 2] {
      let order: Vec<&str> = expanded(list).into_iter().map(|e| e.trim_start_matches('!')).filter(|e| got.iter().any(|g| g == e)).collect();
      let at: Vec<usize> = order.iter().map(|e| got.iter().position(|g| g == e).unwrap()).collect();
      check!(at.is_sorted(), "order", "{b} gets {got:?}, after {what:?}");
    }
  }
  Ok(())
}

pub fn c46(r: &mut Run) {
  crate::logs();
  let all = r.thorough();
  let n = 1;
  let text = format!("the schedules that deviate up to {n} times from the first one, or starve a thread, until all calls have returned");
  r.explore("calls", &text, Opts::dev(n), move |ctx| windowed(ctx, move |ctx, w, dirs| async move { calls(&ctx, all, w, dirs).await }));
}

pub fn c44(r: &mut Run) {
  crate::logs();
  let n = r.by_tier(4, 5);
  r.explore("first", &format!("{n} events, first of them before there is a configuration"), Opts::dev(0).memory(0), |c| explore(c, None, FIRST, n));
  let n = r.by_tier(4, 5);
  r.explore("flushes", &format!("{n} events"), Opts::dev(0).memory(0), |c| explore(c, Some(0), FLUSH, n));
  let n = r.by_tier(4, 5);
  r.explore("updates", &format!("{n} events"), Opts::dev(0).memory(0), |c| explore(c, Some(0), UPDATE, n));
  let n = r.by_tier(4, 5);
  r.explore("processes", &format!("{n} events"), Opts::dev(0).memory(0), |c| explore(c, Some(0), PROCESS, n));
}

const FIRST: &[&str] = &["config 0", "config 1", "config 2", "t:", "ct:", "ux:", "tx:", "cts:", ":f1", "u:f1", "t:f2", ":f3", "!t:", "<t:", "big", "flags", "flags F", "session", "field", "no field", "provider", "flush", "restart", "crash", "disconnect"];
const FLUSH: &[&str] = &["t:", "ctu:", "x:", ":f1", "u:f1", "t:f2", "u:f2", "c:f2", "s:f3", "cx:f3", "big", "yes", "no", "session", "command", "disconnect", "!t:", "restart"];
const UPDATE: &[&str] = &["t:f1", "u:f2", "x:f3", "tu:", "cts:x", "yes", "config 0", "config 1", "config 2", "flags", "flags w", "flags F", "flags wF", "again", "flush", "crash"];
const PROCESS: &[&str] = &["t:f1", "+t:f2", "ctu:", "!u:f2", "!t:", "<t:", "<u:f1", "yes", "session", "field", "provider", "flush", "restart", "crash", "disconnect"];
