//! C37: the stream that all goes over.

use bd_api::api::{Api, LogsUploadDecision, LogsUploadDecisionUploadImmediately, SankeyPathUploadDecision, SankeyPathUploadDecisionImmediately, SimpleNetworkQualityProvider};
use bd_api::upload::{IntentDecision, IntentResponse, Tracked, UploadResponse};
use bd_api::{ClientConfigurationUpdate, ConfigurationUpdate, DataUpload, IntoRequest, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, TriggerUpload};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_internal_logging::NoopLogger;
use bd_metadata::{Metadata, Platform};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, RuntimeManager};
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::TestTimeProvider;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Violation};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use time::OffsetDateTime;
use tokio::sync::{mpsc, oneshot};
use tokio::time::Instant;

//
// What the platform does
//

pub struct StreamRec {
  pub at: Instant,
  pub headers: BTreeMap<String, String>,
  pub tx: mpsc::Sender<StreamEvent>,
  pub sent: Vec<Vec<u8>>,
  pub sent_at: Vec<Instant>,
  pub dropped: bool,
}

#[derive(Clone, Default)]
pub struct Net(pub Arc<Mutex<Vec<StreamRec>>>);

struct Handle(Net, usize);

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(&self, tx: mpsc::Sender<StreamEvent>, _: &ConfigLoader, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut s = self.0.lock().unwrap();
    s.push(StreamRec {
      at: Instant::now(),
      headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
      tx,
      sent: vec![],
      sent_at: vec![],
      dropped: false,
    });
    Ok(Box::new(Handle(self.clone(), s.len() - 1)))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Handle {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let s = &mut self.0 .0.lock().unwrap()[self.1];
    s.sent.push(data.to_vec());
    s.sent_at.push(Instant::now());
    Ok(())
  }
}
impl Drop for Handle {
  fn drop(&mut self) {
    self.0 .0.lock().unwrap()[self.1].dropped = true;
  }
}

pub struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    [("app_id".to_string(), "the.app".to_string())].into()
  }
}

/// What a configuration has got.
#[derive(Default)]
pub struct Got {
  nonce: String,
  ready: u32,
}
pub struct Config(pub Arc<Mutex<Got>>);

#[async_trait::async_trait]
impl ConfigurationUpdate for Config {
  async fn try_apply_config(&mut self, r: &ApiResponse) -> Option<ApiRequest> {
    let Some(Response_type::ConfigurationUpdate(u)) = &r.response_type else { return None };
    self.0.lock().unwrap().nonce = u.version_nonce.clone();
    Some(ClientConfigurationUpdate(ConfigurationUpdateAck { last_applied_version_nonce: u.version_nonce.clone(), ..Default::default() }).into_request())
  }
  async fn try_load_persisted_config(&mut self) {}
  fn partial_handshake(&self) -> HandshakeRequest {
    HandshakeRequest { configuration_version_nonce: self.0.lock().unwrap().nonce.clone(), ..Default::default() }
  }
  fn on_handshake_complete(&self) {
    self.0.lock().unwrap().ready += 1;
  }
}

pub fn values(flags: &[(&str, u32)]) -> Runtime {
  Runtime {
    values: flags
      .iter()
      .map(|(k, n)| {
        let t = if k.ends_with("_enabled") { value::Type::BoolValue(*n != 0) } else { value::Type::UintValue(*n) };
        (k.to_string(), Value { type_: Some(t), ..Default::default() })
      })
      .collect(),
    ..Default::default()
  }
}
pub fn update(nonce: &str, flags: &[(&str, u32)]) -> RuntimeUpdate {
  RuntimeUpdate { version_nonce: nonce.to_string(), runtime: Some(values(flags)).into(), ..Default::default() }
}

pub struct Process {
  pub net: Net,
  pub data: mpsc::Sender<DataUpload>,
  pub triggers: mpsc::Receiver<TriggerUpload>,
  pub shutdown: Option<ComponentShutdownTrigger>,
  pub task: tokio::task::JoinHandle<anyhow::Result<()>>,
  pub config: Arc<Mutex<Got>>,
  pub quality: Arc<SimpleNetworkQualityProvider>,
  pub collector: Collector,
}

impl Process {
  pub fn new(dir: &Path, key: &str, runtime: &Arc<ConfigLoader>, time: &TestTimeProvider) -> Self {
    let net = Net::default();
    let (data, data_rx) = mpsc::channel(32);
    let (trigger_tx, triggers) = mpsc::channel(32);
    let shutdown = ComponentShutdownTrigger::default();
    let config: Arc<Mutex<Got>> = Arc::default();
    let quality = Arc::new(SimpleNetworkQualityProvider::default());
    let collector = Collector::default();
    let api = Api::new(
      dir.to_path_buf(),
      key.to_string(),
      Box::new(net.clone()),
      shutdown.make_shutdown(),
      data_rx,
      trigger_tx,
      Arc::new(Meta),
      runtime.clone(),
      vec![Box::new(RuntimeManager::new(runtime.clone())), Box::new(Config(config.clone()))],
      Arc::new(time.clone()),
      quality.clone(),
      NoopLogger::new(),
      &collector.scope("api"),
    )
    .unwrap();
    let task = tokio::spawn(api.start());
    Self { net, data, triggers, shutdown: Some(shutdown), task, config, quality, collector }
  }

  pub fn streams(&self) -> usize {
    self.net.0.lock().unwrap().len()
  }

  pub async fn receive(&self, stream: usize, bytes: &[u8]) {
    let tx = self.net.0.lock().unwrap()[stream].tx.clone();
    let _ = tx.try_send(StreamEvent::Data(bytes.to_vec()));
  }
  pub fn close(&self, stream: usize, reason: &str) {
    let tx = self.net.0.lock().unwrap()[stream].tx.clone();
    let _ = tx.try_send(StreamEvent::StreamClosed(reason.to_string()));
  }
}

/// Until there is nothing left to do, at a cost of a millisecond.
pub async fn settle() {
  tokio::time::sleep(Duration::from_millis(1)).await;
}

pub fn frame(rs: &[Response_type], compressed: bool) -> Vec<u8> {
  let mut e = Encoder::new(compressed.then_some(Compression::StatelessZlib { level: 3 }));
  rs.iter().flat_map(|r| e.encode(&ApiResponse { response_type: Some(r.clone()), ..Default::default() }).to_vec()).collect()
}

pub fn requests(stream: &StreamRec) -> Result<Vec<Request_type>, Violation> {
  let mut d = Decoder::<ApiRequest>::new(Some(Decompression::StatelessZlib), OptimizeFor::Memory);
  let mut out = vec![];
  for s in &stream.sent {
    match d.decode_data(s) {
      Ok(rs) => {
        check!(rs.len() == 1, "frame", "{} requests at a time", rs.len());
        out.push(rs[0].request_type.clone().ok_or_else(|| Violation { key: "frame".into(), msg: "an empty request".into() })?);
      },
      Err(e) => fail!("frame", "what is sent cannot be read: {e}"),
    }
  }
  Ok(out)
}

//
// Uploads
//

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
  Stats,
  LogIntent,
  Log,
  SankeyIntent,
  Sankey,
  Opaque,
}
const KINDS: [Kind; 6] = [Kind::Stats, Kind::LogIntent, Kind::Log, Kind::SankeyIntent, Kind::Sankey, Kind::Opaque];

enum Rx {
  Upload(oneshot::Receiver<UploadResponse>),
  Intent(oneshot::Receiver<IntentResponse>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Answer {
  None,
  Gone,
  Is(String, bool),
}

impl Rx {
  fn get(&mut self) -> Answer {
    match self {
      Self::Upload(r) => match r.try_recv() {
        Ok(a) => Answer::Is(a.uuid, a.success),
        Err(oneshot::error::TryRecvError::Empty) => Answer::None,
        Err(_) => Answer::Gone,
      },
      Self::Intent(r) => match r.try_recv() {
        Ok(a) => Answer::Is(a.uuid, matches!(a.decision, IntentDecision::UploadImmediately)),
        Err(oneshot::error::TryRecvError::Empty) => Answer::None,
        Err(_) => Answer::Gone,
      },
    }
  }
}

fn make(kind: Kind, uuid: &str) -> (DataUpload, Rx) {
  let u = uuid.to_string();
  macro_rules! upload {
    ($variant:ident, $rx:ident, $payload:expr) => {{
      let (t, rx) = Tracked::new(u.clone(), $payload);
      (DataUpload::$variant(t), Rx::$rx(rx))
    }};
  }
  match kind {
    Kind::Stats => upload!(StatsUploadRequest, Upload, StatsUploadRequest { upload_uuid: u.clone(), ..Default::default() }),
    Kind::LogIntent => upload!(LogsUploadIntentRequest, Intent, LogUploadIntentRequest { intent_uuid: u.clone(), ..Default::default() }),
    Kind::Log => upload!(LogsUploadRequest, Upload, LogUploadRequest { upload_uuid: u.clone(), logs: vec![vec![b'a'; 200]], ..Default::default() }),
    Kind::SankeyIntent => upload!(SankeyPathUploadIntentRequest, Intent, SankeyIntentRequest { intent_uuid: u.clone(), ..Default::default() }),
    Kind::Sankey => upload!(SankeyPathUpload, Upload, SankeyPathUploadRequest { upload_uuid: u.clone(), ..Default::default() }),
    Kind::Opaque => upload!(OpaqueRequest, Upload, OpaqueRequest { uuid: u.clone(), ..Default::default() }),
  }
}

fn answer(kind: Kind, uuid: &str, ok: bool) -> Response_type {
  let u = uuid.to_string();
  let error = if ok { String::new() } else { "no".to_string() };
  match kind {
    Kind::Stats => Response_type::StatsUpload(StatsUploadResponse { upload_uuid: u, error, ..Default::default() }),
    Kind::Log => Response_type::LogUpload(LogUploadResponse { upload_uuid: u, error, ..Default::default() }),
    Kind::Sankey => Response_type::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: u, error, ..Default::default() }),
    Kind::Opaque => Response_type::OpaqueUpload(OpaqueResponse { uuid: u, error: (!ok).then_some(error), ..Default::default() }),
    // No decision is a no.
    Kind::LogIntent => Response_type::LogUploadIntent(LogUploadIntentResponse {
      intent_uuid: u,
      decision: ok.then(|| LogsUploadDecision::UploadImmediately(LogsUploadDecisionUploadImmediately::default())),
      ..Default::default()
    }),
    Kind::SankeyIntent => Response_type::SankeyIntentResponse(SankeyIntentResponse {
      intent_uuid: u,
      decision: ok.then(|| SankeyPathUploadDecision::UploadImmediately(SankeyPathUploadDecisionImmediately::default())),
      ..Default::default()
    }),
  }
}

//
// The reference
//

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Frame {
  Handshake { runtime: String, config: String, reason: String },
  Up(Kind, String),
  RuntimeAck(String),
  ConfigAck(String),
  Ping,
  Other(String),
}

fn frame_of(r: &Request_type, now: OffsetDateTime) -> Frame {
  match r {
    Request_type::Handshake(h) => {
      let mut meta: Vec<_> = h.static_device_metadata.iter().map(|(k, v)| format!("{k}={}", v.string_data())).collect();
      meta.sort();
      if meta.join(",") != "app_id=the.app,config_version=26,kind=mobile,os=ios,sdk_version=1.2.3" {
        return Frame::Other(format!("handshake with {meta:?}"));
      }
      Frame::Handshake { runtime: h.runtime_version_nonce.clone(), config: h.configuration_version_nonce.clone(), reason: h.previous_disconnect_reason.clone() }
    },
    Request_type::StatsUpload(u) if u.sent_at.seconds == now.unix_timestamp() => Frame::Up(Kind::Stats, u.upload_uuid.clone()),
    Request_type::LogUploadIntent(u) => Frame::Up(Kind::LogIntent, u.intent_uuid.clone()),
    Request_type::LogUpload(u) if u.logs == [vec![b'a'; 200]] => Frame::Up(Kind::Log, u.upload_uuid.clone()),
    Request_type::SankeyIntent(u) => Frame::Up(Kind::SankeyIntent, u.intent_uuid.clone()),
    Request_type::SankeyPathUpload(u) => Frame::Up(Kind::Sankey, u.upload_uuid.clone()),
    Request_type::OpaqueUpload(u) => Frame::Up(Kind::Opaque, u.uuid.clone()),
    Request_type::RuntimeUpdateAck(a) if a.nack.is_none() => Frame::RuntimeAck(a.last_applied_version_nonce.clone()),
    Request_type::ConfigurationUpdateAck(a) if a.nack.is_none() => Frame::ConfigAck(a.last_applied_version_nonce.clone()),
    Request_type::Ping(_) => Frame::Ping,
    r => Frame::Other(format!("{r:?}")),
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Phase {
  /// For the server's handshake.
  Waiting,
  Connected,
  Backoff,
  Ended,
}

struct Up {
  kind: Kind,
  uuid: String,
  rx: Rx,
  /// The stream it went over.
  sent: Option<usize>,
  expect: Answer,
  /// The stream is gone, but nothing has come in its place yet.
  fading: bool,
}

#[derive(Clone, Copy, Debug)]
struct Flags {
  initial: u64,
  max: u64,
  compression: bool,
}
const FLAGS: [Flags; 2] = [Flags { initial: 500, max: 4000, compression: true }, Flags { initial: 3000, max: 3000, compression: false }];
impl Flags {
  fn list(self) -> Vec<(&'static str, u32)> {
    vec![("api.initial_backoff_interval_ms", self.initial as u32), ("api.max_backoff_interval_ms", self.max as u32), ("api.requests_compression_enabled", u32::from(self.compression))]
  }
}

struct Model {
  phase: Phase,
  stream: usize,
  frames: Vec<Frame>,
  runtime: String,
  config: String,
  flags: usize,
  /// Those the backoff goes by.
  policy: usize,
  changed: bool,
  interval: f64,
  ping: Option<u64>,
  ping_at: Option<Instant>,
  established: Instant,
  closed: Instant,
  /// Since when there is no connection.
  since: Option<Instant>,
  reason: String,
  ups: Vec<Up>,
  triggers: Vec<Vec<String>>,
  ready: u32,
  quality: NetworkQuality,
  failures: u64,
  errors: u64,
}

impl Model {
  fn begin(&mut self, at: Instant) {
    let since = *self.since.get_or_insert(at);
    self.quality = if since + Duration::from_secs(15) < at { NetworkQuality::Offline } else { NetworkQuality::Unknown };
    if std::mem::take(&mut self.changed) {
      self.policy = self.flags;
      self.interval = FLAGS[self.flags].initial as f64;
    }
    self.phase = Phase::Waiting;
    self.frames = vec![Frame::Handshake { runtime: self.runtime.clone(), config: self.config.clone(), reason: std::mem::take(&mut self.reason) }];
    self.ping = None;
    self.ping_at = None;
    for u in &mut self.ups {
      if u.sent.is_some() && u.expect == Answer::None {
        u.expect = Answer::Gone;
      }
    }
  }

  fn set_flags(&mut self, f: usize) {
    self.changed |= self.flags != f;
    self.flags = f;
  }

  fn handshake(&mut self, ping: Option<u64>, now: Instant) {
    self.phase = Phase::Connected;
    self.ping = ping;
    self.ping_at = ping.map(|p| now + Duration::from_secs(p));
    self.established = now;
    self.quality = NetworkQuality::Online;
    self.since = None;
    self.ready += 1;
    for i in 0 .. self.ups.len() {
      self.go(i);
    }
  }

  fn go(&mut self, i: usize) {
    let u = &mut self.ups[i];
    if self.phase == Phase::Connected && u.sent.is_none() {
      u.sent = Some(self.stream);
      self.frames.push(Frame::Up(u.kind, u.uuid.clone()));
    }
  }

  fn close(&mut self, reason: &str, now: Instant) {
    self.closed = now;
    self.reason = reason.to_string();
    let at_once = self.phase == Phase::Connected && now - self.established > Duration::from_secs(60);
    if self.phase == Phase::Waiting {
      self.failures += 1;
    }
    for u in &mut self.ups {
      u.fading |= u.sent == Some(self.stream);
    }
    if at_once {
      self.interval = FLAGS[self.policy].initial as f64;
      self.stream += 1;
      self.begin(now);
    } else {
      self.phase = Phase::Backoff;
    }
  }
}

fn ms(d: Duration) -> u64 {
  d.as_millis() as u64
}

async fn check_all(m: &mut Model, p: &mut Process, at: &TestTimeProvider) -> Res {
  use bd_time::TimeProvider;
  let done = p.task.is_finished();
  if done != (m.phase == Phase::Ended) {
    if done {
      let r = (&mut p.task).await;
      fail!("ended", "the API has ended: {r:?} {}", mc::last_panic());
    }
    fail!("goes-on", "the API goes on after the shutdown");
  }
  let streams = p.net.0.lock().unwrap();
  same!("streams", streams.len(), m.stream + 1, "streams that were started");
  let s = streams.last().unwrap();
  let got: Vec<Frame> = requests(s)?.iter().map(|r| frame_of(r, at.now())).collect();
  // Acks and uploads are not ordered among each other.
  let split = |f: &[Frame]| f.iter().cloned().partition::<Vec<_>, _>(|f| matches!(f, Frame::Up(..)));
  same!("frames", split(&got), split(&m.frames), "uploads and other things sent over the stream");
  check!(matches!(got[0], Frame::Handshake { .. }), "frames", "the first is no handshake");
  for (i, s) in streams.iter().enumerate() {
    if i < m.stream {
      check!(s.dropped, "kept", "stream {i} is kept when there is another one");
    }
  }
  drop(streams);
  for u in &mut m.ups {
    if u.expect == Answer::Is(String::new(), true) {
      // Was answered and taken before.
      continue;
    }
    let got = u.rx.get();
    if u.fading && u.expect == Answer::None && got == Answer::Gone {
      u.expect = Answer::Gone;
    }
    same!("answer", got, u.expect, "answer to {:?} {}", u.kind, u.uuid);
    if matches!(got, Answer::Is(..)) {
      u.expect = Answer::Is(String::new(), true);
    }
  }
  let mut triggers = vec![];
  while let Ok(t) = p.triggers.try_recv() {
    triggers.push(t.buffer_ids);
  }
  same!("triggers", triggers, std::mem::take(&mut m.triggers), "buffers to be uploaded");
  {
    let c = p.config.lock().unwrap();
    same!("ready", c.ready, m.ready, "handshakes the configuration was told of");
    same!("config", c.nonce, m.config, "configuration that was applied");
  }
  same!("quality", p.quality.get_network_quality(), m.quality, "network quality");
  let scope = p.collector.scope("api");
  same!("stats", scope.counter("stream_total").get(), m.stream as u64 + 1, "stream_total");
  same!("stats", scope.counter("remote_connect_failure").get(), m.failures, "remote_connect_failure");
  same!("stats", scope.counter("error_shutdown_total").get(), m.errors, "error_shutdown_total");
  let tx: usize = p.net.0.lock().unwrap().iter().flat_map(|s| &s.sent).map(Vec::len).sum();
  same!("stats", scope.counter("bandwidth_tx").get(), tx as u64, "bandwidth_tx");
  Ok(())
}

/// Time passes; a stream may be started, or a ping sent, and both no sooner or later than they are to.
async fn pass(m: &mut Model, p: &mut Process, d: Duration, ctx: &Ctx) -> Res {
  let tolerance = Duration::from_millis(3);
  tokio::time::sleep(d).await;
  let now = Instant::now();
  if m.phase == Phase::Backoff {
    let (lo, hi) = (m.interval * 0.5, m.interval * 1.5);
    let began = p.net.0.lock().unwrap().get(m.stream + 1).map(|s| s.at);
    match began {
      Some(at) => {
        let after = at - m.closed;
        ctx.say(|| format!("    reconnects after {} ms, of {lo} to {hi}", ms(after)));
        check!(ms(after) as f64 >= lo - 3.0 && ms(after) as f64 <= hi + 3.0, "backoff", "reconnects after {} ms and not {lo} to {hi}", ms(after));
        m.interval = (m.interval * 1.5).min(FLAGS[m.policy].max as f64);
        m.stream += 1;
        m.begin(at);
      },
      None => check!((ms(now - m.closed) as f64) < hi + 3.0, "backoff", "has not reconnected {} ms after the last stream, {lo} to {hi} was to be", ms(now - m.closed)),
    }
  }
  if m.phase == Phase::Connected {
    if let Some(at) = m.ping_at {
      if at <= now {
        let s = p.net.0.lock().unwrap();
        let s = &s[m.stream];
        let n = m.frames.len();
        check!(s.sent.len() == n + 1, "ping", "{} frames sent when it was time for one ping", s.sent.len() - n);
        let sent = s.sent_at[n];
        check!(sent >= at && sent <= at + tolerance, "ping", "the ping is {:?} early or {:?} late", at.saturating_duration_since(sent), sent.saturating_duration_since(at));
        m.frames.push(Frame::Ping);
        m.ping_at = None;
      }
    }
  }
  Ok(())
}

async fn deliver(ctx: &Ctx, m: &mut Model, p: &mut Process, rs: &[Response_type]) -> Res {
  let bytes = frame(rs, FLAGS[m.flags].compression);
  match ctx.deviate(3) {
    0 => p.receive(m.stream, &bytes).await,
    1 => {
      let (a, b) = bytes.split_at(bytes.len() / 2 + 1);
      p.receive(m.stream, a).await;
      mc::fut::settle().await;
      p.receive(m.stream, b).await;
    },
    _ => {
      for b in bytes.chunks(1) {
        p.receive(m.stream, b).await;
        mc::fut::settle().await;
      }
    },
  }
  // What is to be seen at once.
  mc::fut::settle().await;
  Ok(())
}

#[derive(Clone, Debug)]
enum Ev {
  Handshake(Option<u64>, bool),
  Error,
  Close,
  Late,
  Up(Kind),
  Ack(usize, bool),
  Pong,
  Flush,
  Runtime(usize),
  Config,
  Unknown,
  Pass(u64),
  Shutdown,
}

struct Bounds {
  depth: u32,
  kinds: &'static [Kind],
  /// Connecting and failing to, no more.
  plain: bool,
}

async fn run(ctx: &Ctx, b: &Bounds) -> Res {
  // How long a backoff is by chance: in the middle, or else as short or long as may be.
  let (c, plain) = (ctx.clone(), b.plain);
  mc_sync::set_raw_random(Some(Box::new(move || [1 << 63, 0, u64::MAX][if plain { c.deviate(3) } else { 0 }])));
  let dir = mc::Scratch::new();
  let runtime = ConfigLoader::new(dir.path());
  runtime.update_snapshot(&update("r", &FLAGS[0].list()));
  let time = TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1_000_000).unwrap());
  let mut p = Process::new(dir.path(), "key", &runtime, &time);
  let now = Instant::now();
  let mut m = Model {
    phase: Phase::Waiting,
    stream: 0,
    frames: vec![],
    // What is on the disk is loaded again.
    runtime: "r".into(),
    config: String::new(),
    flags: 0,
    policy: 0,
    changed: false,
    interval: FLAGS[0].initial as f64,
    ping: None,
    ping_at: None,
    established: now,
    closed: now,
    since: None,
    reason: String::new(),
    ups: vec![],
    triggers: vec![],
    ready: 0,
    quality: NetworkQuality::Unknown,
    failures: 0,
    errors: 0,
  };
  settle().await;
  m.begin(Instant::now());
  check_all(&mut m, &mut p, &time).await?;
  {
    let s = p.net.0.lock().unwrap();
    same!("headers", s[0].headers.get("x-bitdrift-api-key").map(String::as_str), Some("key"), "key");
    same!("headers", s[0].headers.get("x-bitdrift-app-id").map(String::as_str), Some("the.app"), "app");
    same!("headers", s[0].headers.get("content-type").map(String::as_str), Some("application/grpc"), "content type");
  }

  for i in 0 .. b.depth {
    let mut evs = vec![Ev::Pass(10)];
    match m.phase {
      Phase::Waiting => evs.extend([Ev::Handshake(None, false), Ev::Handshake(Some(8), false), Ev::Handshake(Some(8), true), Ev::Error, Ev::Close]),
      Phase::Connected => {
        evs.extend([Ev::Pass(61), Ev::Close, Ev::Error, Ev::Pong, Ev::Flush, Ev::Runtime(0), Ev::Runtime(1), Ev::Config, Ev::Unknown]);
        let open: Vec<usize> = (0 .. m.ups.len()).filter(|i| m.ups[*i].sent == Some(m.stream) && m.ups[*i].expect == Answer::None).collect();
        for k in open {
          evs.extend([Ev::Ack(k, true), Ev::Ack(k, false)]);
        }
      },
      Phase::Backoff => evs.push(Ev::Late),
      Phase::Ended => break,
    }
    if m.ups.len() < 3 {
      evs.extend(b.kinds.iter().map(|k| Ev::Up(*k)));
    }
    evs.push(Ev::Shutdown);
    if b.plain {
      evs.retain(|e| matches!(e, Ev::Pass(_) | Ev::Close | Ev::Handshake(None, _) | Ev::Runtime(_)));
    }
    let ev = ctx.pick(&evs).clone();
    ctx.say(|| format!("{i}: {ev:?}"));
    ctx.step();
    let now = Instant::now();
    match ev {
      Ev::Handshake(ping, more) => {
        let settings = ping.map(|p| StreamSettings { ping_interval: Some(Duration::from_secs(p).into()).into(), ..Default::default() });
        let mut rs = vec![Response_type::Handshake(HandshakeResponse { stream_settings: settings.into(), ..Default::default() })];
        if more {
          rs.push(Response_type::RuntimeUpdate(update(&format!("r{i}"), &FLAGS[1].list())));
          rs.push(Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["first".into()], ..Default::default() }));
          m.runtime = format!("r{i}");
          m.frames.push(Frame::RuntimeAck(m.runtime.clone()));
          m.triggers.push(vec!["first".into()]);
        }
        deliver(ctx, &mut m, &mut p, &rs).await?;
        m.set_flags(if more { 1 } else { m.flags });
        m.handshake(ping, now);
      },
      Ev::Error => {
        let r = Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 1, grpc_message: "sorry".into(), ..Default::default() });
        deliver(ctx, &mut m, &mut p, &[r]).await?;
        m.errors += 1;
        if m.phase == Phase::Waiting {
          m.close("error shutdown: sorry", now);
        }
      },
      Ev::Close => {
        p.close(m.stream, &format!("reason {i}"));
        m.close(&format!("reason {i}"), now);
      },
      Ev::Late => {
        p.close(m.stream, "late");
        p.receive(m.stream, &frame(&[Response_type::Pong(PongResponse::default())], false)).await;
      },
      Ev::Up(kind) => {
        let uuid = format!("u{i}");
        let (d, rx) = make(kind, &uuid);
        m.ups.push(Up { kind, uuid, rx, sent: None, expect: Answer::None, fading: false });
        check!(p.data.try_send(d).is_ok(), "takes", "uploads are not taken");
        m.go(m.ups.len() - 1);
      },
      Ev::Ack(k, ok) => {
        let r = answer(m.ups[k].kind, &m.ups[k].uuid, ok);
        deliver(ctx, &mut m, &mut p, &[r]).await?;
        m.ups[k].expect = Answer::Is(m.ups[k].uuid.clone(), ok);
      },
      Ev::Pong => {
        deliver(ctx, &mut m, &mut p, &[Response_type::Pong(PongResponse::default())]).await?;
        m.ping_at = m.ping.map(|p| now + Duration::from_secs(p));
      },
      Ev::Flush => {
        deliver(ctx, &mut m, &mut p, &[Response_type::FlushBuffers(FlushBuffers { buffer_id_list: vec!["a".into(), "b".into()], ..Default::default() })]).await?;
        m.triggers.push(vec!["a".into(), "b".into()]);
      },
      Ev::Runtime(f) => {
        deliver(ctx, &mut m, &mut p, &[Response_type::RuntimeUpdate(update(&format!("r{i}"), &FLAGS[f].list()))]).await?;
        m.set_flags(f);
        m.runtime = format!("r{i}");
        m.frames.push(Frame::RuntimeAck(m.runtime.clone()));
      },
      Ev::Config => {
        deliver(ctx, &mut m, &mut p, &[Response_type::ConfigurationUpdate(bd_proto::protos::client::api::ConfigurationUpdate { version_nonce: format!("c{i}"), ..Default::default() })]).await?;
        m.config = format!("c{i}");
        m.frames.push(Frame::ConfigAck(m.config.clone()));
      },
      Ev::Unknown => deliver(ctx, &mut m, &mut p, &[Response_type::OpaqueConfigurationUpdate(OpaqueConfigurationUpdate::default())]).await?,
      Ev::Pass(s) => pass(&mut m, &mut p, Duration::from_secs(s), ctx).await?,
      Ev::Shutdown => {
        m.phase = Phase::Ended;
        let t = p.shutdown.take().unwrap();
        tokio::spawn(t.shutdown());
        for u in &mut m.ups {
          if u.expect == Answer::None {
            u.expect = Answer::Gone;
          }
        }
      },
    }
    settle().await;
    check_all(&mut m, &mut p, &time).await?;
    if m.phase == Phase::Ended {
      let r = (&mut p.task).await;
      check!(matches!(r, Ok(Ok(()))), "ended", "the API ends with {r:?}");
      break;
    }
    {
      // What it was started with.
      let s = p.net.0.lock().unwrap();
      let s = s.last().unwrap();
      let compressed = m.stream == 0 || s.headers.contains_key("grpc-encoding");
      same!("headers", s.headers.contains_key("grpc-encoding"), s.headers.contains_key("grpc-accept-encoding"), "what is sent and accepted");
      for f in &s.sent {
        check!(f[0] == 0 || compressed, "compression", "compressed, but not announced");
      }
      if matches!(m.phase, Phase::Waiting) {
        same!("headers", s.headers.contains_key("grpc-encoding"), FLAGS[m.flags].compression, "compression is announced");
      }
    }
    let now = Instant::now();
    let round = |d: Duration| (ms(d) + 500) / 1000;
    let ups: Vec<_> = m.ups.iter().map(|u| (u.kind, u.sent.map(|s| s == m.stream), u.expect == Answer::None)).collect();
    let key = (
      (m.phase, m.flags, (m.policy, m.changed), m.interval as u64, m.ping, m.ping_at.map(|a| round(a.saturating_duration_since(now)))),
      (round(now - m.established).min(62), m.since.map(|s| round(now - s).min(16)), m.reason.is_empty(), ups, m.quality as u8),
      (m.runtime.len(), m.config.len(), if m.phase == Phase::Backoff { round(now - m.closed) } else { 0 }),
    );
    if ctx.known(key, b.depth - i) {
      break;
    }
  }
  p.task.abort();
  Ok(())
}

fn histories(ctx: &Ctx, b: &Bounds) -> Res {
  let rt = mc::fut::runtime();
  let r = rt.block_on(run(ctx, b));
  rt.shutdown_background();
  r
}

pub fn c37(r: &mut Run) {
  let two: &'static [Kind] = &[Kind::Stats, Kind::LogIntent];
  let deep = if r.thorough() { 8 } else { 6 };
  r.explore("histories", &format!("{deep} events, 2 kinds of uploads, 1 delivery in pieces"), Opts::dev(1).secs(600).memory(0), |c| histories(c, &Bounds { depth: deep, kinds: two, plain: false }));
  let all = if r.thorough() { 6 } else { 5 };
  r.explore("kinds", &format!("{all} events, 6 kinds of uploads"), Opts::dev(0).secs(300).memory(0), |c| histories(c, &Bounds { depth: all, kinds: &KINDS, plain: false }));
  let long = if r.thorough() { 14 } else { 12 };
  r.explore("backoff", &format!("{long} events of connections that fail or not, one backoff as short or long as may be"), Opts::dev(1).secs(300).memory(0), |c| histories(c, &Bounds { depth: long, kinds: &[], plain: true }));
  r.explore("full", "3 events, nothing left out", Opts::dev(1).full(), |c| histories(c, &Bounds { depth: 3, kinds: two, plain: false }));
}
