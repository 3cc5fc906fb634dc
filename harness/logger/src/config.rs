//! C40: the configuration that applies, and what the server is told of it.

use crate::faults::{process, silent, Faults};
use bd_api::ConfigurationUpdate as _;
use bd_client_stats_store::Collector;
use bd_logger::verif::{ApplyConfig, Config, Configuration};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiResponse, ConfigurationUpdate, RuntimeUpdate};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList};
use bd_proto::protos::filter::filter::filter::transform::{RemoveField, Transform_type};
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use bd_proto::protos::workflow::workflow::{Workflow, WorkflowsConfiguration};
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use mc_fs::Fate;
use protobuf::Message;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
  Applies,
  Refused,
  /// The process ends as it is applied.
  Ends,
}

/// Its nonce, and marks for each of its parts.
const CONFIGS: [(&str, [&str; 4]); 5] = [
  ("n0", ["a0", "", "", ""]),
  ("n1", ["a1", "b1", "c1", "d1"]),
  ("", ["", "b2", "", "d2"]),
  ("n3", ["", "", "c3", ""]),
  // Without any of it.
  ("n4", ["", "", "", ""]),
];
const PARTLESS: usize = 4;

fn update(i: usize) -> ConfigurationUpdate {
  let (nonce, [a, b, c, d]) = CONFIGS[i];
  let buffer = BufferConfig { id: a.into(), name: a.to_string(), ..Default::default() };
  let workflow = Workflow { id: b.to_string(), ..Default::default() };
  let stream = BdTailStream { stream_id: c.into(), ..Default::default() };
  let remove = Transform_type::RemoveField(RemoveField { name: d.to_string(), ..Default::default() });
  let filter = Filter { transforms: vec![Transform { transform_type: Some(remove), ..Default::default() }], ..Default::default() };
  let sotw = StateOfTheWorld {
    buffer_config_list: (!a.is_empty()).then(|| BufferConfigList { buffer_config: vec![buffer], ..Default::default() }).into(),
    workflows_configuration: (!b.is_empty()).then(|| WorkflowsConfiguration { workflows: vec![workflow], ..Default::default() }).into(),
    bdtail_configuration: (!c.is_empty()).then(|| BdTailConfigurations { active_streams: vec![stream], ..Default::default() }).into(),
    filters_configuration: (!d.is_empty()).then(|| FiltersConfiguration { filters: vec![filter], ..Default::default() }).into(),
    ..Default::default()
  };
  ConfigurationUpdate { version_nonce: nonce.to_string(), update_type: (i != PARTLESS).then_some(Update_type::StateOfTheWorld(sotw)), ..Default::default() }
}

#[derive(Default)]
struct Applied {
  way: Option<Way>,
  /// As far as they are any that was sent.
  all: Vec<Result<usize, String>>,
}

struct Applier(Arc<Mutex<Applied>>);

#[async_trait::async_trait]
impl ApplyConfig for Applier {
  async fn apply_configuration(&mut self, c: Configuration) -> anyhow::Result<()> {
    let text = format!("{c:?}");
    let of = (0 .. PARTLESS).find(|i| {
      let marks = CONFIGS[*i].1;
      CONFIGS.iter().flat_map(|c| c.1).filter(|m| !m.is_empty()).all(|m| text.contains(&format!("\"{m}\"")) == marks.contains(&m))
    });
    let way = {
      let mut a = self.0.lock().unwrap();
      a.all.push(of.ok_or(text));
      a.way.unwrap_or(Way::Applies)
    };
    match way {
      Way::Applies => Ok(()),
      Way::Refused => anyhow::bail!("it is refused"),
      Way::Ends => std::panic::resume_unwind(Box::new(mc_fs::End)),
    }
  }
}

fn now<T>(f: impl std::future::Future<Output = T>) -> T {
  let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = T> + '_>> = Box::pin(f);
  mc::fut::now(&mut f).expect("it waits")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Model {
  /// What may be in the cache.
  cached: BTreeSet<Option<usize>>,
}

impl Model {
  fn is(&mut self, c: Option<usize>) {
    self.cached = [c].into();
  }
  /// Something is done to the cache, after which it has `c`.
  fn become_(&mut self, c: Option<usize>, faults: &Faults) {
    let struck = faults.take().iter().any(|f| f.1 != Fate::Go);
    if struck {
      self.cached.insert(c);
      self.cached.insert(None);
    } else {
      self.is(c);
    }
  }
}

fn one(ctx: &Ctx, dir: &Path, m: &mut Model, faults: &Faults, ways: &[Way], steps: u32) -> Res {
  let applied: Arc<Mutex<Applied>> = Arc::default();
  let collector = Collector::default();
  let Some(config) = process(|| Config::new(dir, Applier(applied.clone()), &collector.scope(""))) else { return Ok(()) };
  let Ok(mut config) = config else { fail!("start", "it does not start: {:?}", config.err()) };
  faults.take();
  let nonce = |config: &Config<Applier>| config.partial_handshake().configuration_version_nonce;
  same!("nonce", nonce(&config), "", "the nonce before anything was loaded");
  let mut at = "";

  // What was cached.
  let way = *ctx.pick(ways);
  applied.lock().unwrap().way = Some(way);
  let done = process(|| now(config.try_load_persisted_config()));
  let got = std::mem::take(&mut applied.lock().unwrap().all);
  ctx.say(|| format!("starts with {got:?}, of {:?}; {way:?}", m.cached));
  check!(got.len() <= 1, "twice", "{got:?} are applied as it starts");
  let struck = faults.0.borrow().iter().any(|f| f.1 != Fate::Go);
  match got.first() {
    Some(Err(e)) => fail!("never", "{e} is applied, and was never sent"),
    Some(Ok(i)) => {
      check!(m.cached.contains(&Some(*i)), "loaded", "{i} is loaded, of {:?}", m.cached);
      m.is(None);
      if way == Way::Applies {
        at = CONFIGS[*i].0;
        // It is in the cache again unless it could not be written.
        m.become_(Some(*i), faults);
      }
    },
    None => {
      // Reading it may have failed, or removing it.
      check!(struck || m.cached.contains(&None), "loaded", "nothing is loaded, of {:?}", m.cached);
      if struck {
        m.cached.insert(None);
      } else {
        m.is(None);
      }
    },
  }
  faults.take();
  if done.is_none() {
    return Ok(());
  }
  same!("nonce", nonce(&config), at, "the nonce after what was cached is loaded");

  for _ in 0 .. steps {
    let k = ctx.choose(CONFIGS.len() + 2);
    if k == 0 {
      break;
    }
    if k > CONFIGS.len() {
      // One that is about something else.
      let r = ApiResponse { response_type: Some(Response_type::RuntimeUpdate(RuntimeUpdate::default())), ..Default::default() };
      check!(now(config.try_apply_config(&r)).is_none(), "answer", "an answer to a runtime update");
      check!(applied.lock().unwrap().all.is_empty(), "never", "a runtime update is applied");
      continue;
    }
    let i = k - 1;
    let way = if i == PARTLESS { Way::Refused } else { *ctx.pick(ways) };
    ctx.say(|| format!("    {i}, {way:?}"));
    applied.lock().unwrap().way = Some(way);
    let r = ApiResponse { response_type: Some(Response_type::ConfigurationUpdate(update(i))), ..Default::default() };
    let ack = process(|| now(config.try_apply_config(&r)));
    let got = std::mem::take(&mut applied.lock().unwrap().all);
    same!("applied", got, if i == PARTLESS { vec![] } else { vec![Ok(i)] }, "what is applied of {i}");
    match way {
      Way::Applies => {
        m.become_(Some(i), faults);
        at = CONFIGS[i].0;
      },
      _ => check!(faults.take().iter().all(|f| !f.0.changes), "cache", "{i} is not applied, and the cache is changed"),
    }
    let Some(ack) = ack else { return Ok(()) };
    let Some(Request_type::ConfigurationUpdateAck(ack)) = ack.and_then(|a| a.request_type) else { fail!("ack", "there is no ack of {i}") };
    same!("ack", ack.nack.as_ref().map(|n| n.version_nonce.as_str()), (way == Way::Refused).then_some(CONFIGS[i].0), "what is refused");
    check!(ack.nack.is_none() || !ack.nack.error_details.is_empty(), "ack", "no reason is given");
    same!("last", ack.last_applied_version_nonce, at, "the one that is said to be applied");
    same!("nonce", nonce(&config), at, "the nonce in a handshake");
    ctx.step();
  }
  Ok(())
}

const ALL: [Way; 3] = [Way::Applies, Way::Refused, Way::Ends];

fn histories(ctx: &Ctx, starts: u32, ways: &[Way], steps: u32) -> Res {
  silent();
  let dir = mc::Scratch::new();
  let mut m = Model { cached: [None].into() };
  for i in 0 .. starts {
    let faults = Faults::new(ctx, |_| true);
    one(ctx, dir.path(), &mut m, &faults, ways, steps)?;
    drop(faults);
    ctx.step();
    let file = std::fs::read(dir.path().join("config.pb")).ok();
    ctx.say(|| format!("{m:?} {file:?}"));
    if ctx.known((&m, file), starts - i) {
      break;
    }
  }
  // And it goes on.
  for kept in [false, true] {
    let applied: Arc<Mutex<Applied>> = Arc::default();
    let mut config = Config::new(dir.path(), Applier(applied.clone()), &Collector::default().scope("")).unwrap();
    now(config.try_load_persisted_config());
    if kept {
      same!("recovers", applied.lock().unwrap().all, [Ok(1)], "what is loaded after faults are over");
    }
    let r = ApiResponse { response_type: Some(Response_type::ConfigurationUpdate(update(1))), ..Default::default() };
    now(config.try_apply_config(&r));
  }
  Ok(())
}

/// What is on the disk is cut short, or has a bit flipped.
fn files(ctx: &Ctx) -> Res {
  silent();
  let dir = mc::Scratch::new();
  let file = dir.path().join("config.pb");
  let i = ctx.choose(CONFIGS.len());
  let whole = update(i).write_to_bytes().unwrap();
  let (data, good) = match ctx.choose(2) {
    0 => {
      let n = ctx.choose(whole.len() + 1);
      (whole[.. n].to_vec(), n == whole.len())
    },
    _ => {
      let (at, bit) = (ctx.choose(whole.len().max(1)), ctx.choose(8));
      let mut d = whole.clone();
      if let Some(b) = d.get_mut(at) {
        *b ^= 1 << bit;
      }
      (d, false)
    },
  };
  let cut = data.len() < whole.len();
  std::fs::write(&file, &data).unwrap();
  ctx.say(|| format!("{data:?} of {i}"));
  ctx.state((i, &data));
  let applied: Arc<Mutex<Applied>> = Arc::default();
  let mut config = Config::new(dir.path(), Applier(applied.clone()), &Collector::default().scope("")).unwrap();
  now(config.try_load_persisted_config());
  let got = std::mem::take(&mut applied.lock().unwrap().all);
  if good && i != PARTLESS {
    same!("loaded", got, [Ok(i)], "what is loaded");
  }
  if cut || i == PARTLESS && good {
    same!("loaded", got, [], "what is loaded of a file that is cut short");
  }
  same!("kept", file.exists(), !got.is_empty(), "whether the file is still there when {got:?} was loaded");
  let r = ApiResponse { response_type: Some(Response_type::ConfigurationUpdate(update(1))), ..Default::default() };
  now(config.try_apply_config(&r));
  let mut config = Config::new(dir.path(), Applier(applied.clone()), &Collector::default().scope("")).unwrap();
  applied.lock().unwrap().all.clear();
  now(config.try_load_persisted_config());
  same!("recovers", applied.lock().unwrap().all, [Ok(1)], "what is loaded after that");
  Ok(())
}

pub fn c40(r: &mut Run) {
  let t = r.thorough();
  let (a, b) = if t { (5, 4) } else { (4, 3) };
  r.explore("histories", &format!("{a} processes of {b} steps each"), Opts::dev(0).memory(0), |c| histories(c, a, &ALL, b));
  let (a, b) = if t { (5, 3) } else { (4, 2) };
  r.explore("faults", &format!("{a} processes of {b} steps each, one operation on files fails or is the last"), Opts::dev(1).memory(0), |c| histories(c, a, &ALL, b));
  let (a, b) = if t { (4, 2) } else { (3, 2) };
  r.explore("two-faults", &format!("{a} processes of {b} steps each, two such operations"), Opts::dev(2).memory(0), |c| histories(c, a, &ALL[.. 2], b));
  r.explore("files", "files of five configurations, cut short anywhere, or with any bit flipped", Opts::default().memory(0), files);
  r.explore("full", "2 processes of 2 steps each, one operation fails, nothing left out", Opts::dev(1).full(), |c| histories(c, 2, if t { &ALL } else { &ALL[.. 2] }, 2));
}
