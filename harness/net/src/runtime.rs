//! C39: runtime values, kept over restarts, and not when they may be what ends the process.

use crate::api::update;
use crate::faults::{process, Faults};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_runtime::runtime::{api, log_upload, BoolWatch, ConfigLoader, DurationWatch, FeatureFlag, IntWatch, RuntimeManager};
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use mc_fs::Fate;
use protobuf::Message;
use std::path::Path;
use std::sync::Arc;

type Compression = BoolWatch<api::CompressionEnabled>;
type Backoff = DurationWatch<api::MaxBackoffInterval>;
type Batch = IntWatch<log_upload::BatchSizeFlag>;

const NAMES: [&str; 3] = ["api.requests_compression_enabled", "api.max_backoff_interval_ms", "log_uploader.batch_size"];
const DEFAULTS: [u64; 3] = [1, 300_000, 1000];

/// None: whatever the default is.
const CONFIGS: [(&str, [Option<u32>; 3]); 4] = [
  ("one", [Some(0), Some(7000), Some(5)]),
  ("two", [None, Some(7000), Some(6)]),
  ("three", [Some(1), Some(300_000), None]),
  ("none", [None, None, None]),
];

fn config(i: usize) -> RuntimeUpdate {
  let (nonce, v) = CONFIGS[i];
  let flags: Vec<_> = NAMES.iter().zip(v).filter_map(|(n, v)| v.map(|v| (*n, v))).collect();
  update(nonce, &flags)
}
fn expected(i: Option<usize>) -> [u64; 3] {
  let mut out = DEFAULTS;
  if let Some(i) = i {
    for (o, v) in out.iter_mut().zip(CONFIGS[i].1) {
      *o = v.map_or(*o, u64::from);
    }
  }
  out
}

struct Watches {
  a: Compression,
  b: Backoff,
  c: Batch,
  /// What was marked as seen.
  seen: [u64; 3],
  /// Whether something else was there since.
  moved: [bool; 3],
}

impl Watches {
  fn new(l: &ConfigLoader) -> Self {
    let (mut a, mut b, mut c): (Compression, Backoff, Batch) = (l.register_watch().unwrap(), l.register_watch().unwrap(), l.register_watch().unwrap());
    let seen = [u64::from(a.read_mark_update()), b.read_mark_update().whole_milliseconds() as u64, u64::from(c.read_mark_update())];
    Self { a, b, c, seen, moved: [false; 3] }
  }
  fn values(&self) -> [u64; 3] {
    [u64::from(self.a.read()), self.b.read().whole_milliseconds() as u64, u64::from(self.c.read())]
  }
  fn changed(&self) -> [bool; 3] {
    [self.a.has_changed(), self.b.has_changed(), self.c.has_changed()]
  }
  fn mark(&mut self) {
    self.a.read_mark_update();
    self.b.read_mark_update();
    self.c.read_mark_update();
    self.seen = self.values();
    self.moved = [false; 3];
  }
  /// Values are now those of `i`.
  fn check(&mut self, before: [u64; 3], i: Option<usize>) -> Res {
    let now = expected(i);
    same!("values", self.values(), now, "values that are watched, after {before:?}");
    for k in 0 .. 3 {
      self.moved[k] |= before[k] != now[k];
    }
    same!("changed", self.changed(), self.moved, "changes that are announced, from {before:?} to {now:?}");
    Ok(())
  }
}

/// What there is, by the nonce. A nonce that is empty is as good as none.
fn current(l: &Arc<ConfigLoader>) -> Result<Option<usize>, mc::Violation> {
  let nonce = RuntimeManager::new(l.clone()).version_nonce().unwrap_or_default();
  let i = if nonce.is_empty() {
    None
  } else {
    match CONFIGS.iter().position(|c| c.0 == nonce) {
      Some(i) => Some(i),
      None => fail!("nonce", "the version is {nonce:?}, which never was"),
    }
  };
  let s = l.snapshot();
  let got = [
    u64::from(s.get_bool(NAMES[0], <api::CompressionEnabled as FeatureFlag<bool>>::default())),
    s.get_duration(NAMES[1], <api::MaxBackoffInterval as FeatureFlag<time::Duration>>::default()).whole_milliseconds() as u64,
    u64::from(s.get_integer(NAMES[2], <log_upload::BatchSizeFlag as FeatureFlag<u32>>::default())),
  ];
  same!("values", got, expected(i), "values of {nonce:?}");
  Ok(i)
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Model {
  /// On the disk, if there was no fault.
  cached: Option<usize>,
  /// Starts since the server was last heard of.
  starts: u32,
  /// All that was ever delivered.
  delivered: u32,
  /// A fault has struck.
  struck: bool,
  /// Starts in a row that took what was cached, and ended before the server was heard of.
  taken: u32,
}

/// As many times what is cached is given a chance.
const CHANCES: u32 = 6;

fn one(ctx: &Ctx, dir: &Path, m: &mut Model, faults: &Faults, configs: usize, steps: u32) -> Res {
  let struck = |m: &mut Model, cached: Option<usize>| {
    let f = faults.take();
    if f.iter().any(|f| f.1 != Fate::Go) {
      m.struck = true;
    }
    let _ = cached;
  };
  let Some(l) = process(|| ConfigLoader::new(dir)) else {
    struck(m, None);
    return Ok(());
  };
  // Whether somebody watches before it is loaded.
  let mut early = ctx.flip().then(|| Watches::new(&l));
  let loaded = process(|| l.handle_cached_config());
  struck(m, None);
  if loaded.is_none() {
    m.starts += 1;
    // Whether it was taken is not known; nothing was done with it.
    return Ok(());
  }
  let i = current(&l)?;
  ctx.say(|| format!("starts with {i:?}"));
  if let Some(i) = i {
    check!(m.delivered & (1 << i) != 0, "never", "{:?} is loaded, and was never delivered", CONFIGS[i].0);
    m.taken += 1;
    check!(m.taken <= CHANCES, "loop", "what is cached is loaded for the {}th time, and the server was not heard of since", m.taken);
  }
  if !m.struck {
    m.starts += 1;
    if m.starts > CHANCES {
      m.cached = None;
    }
    same!("loaded", i, m.cached, "what is loaded at start {}", m.starts);
    if i.is_none() {
      m.starts = 0;
    }
  }
  if let Some(w) = &mut early {
    w.check(DEFAULTS, i)?;
  }
  let mut late = Watches::new(&l);
  same!("values", late.values(), expected(i), "values that are watched");
  let mut at = i;
  for _ in 0 .. steps {
    match ctx.choose(3 + configs) {
      0 => break,
      k if k <= configs => {
        let k = k - 1;
        ctx.say(|| format!("    update to {:?}", CONFIGS[k].0));
        m.delivered |= 1 << k;
        let before = expected(at);
        let done = process(|| RuntimeManager::new(l.clone()).process_update(&config(k)));
        struck(m, None);
        m.taken = 0;
        m.starts = 0;
        m.cached = Some(k);
        if done.is_none() {
          return Ok(());
        }
        at = current(&l)?;
        same!("applied", at, Some(k), "what is applied");
        late.check(before, at)?;
        if let Some(e) = &mut early {
          e.check(before, at)?;
        }
      },
      k if k == configs + 1 => {
        ctx.say(|| "    the server is heard of".into());
        let done = process(|| RuntimeManager::new(l.clone()).server_is_available());
        struck(m, None);
        m.starts = 0;
        m.taken = 0;
        if done.is_none() {
          return Ok(());
        }
        same!("applied", current(&l)?, at, "what is applied");
      },
      _ => late.mark(),
    }
    ctx.step();
  }
  Ok(())
}

fn histories(ctx: &Ctx, starts: u32, configs: usize, steps: u32) -> Res {
  crate::faults::silent();
  let dir = mc::Scratch::new();
  let mut m = Model { cached: None, starts: 0, delivered: 0, struck: false, taken: 0 };
  for i in 0 .. starts {
    let faults = Faults::new(ctx, |_| true);
    one(ctx, dir.path(), &mut m, &faults, configs, steps)?;
    drop(faults);
    ctx.step();
    let read = |f: &str| std::fs::read(dir.path().join("runtime").join(f)).ok();
    let files = (dir.path().join("runtime").exists(), read("retry_count"), read("update.pb").map(|b| bd_client_common::file::read_compressed_protobuf::<RuntimeUpdate>(&b).map_or(format!("{b:?}"), |u| u.version_nonce)));
    ctx.say(|| format!("{m:?} {files:?}"));
    if ctx.known((&m, files), starts - i) {
      break;
    }
  }
  // However it went, what the server says now is kept, if it can be.
  let mut kept = false;
  for _ in 0 .. 2 {
    let l = ConfigLoader::new(dir.path());
    l.handle_cached_config();
    if kept {
      same!("recovers", current(&l)?, Some(0), "what is loaded after faults are over");
    }
    l.update_snapshot(&config(0));
    kept = true;
  }
  Ok(())
}

/// What is on the disk is cut short, or is something else.
fn files(ctx: &Ctx) -> Res {
  crate::faults::silent();
  let dir = mc::Scratch::new();
  let k = ctx.choose(4);
  let l = ConfigLoader::new(dir.path());
  l.update_snapshot(&config(k));
  drop(l);
  let (pb, count) = (dir.path().join("runtime/update.pb"), dir.path().join("runtime/retry_count"));
  // In the order that is here, and as it used to be written.
  let plain: Vec<u8> = {
    let (nonce, v) = CONFIGS[k];
    let flags = NAMES.iter().zip(v).filter_map(|(n, v)| v.map(|v| update("", &[(*n, v)])));
    std::iter::once(update(nonce, &[])).chain(flags).flat_map(|m| m.write_to_bytes().unwrap()).collect()
  };
  let whole = {
    let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(3));
    std::io::Write::write_all(&mut z, &plain).unwrap();
    z.finish().unwrap()
  };
  let data: Option<Vec<u8>> = match ctx.choose(3) {
    0 => None,
    1 => Some(whole[.. ctx.choose(whole.len() + 1)].to_vec()),
    _ => Some(plain.clone()),
  };
  match &data {
    Some(d) => std::fs::write(&pb, d).unwrap(),
    None => std::fs::remove_file(&pb).unwrap(),
  }
  const COUNTS: [Option<&[u8]>; 13] =
    [None, Some(b""), Some(b"0"), Some(b"5"), Some(b"6"), Some(b"x"), Some(b"4294967295"), Some(b"4294967296"), Some(b"-1"), Some(b"00"), Some(b"0\n"), Some(b"\xff"), Some(b"+0")];
  let c = *ctx.pick(&COUNTS);
  match c {
    Some(c) => std::fs::write(&count, c).unwrap(),
    None => std::fs::remove_file(&count).unwrap(),
  }
  ctx.say(|| format!("count {c:?}, config {data:?}"));
  let l = ConfigLoader::new(dir.path());
  l.handle_cached_config();
  let i = current(&l)?;
  check!(i.is_none() || i == Some(k), "never", "{i:?} is loaded and not {k}");
  let good = data.as_ref().is_some_and(|d| *d == whole || *d == plain);
  let valid = matches!(c, Some(b"0" | b"5" | b"00" | b"+0"));
  if good && valid {
    same!("loaded", i, Some(k), "what is loaded");
  }
  if !good || !valid {
    same!("loaded", i, None, "what is loaded");
  }
  if !valid {
    check!(!pb.exists() && !count.exists(), "wiped", "what is not to be loaded stays");
  }
  ctx.state((k, data, c));
  // And it goes on.
  l.update_snapshot(&config(1));
  let l = ConfigLoader::new(dir.path());
  l.handle_cached_config();
  same!("recovers", current(&l)?, Some(1), "what is loaded after that");
  Ok(())
}

/// Somebody starts to watch as an update comes in.
fn concurrent(ctx: &Ctx) -> Res {
  let (a, b, early) = (ctx.choose(4), ctx.choose(4), ctx.flip());
  ctx.state((a, b, early));
  ctx.step();
  ctx.under(move || {
    let dir = mc::Scratch::new();
    let l = ConfigLoader::new(dir.path());
    l.update_snapshot(&config(a));
    let early = early.then(|| Watches::new(&l));
    let updater = {
      let l = l.clone();
      mc::th::spawn(move || l.update_snapshot(&config(b)))
    };
    let watcher = {
      let l = l.clone();
      mc::th::spawn(move || Watches::new(&l))
    };
    updater.join().unwrap();
    let w = watcher.join().unwrap();
    same!("values", w.values(), expected(Some(b)), "values watched from the moment they change from {a} to {b}");
    if let Some(e) = early {
      same!("values", e.values(), expected(Some(b)), "values watched since before they change from {a} to {b}");
    }
    same!("applied", current(&l)?, Some(b), "what is applied");
    Ok(())
  })
}

pub fn c39(r: &mut Run) {
  let t = r.thorough();
  let (a, b) = if t { (4, 3) } else { (3, 3) };
  r.explore("histories", &format!("{a} processes of {b} steps each"), Opts::dev(0).memory(0), |c| histories(c, a, 4, b));
  let a = if t { 10 } else { 9 };
  r.explore("loop", &format!("{a} processes of one step each"), Opts::dev(0).memory(0), |c| histories(c, a, 4, 1));
  let a = if t { 11 } else { 9 };
  r.explore("faults", &format!("{a} processes of one step each, one operation on files fails or is the last"), Opts::dev(1).memory(0), |c| histories(c, a, 2, 1));
  let a = if t { 6 } else { 4 };
  r.explore("two-faults", &format!("{a} processes of one step each, two such operations"), Opts::dev(2).memory(0), |c| histories(c, a, 2, 1));
  r.explore("files", "files cut short anywhere, 13 retry counts", Opts::default().memory(0), files);
  let p = if t { 3 } else { 2 };
  r.explore("concurrent", &format!("an update as another thread starts to watch; all schedules of {p} preemptions"), Opts::dev(p).threads(3).memory(0), concurrent);
  r.explore("full", "2 processes of 2 steps each, one operation fails, nothing left out", Opts::dev(1).full(), |c| histories(c, 2, 2, 2));
}
