//! C49: what is added to a log about traffic, the network and the logger itself is what it was.

use crate::upload::runtime;
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogFieldValue, LogInterceptor, LogMessage, LogType};
use bd_logger::verif::{traffic_tracker, NetworkQualityInterceptor, Reporter};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_runtime::runtime::ConfigLoader;
use mc::{check, same, Ctx, Opts, Res, Run};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn field(key: &str, value: LogFieldValue) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.into(), value }, kind: LogFieldKind::Ootb }
}
fn text(key: &str, value: impl ToString) -> AnnotatedLogField {
  field(key, value.to_string().into())
}

/// What comes after what was there, which is to be left as it is.
fn added(i: &dyn LogInterceptor, t: LogType, m: &LogMessage, fields: &AnnotatedLogFields) -> Result<Vec<(String, String)>, mc::Violation> {
  let mut f = fields.clone();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.process(2, t, m, &mut f)));
  check!(r.is_ok(), "panic", "{t:?} {m:?} {fields:?}: {}", mc::last_panic());
  check!(f.len() >= fields.len() && f[.. fields.len()] == fields[..], "changed", "{fields:?} are then {f:?}");
  let new = f[fields.len() ..].iter();
  check!(new.clone().all(|f| f.kind == LogFieldKind::Ootb), "kind", "of {f:?}");
  let mut v: Vec<_> = new.map(|f| (f.field.key.clone(), f.field.value.as_str().unwrap_or("bytes").to_string())).collect();
  v.sort();
  Ok(v)
}

struct Quality(Mutex<NetworkQuality>);
impl NetworkQualityProvider for Quality {
  fn get_network_quality(&self) -> NetworkQuality {
    *self.0.lock().unwrap()
  }
  fn set_network_quality(&self, q: NetworkQuality) {
    *self.0.lock().unwrap() = q;
  }
}

const COUNTS: [&str; 4] =
  ["_request_body_bytes_sent_count", "_request_headers_bytes_count", "_response_body_bytes_received_count", "_response_headers_bytes_count"];

/// The fields of a response, and what they count for.
fn responses() -> Vec<(AnnotatedLogFields, [u64; 4])> {
  vec![
    (vec![text(COUNTS[0], 1), text(COUNTS[1], 20), text(COUNTS[2], 300), text(COUNTS[3], 4000)], [1, 20, 300, 4000]),
    (vec![text("_status_code", 200), text(COUNTS[2], 7)], [0, 0, 7, 0]),
    (vec![text(COUNTS[0], "x"), text(COUNTS[1], -1), text(COUNTS[3], "5.0"), field(COUNTS[2], vec![1].into()), text("_status_code", "x")], [0; 4]),
    (vec![text(COUNTS[0], u64::MAX)], [u64::MAX, 0, 0, 0]),
  ]
}

fn traffic(ctx: &Ctx, depth: u32) -> Res {
  let quality = Arc::new(Quality(Mutex::new(NetworkQuality::Unknown)));
  let start = Instant::now();
  let secs = Arc::new(AtomicU64::new(0));
  let tracker = {
    let secs = secs.clone();
    traffic_tracker(move || start + Duration::from_millis(secs.load(SeqCst) * 500), quality.clone())
  };
  let responses = responses();
  // Since when, and how much.
  let mut spans = vec![(0u64, [0u64; 4])];
  for i in 0 .. depth {
    let now = secs.load(SeqCst);
    match ctx.choose(9) {
      // Half a second, half a minute, and a minute.
      k @ (0 ..= 2) => {
        secs.store(now + [1, 60, 120][k], SeqCst);
      },
      k @ (3 ..= 6) => {
        let (fields, counts) = &responses[k - 3];
        *quality.0.lock().unwrap() = NetworkQuality::Offline;
        same!("added", added(&*tracker, LogType::Span, &"HTTPResponse".into(), fields)?, vec![], "to a response");
        let online = *quality.0.lock().unwrap() == NetworkQuality::Online;
        same!("online", online, k == 4, "that a response with {fields:?} means to be online");
        for (a, b) in spans.last_mut().unwrap().1.iter_mut().zip(counts) {
          *a = a.saturating_add(*b);
        }
      },
      7 => {
        let got = added(&*tracker, LogType::Resource, &"".into(), &vec![text("own", 1)])?;
        let before = spans.len();
        spans.retain(|(at, _)| now - at <= 120);
        let want = if spans.len() == before {
          vec![]
        } else {
          let mut sum = [0u64; 4];
          for (_, c) in &spans {
            for (a, b) in sum.iter_mut().zip(c) {
              *a = a.saturating_add(*b);
            }
          }
          let [a, b, c, d] = sum;
          let mut v: Vec<_> = [
            ("_request_bytes_per_min_count", a.saturating_add(b)),
            ("_request_body_bytes_per_min_count", a),
            ("_request_headers_bytes_per_min_count", b),
            ("_response_bytes_per_min_count", c.saturating_add(d)),
            ("_response_body_bytes_per_min_count", c),
            ("_response_headers_bytes_per_min_count", d),
          ]
          .map(|(k, v)| (k.to_string(), v.to_string()))
          .into();
          v.sort();
          v
        };
        same!("traffic", got, want, "what is said of the last minute, at half-second {now}");
        spans.push((now, [0; 4]));
      },
      _ => {
        // What looks similar is neither.
        let all = responses[0].0.clone();
        let which = ctx.choose(5);
        let (t, m): (LogType, LogMessage) = [
          (LogType::Normal, "HTTPResponse".into()),
          (LogType::Span, "HTTPRequest".into()),
          (LogType::Span, LogMessage::Bytes(b"HTTPResponse".to_vec())),
          (LogType::Resource, "x".into()),
          (LogType::Resource, LogMessage::Bytes(vec![])),
        ][which]
          .clone();
        same!("added", added(&*tracker, t, &m, &all)?, vec![], "to {t:?} {m:?}");
      },
    }
    ctx.step();
    let now = secs.load(SeqCst);
    if ctx.known(spans.iter().map(|(at, c)| ((now - at).min(121), c)).collect::<Vec<_>>(), depth - i) {
      break;
    }
  }
  Ok(())
}

/// As it goes: a resource log every so often, for minutes.
fn steady(ctx: &Ctx) -> Res {
  let quality = Arc::new(Quality(Mutex::new(NetworkQuality::Unknown)));
  let start = Instant::now();
  let secs = Arc::new(AtomicU64::new(0));
  let tracker = {
    let secs = secs.clone();
    traffic_tracker(move || start + Duration::from_secs(secs.load(SeqCst)), quality)
  };
  let every = *ctx.pick(&[1u64, 2, 3, 5, 6, 7, 10, 20, 30, 45, 60]);
  let one_in = 1 + ctx.choose(7) as u64;
  let late = ctx.choose(3) as u64;
  let mut all = vec![];
  let mut reports = vec![];
  for now in 1 ..= 300u64 {
    secs.store(now, SeqCst);
    if now % one_in == 0 {
      added(&*tracker, LogType::Span, &"HTTPResponse".into(), &vec![text(COUNTS[1], now), text(COUNTS[2], 1)])?;
      all.push(now);
    }
    // Now and then one comes late.
    if now % every == 0 && now / every % 7 != late + 4 {
      let got = added(&*tracker, LogType::Resource, &"".into(), &vec![])?;
      let since = reports.iter().copied().chain([0]).filter(|r| now - r <= 60).min().unwrap_or(now);
      let mine: Vec<u64> = all.iter().copied().filter(|t| *t > since).collect();
      let of = |k: &str| got.iter().find(|(a, _)| a == k).map(|(_, v)| v.parse::<u64>().unwrap());
      if !got.is_empty() {
        same!("last minute", of("_request_bytes_per_min_count"), Some(mine.iter().sum()), "of requests, at {now} s, with a resource log every {every} s, a response every {one_in} s");
        same!("last minute", of("_response_bytes_per_min_count"), Some(mine.len() as u64), "of responses, at {now} s, with a resource log every {every} s, a response every {one_in} s");
      }
      check!(got.is_empty() || now > 60, "reported", "at {now} s, with a resource log every {every} s: {got:?}");
      // Whenever there was one from before that.
      let dropped = reports.iter().copied().chain([0]).any(|r| now - r > 60 && reports.last().is_none_or(|l| l - r <= 60));
      check!(got.is_empty() != dropped, "reported", "at {now} s, with a resource log every {every} s: {got:?}");
      reports.push(now);
    }
    ctx.step();
  }
  ctx.state((every, one_in, late));
  Ok(())
}

const TYPES: [(LogType, Option<&str>); 9] = [
  (LogType::Normal, Some("normal")),
  (LogType::Replay, Some("replay")),
  (LogType::Lifecycle, Some("lifecycle")),
  (LogType::Resource, Some("resource")),
  (LogType::InternalSDK, Some("internal")),
  (LogType::View, None),
  (LogType::Device, Some("device")),
  (LogType::UX, None),
  (LogType::Span, Some("network")),
];
const NAMED: [&str; 7] = ["device", "internal", "network", "normal", "lifecycle", "replay", "resource"];

fn own_counts(ctx: &Ctx, depth: u32) -> Res {
  let dir = mc::Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  let reporter = Reporter::new(&loader);
  let mut on = false;
  let mut since: Vec<&str> = vec![];
  let mut ever: Vec<&str> = vec![];
  let mut total = (0, 0);
  let a = ctx.choose(TYPES.len());
  let ops = [a, (a + 1) % TYPES.len(), 9, 10, 11];
  for _ in 0 .. depth {
    let k = *ctx.pick(&ops);
    if k == 11 {
      on = !on;
      loader.update_snapshot(&runtime(&[("internal_logging.periodic_logs.enabled", u32::from(on))]));
    } else {
      // A resource log, and those that only look like one.
      let (t, m): (usize, LogMessage) = match k {
        9 => (3, "".into()),
        10 => (3, LogMessage::Bytes(vec![])),
        k if k == 3 => (3, "resources".into()),
        k => (k, "".into()),
      };
      if let Some(name) = TYPES[t].1 {
        since.push(name);
        ever.push(name);
      }
      total = (total.0 + 1, total.1 + 1);
      let got = added(&reporter, TYPES[t].0, &m, &vec![text("own", 1)])?;
      let mut want = vec![];
      if k == 9 && on {
        want = vec![("_logs_count".to_string(), total.0.to_string()), ("_logs_total_count".to_string(), total.1.to_string())];
        for n in NAMED {
          let of = |v: &[&str]| v.iter().filter(|x| **x == n).count().to_string();
          want.push((format!("_{n}_logs_count"), of(&since)));
          want.push((format!("_{n}_logs_total_count"), of(&ever)));
        }
        want.sort();
        since.clear();
        total.0 = 0;
      }
      same!("counts", got, want, "what is added to {:?} {m:?}", TYPES[t].0);
    }
    ctx.step();
    let (mut s, mut e) = (since.clone(), ever.clone());
    s.sort_unstable();
    e.sort_unstable();
    ctx.state((s, e, total, on));
  }
  Ok(())
}

fn offline(ctx: &Ctx) -> Res {
  let q = *ctx.pick(&[NetworkQuality::Unknown, NetworkQuality::Offline, NetworkQuality::Online]);
  let i = NetworkQualityInterceptor::new(Arc::new(Quality(Mutex::new(q))));
  let (t, _) = *ctx.pick(&TYPES);
  let m: LogMessage = ctx.pick(&["".into(), "HTTPResponse".into(), LogMessage::Bytes(vec![])]).clone();
  let fields = if ctx.flip() { vec![text("_network_quality", "own")] } else { vec![] };
  let told = q == NetworkQuality::Offline && ![LogType::Resource, LogType::Replay, LogType::InternalSDK].contains(&t);
  let want = if told { vec![("_network_quality".to_string(), "offline".to_string())] } else { vec![] };
  same!("quality", added(&i, t, &m, &fields)?, want, "what is added to {t:?} {m:?}, {q:?}");
  ctx.step();
  ctx.state((t.0, format!("{m:?} {q:?}"), fields.len()));
  Ok(())
}

pub fn c49(r: &mut Run) {
  let d = r.by_tier(8, 9);
  r.explore("traffic", &format!("all sequences of {d} of: half a second, half a minute or a minute passes, one of 4 responses, a resource log, one of 5 that look similar"), Opts::default(), move |ctx| traffic(ctx, d));
  r.explore("steady", "resource logs every 1 s to 60 s, with some that come late, and responses every 1 s to 7 s, for 5 minutes", Opts::default(), steady);
  let n = r.by_tier(6, 8);
  r.explore("own counts", &format!("all sequences of {n} of: logs of two of the 9 types, a resource log, one of bytes, counts enabled or disabled"), Opts::default(), move |ctx| own_counts(ctx, n));
  r.explore("offline", "3 qualities, 9 types, 3 messages, with and without such a field", Opts::default(), offline);
}
