//! C42: one upload, its attempts, and how many bytes go out in a period.

use bd_api::upload::{LogBatch, TrackedLogBatch, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats_store::{Collector, Scope};
use bd_logger::verif::{upload_request, upload_service, Upload, UploadResult};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Violation};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{mpsc, Notify};
use tokio::task::JoinHandle;
use tokio::time::Instant;
use tower::Service;

pub fn runtime(flags: &[(&str, u32)]) -> RuntimeUpdate {
  let values = flags
    .iter()
    .map(|(k, n)| {
      let t = if k.ends_with("enabled") { value::Type::BoolValue(*n != 0) } else { value::Type::UintValue(*n) };
      ((*k).to_string(), Value { type_: Some(t), ..Default::default() })
    })
    .collect();
  RuntimeUpdate { version_nonce: "v".into(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Settings {
  retries: u32,
  bytes: u32,
  period: u32,
  initial: u32,
  max: u32,
}
const FREE: u32 = 1_000_000;
const SETTINGS: [Settings; 4] = [
  Settings { retries: 2, bytes: FREE, period: 1000, initial: 100, max: 200 },
  Settings { retries: 0, bytes: FREE, period: 1000, initial: 100, max: 200 },
  Settings { retries: 1, bytes: FREE, period: 1000, initial: 400, max: 400 },
  Settings { retries: 4, bytes: FREE, period: 1000, initial: 100, max: 120 },
];
const LIMITS: [Settings; 4] = [
  Settings { retries: 1, bytes: 20, period: 1000, initial: 300, max: 300 },
  Settings { retries: 1, bytes: 10, period: 400, initial: 300, max: 300 },
  Settings { retries: 1, bytes: FREE, period: 1000, initial: 300, max: 300 },
  Settings { retries: 1, bytes: 0, period: 700, initial: 300, max: 300 },
];
fn flags(s: Settings) -> Vec<(&'static str, u32)> {
  vec![
    ("log_uploader.retry_count", s.retries),
    ("upload_ratelimit.bytes_count_per_period", s.bytes),
    ("upload_ratelimit.period_ms", s.period),
    ("log_uploader.initial_retry_backoff_ms", s.initial),
    ("log_uploader.max_retry_backoff_ms", s.max),
  ]
}

#[derive(Debug)]
enum State {
  /// For the next period.
  Limited,
  /// The Api has not taken it.
  Offered,
  Sent(TrackedLogBatch),
  Backoff { from: Instant, interval: f64 },
  Done(&'static str),
}

struct Call {
  id: u8,
  logs: usize,
  size: u32,
  uuid: Option<String>,
  handle: JoinHandle<UploadResult>,
  state: State,
  attempts: u32,
  /// The Api was busy as it waited.
  waited: bool,
  /// Of the next backoff, and what it grows to.
  next: Option<(f64, f64)>,
}

struct Window {
  end: Instant,
  quota: u32,
  used: u32,
}

struct Sys {
  settings: Settings,
  svc: Upload,
  rx: Option<mpsc::Receiver<DataUpload>>,
  busy: bool,
  shutdown: Option<ComponentShutdownTrigger>,
  down: bool,
  calls: Vec<Call>,
  window: Option<Window>,
  attempts: u64,
  failures: u64,
  exceeded: u64,
  dropped: u64,
  scope: Scope,
  held: Vec<State>,
  /// One of the calls is.
  done: Arc<Notify>,
}

const LATE: Duration = Duration::from_millis(2);

impl Sys {
  /// Whether a request of this size is let through now.
  fn permit(&mut self, size: u32) -> bool {
    let now = Instant::now();
    match &mut self.window {
      Some(w) if now < w.end => {
        if w.used >= w.quota {
          return false;
        }
        w.used += size;
      },
      _ => {
        self.window = Some(Window {
          end: now + Duration::from_millis(self.settings.period.into()),
          quota: self.settings.bytes,
          // However large, one is.
          used: size.max(if self.settings.bytes == 0 { 1 } else { 0 }),
        });
      },
    }
    true
  }

  fn received(&mut self, d: DataUpload) -> Res {
    let DataUpload::LogsUploadRequest(t) = d else { fail!("request", "a request of another kind") };
    let now = Instant::now();
    let id = t.payload.logs[0][0];
    let Some(k) = self.calls.iter().position(|c| c.id == id) else { fail!("request", "a request that was not made") };
    let c = &mut self.calls[k];
    let logs: usize = t.payload.logs.iter().map(Vec::len).sum();
    check!(t.payload.logs.len() == c.logs && logs == c.size as usize && t.payload.logs.iter().all(|l| l.iter().all(|b| *b == id)), "content", "{:?} is sent for {id}", t.payload.logs);
    same!("content", t.payload.buffer_uuid, format!("buffer{id}"), "the buffer of {id}");
    same!("uuid", t.payload.upload_uuid, t.uuid, "the id that is sent");
    let first = c.uuid.get_or_insert_with(|| t.uuid.clone());
    same!("uuid", t.uuid, *first, "the id of a later attempt");
    match &c.state {
      State::Offered => (),
      // The Api was busy.
      State::Done(_) if self.down => return Ok(()),
      State::Limited => {
        let size = c.size;
        check!(self.permit(size), "limit", "{id} is sent, and the quota of the period is used up");
      },
      State::Backoff { from, interval } => {
        let (low, high) = (Duration::from_secs_f64(interval * 0.5 / 1000.0), Duration::from_secs_f64(interval * 1.5 / 1000.0) + LATE);
        let after = now - *from;
        check!(after >= low && (after <= high || c.waited), "backoff", "{id} is sent again after {after:?} at an interval of {interval} ms");
      },
      s => fail!("request", "{id} is sent when {s:?}"),
    }
    let c = &mut self.calls[k];
    self.attempts += 1;
    if self.down {
      // It is sent and nobody waits for the answer.
      c.state = State::Done("Canceled");
      self.held.push(State::Sent(t));
    } else {
      c.state = State::Sent(t);
    }
    Ok(())
  }

  fn failed(&mut self, k: usize) {
    self.failures += 1;
    let s = self.settings;
    let c = &mut self.calls[k];
    if c.attempts >= s.retries {
      self.exceeded += 1;
      self.dropped += c.logs as u64;
      c.state = State::Done("Failure");
      return;
    }
    c.attempts += 1;
    c.waited = false;
    let (interval, max) = c.next.unwrap_or((s.initial.into(), s.max.into()));
    c.next = Some(((interval * 1.5).min(max), max));
    c.state = State::Backoff { from: Instant::now(), interval };
  }

  /// Takes what there is, and looks whether all is as it should be.
  async fn settle(&mut self) -> Res {
    loop {
      mc::fut::settle().await;
      if self.busy {
        break;
      }
      let Some(d) = self.rx.as_mut().and_then(|r| r.try_recv().ok()) else { break };
      self.received(d)?;
    }
    let now = Instant::now();
    for k in 0 .. self.calls.len() {
      if self.calls[k].handle.is_finished() && matches!(self.calls[k].state, State::Limited) && (self.down || self.rx.is_none()) {
        // It had its turn, and went nowhere.
        let size = self.calls[k].size;
        check!(self.permit(size), "limit", "{} has its turn, and the quota of the period is used up", self.calls[k].id);
      }
    }
    for c in &mut self.calls {
      if c.handle.is_finished() && !matches!(c.state, State::Done("told")) {
        let got = match (&mut c.handle).await {
          Ok(UploadResult::Success) => "Success",
          Ok(UploadResult::Failure) => "Failure",
          Ok(UploadResult::Canceled) => "Canceled",
          Err(e) => fail!("panic", "{e}"),
        };
        let want = match c.state {
          State::Done(w) => w,
          // As soon as it makes its next attempt.
          State::Backoff { from, interval } if self.down || self.rx.is_none() => {
            check!(now - from >= Duration::from_secs_f64(interval * 0.5 / 1000.0), "backoff", "{} is tried again too early", c.id);
            self.attempts += 1;
            "Canceled"
          },
          State::Limited if self.down || self.rx.is_none() => {
            self.attempts += 1;
            "Canceled"
          },
          ref s => fail!("result", "{} ends with {got} when {s:?}", c.id),
        };
        same!("result", got, want, "how {} ends", c.id);
        c.state = State::Done("told");
      }
      match &c.state {
        State::Done("told") | State::Sent(_) => (),
        State::Offered if self.busy && !self.down && self.rx.is_some() => (),
        State::Backoff { from, interval } => {
          c.waited |= self.busy;
          if !(self.busy && !self.down) {
            check!(now - *from <= Duration::from_secs_f64(interval * 1.5 / 1000.0) + LATE, "backoff", "{} is not sent again {:?} after it failed, at an interval of {interval} ms", c.id, now - *from);
          }
        },
        State::Limited => {
          let w = self.window.as_ref().unwrap();
          check!(now <= w.end + LATE && w.used >= w.quota, "limited", "{} is not sent, with {} of {} used, {:?} before the end", c.id, w.used, w.quota, w.end.saturating_duration_since(now));
        },
        s => fail!("stuck", "{} is {s:?}", c.id),
      }
    }
    self.counters()
  }

  fn counters(&self) -> Res {
    let scope = self.scope.scope("uploader");
    let of = |name: &str| scope.counter(name).get();
    let all = |name: &str| self.calls.iter().map(|c| scope.counter_with_labels(name, [("buffer_id".to_string(), format!("buffer{}", c.id))].into()).get()).sum::<u64>();
    let (per, fails) = (all("log_upload_attempt"), all("log_upload_failure"));
    if !self.busy {
      same!("stats", per, self.attempts, "attempts that are counted");
    }
    same!("stats", fails, self.failures, "failures that are counted");
    same!("stats", (of("retry_limit_exceeded"), of("retry_limit_exceeded_dropped_logs")), (self.exceeded, self.dropped), "uploads, and logs, that are counted as given up");
    Ok(())
  }
}

async fn run(ctx: &Ctx, all: &[Settings; 4], depth: u32) -> Res {
  let dir = mc::Scratch::new();
  let loader = ConfigLoader::new(dir.path());
  loader.update_snapshot(&runtime(&flags(all[0])));
  let collector = Collector::default();
  let scope: Scope = collector.scope("");
  let (tx, rx) = mpsc::channel(1);
  let shutdown = ComponentShutdownTrigger::default();
  let svc = match upload_service(tx, shutdown.make_shutdown(), &loader, &scope) {
    Ok(s) => s,
    Err(e) => fail!("start", "{e}"),
  };
  let limits = all[0].bytes != FREE;
  let mut s = Sys { settings: all[0], svc, rx: Some(rx), busy: false, shutdown: Some(shutdown), down: false, calls: vec![], window: None, attempts: 0, failures: 0, exceeded: 0, dropped: 0, scope, held: vec![], done: Arc::default() };
  let c2 = ctx.clone();
  mc_sync::set_raw_random(Some(Box::new(move || [1 << 63, 0, u64::MAX][c2.deviate(3)])));
  for _ in 0 .. depth {
    const LOGS: [&[usize]; 3] = [&[10], &[30, 30], &[0]];
    let started = s.calls.len() < if limits { 4 } else { 2 };
    let first = s.calls.iter().position(|c| matches!(c.state, State::Sent(_)));
    let mut can: Vec<&str> = vec!["wait", "pause"];
    if started {
      can.push("call");
      if limits {
        can.extend(["call 1", "call 2"]);
      }
    }
    if first.is_some() {
      can.extend(["success", "failure"]);
      if !limits {
        can.push("gone");
      }
    }
    if limits {
      can.extend(["set 0", "set 1", "set 3"]);
    } else {
      can.extend(["set 0", "set 1", "set 2", "set 3", "busy"]);
    }
    if !s.down {
      can.push("shutdown");
      if s.rx.is_some() && !s.busy {
        can.push("no api");
      }
    }
    let what = *ctx.pick(&can);
    ctx.say(|| what.to_string());
    ctx.step();
    match what {
      "call" | "call 1" | "call 2" => {
        let kind = if what == "call" { 0 } else { what[5 ..].parse::<usize>().unwrap() };
        let id = s.calls.len() as u8 + 1;
        let logs: Vec<Vec<u8>> = LOGS[kind].iter().map(|n| vec![id; (*n).max(1)]).collect();
        let size = logs.iter().map(Vec::len).sum::<usize>() as u32;
        let count = logs.len();
        let request = upload_request(LogBatch { logs, buffer_id: format!("buffer{id}") });
        let (mut svc, done) = (s.svc.clone(), s.done.clone());
        let handle = tokio::spawn(async move {
          let Ok(()) = std::future::poll_fn(|cx| svc.poll_ready(cx)).await;
          let Ok(r) = svc.call(request).await;
          done.notify_one();
          r
        });
        let state = if !s.permit(size) {
          State::Limited
        } else if s.down || s.rx.is_none() {
          s.attempts += 1;
          State::Done("Canceled")
        } else {
          State::Offered
        };
        s.calls.push(Call { id, logs: count, size, uuid: None, handle, state, attempts: 0, waited: false, next: None });
      },
      "success" | "failure" | "gone" => {
        let k = first.unwrap();
        let State::Sent(t) = std::mem::replace(&mut s.calls[k].state, State::Done("Success")) else { unreachable!() };
        if what != "gone" {
          let _ = t.response_tx.send(UploadResponse { success: what == "success", uuid: t.uuid });
        }
        if what != "success" {
          s.failed(k);
        }
      },
      "wait" | "pause" => {
        // Until something is sent, or for so long.
        let until = Instant::now() + Duration::from_millis(if what == "wait" { 1100 } else { 260 });
        loop {
          let (busy, rx, done) = (s.busy, &mut s.rx, s.done.clone());
          tokio::select! {
            biased;
            d = async { rx.as_mut().unwrap().recv().await }, if !busy && rx.is_some() => {
              let Some(d) = d else { fail!("request", "the service is gone") };
              s.received(d)?;
              s.settle().await?;
              if what == "wait" {
                break;
              }
            },
            () = done.notified() => s.settle().await?,
            () = tokio::time::sleep_until(until) => break,
          }
        }
      },
      "busy" => s.busy = !s.busy,
      "shutdown" => {
        s.down = true;
        for c in &mut s.calls {
          if matches!(c.state, State::Sent(_) | State::Offered) {
            s.attempts += u64::from(matches!(c.state, State::Offered));
            // What is to answer it is still there.
            s.held.push(std::mem::replace(&mut c.state, State::Done("Canceled")));
          }
        }
        let t = s.shutdown.take().unwrap();
        tokio::spawn(t.shutdown());
      },
      "no api" => {
        s.rx = None;
        for k in 0 .. s.calls.len() {
          if matches!(s.calls[k].state, State::Sent(_)) {
            s.failed(k);
          }
        }
      },
      set => {
        s.settings = all[set[4 ..].parse::<usize>().unwrap()];
        loader.update_snapshot(&runtime(&flags(s.settings)));
      },
    }
    s.settle().await?;
    ctx.state((s.calls.iter().map(|c| (std::mem::discriminant(&c.state), c.attempts)).collect::<Vec<_>>(), s.busy, s.down, s.rx.is_some(), s.settings));
    if s.down && s.calls.iter().all(|c| matches!(c.state, State::Done(_))) {
      break;
    }
  }
  // In the end all have an answer.
  if s.busy {
    s.busy = false;
    s.settle().await?;
  }
  for _ in 0 .. 12 {
    for k in 0 .. s.calls.len() {
      if matches!(s.calls[k].state, State::Sent(_)) {
        let State::Sent(t) = std::mem::replace(&mut s.calls[k].state, State::Done("Success")) else { unreachable!() };
        let _ = t.response_tx.send(UploadResponse { success: true, uuid: t.uuid });
      }
    }
    s.settle().await?;
    if s.calls.iter().all(|c| matches!(c.state, State::Done(_))) {
      return Ok(());
    }
    let done = s.done.clone();
    let next = async {
      match &mut s.rx {
        Some(rx) => rx.recv().await,
        None => std::future::pending().await,
      }
    };
    let d = tokio::select! {
      biased;
      d = next => d,
      () = done.notified() => None,
      () = tokio::time::sleep(Duration::from_millis(1100)) => None,
    };
    if let Some(d) = d {
      s.received(d)?;
    }
  }
  fail!("end", "{:?} have no end", s.calls.iter().map(|c| &c.state).collect::<Vec<_>>())
}

fn explore(ctx: &Ctx, all: &[Settings; 4], depth: u32) -> Res {
  let r: Result<(), Violation> = mc::fut::runtime().block_on(run(ctx, all, depth));
  r
}

pub fn c42(r: &mut Run) {
  crate::logs();
  let t = r.thorough();
  let a = if t { 6 } else { 5 };
  r.explore("retries", &format!("{a} events: two uploads, answers, streams that end, a busy Api, four settings, time, shutdown"), Opts::dev(0), |c| explore(c, &SETTINGS, a));
  let a = if t { 5 } else { 4 };
  r.explore("jitter", &format!("{a} events; one or two of the pauses as short or as long as they can be"), Opts::dev(2), |c| explore(c, &SETTINGS, a));
  let a = if t { 6 } else { 5 };
  r.explore("limits", &format!("{a} events: four uploads of three sizes, answers, three settings, time, shutdown"), Opts::dev(0), |c| explore(c, &LIMITS, a));
}

