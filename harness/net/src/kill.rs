//! C38: a client that is killed says nothing.

use crate::api::{frame, settle, update, Process};
use crate::faults::Faults;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::{ErrorShutdown, HandshakeResponse, StatsUploadRequest};
use bd_runtime::runtime::ConfigLoader;
use bd_time::TestTimeProvider;
use mc::{check, same, Ctx, Opts, Res, Run};
use mc_fs::Fate;
use std::time::Duration;
use time::OffsetDateTime;

const HOUR: i64 = 3600;
const GENERIC: i64 = 2 * HOUR;
const UNAUTHENTICATED: i64 = 24 * HOUR;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum File {
  None,
  Good { key: &'static str, until: i64 },
  Damaged,
}

#[derive(Clone, Debug)]
enum Server {
  Silent,
  Fine,
  Refuses,
  /// In two pieces.
  RefusesSlowly,
  /// Of another kind.
  Fails,
}

struct Model {
  file: File,
  now: i64,
}

impl Model {
  /// What is on the disk after something was to be written, or removed.
  fn changed(&mut self, to: File, fates: &[(mc_fs::Op, Fate)]) -> Res {
    let ended = fates.iter().any(|f| matches!(f.1, Fate::EndBefore));
    check!(ended || fates.iter().any(|f| f.0.changes), "file", "{:?} is not made {to:?}", self.file);
    for (op, f) in fates.iter().filter(|(op, _)| op.changes) {
      match f {
        Fate::Go | Fate::EndAfter => self.file = to.clone(),
        Fate::EndAmid(_) if op.what == "write" => self.file = File::Damaged,
        Fate::EndAmid(_) | Fate::Error | Fate::EndBefore => (),
      }
    }
    Ok(())
  }
}

/// Whether the process has come to its end by itself.
async fn process(ctx: &Ctx, m: &mut Model, dir: &std::path::Path, time: &TestTimeProvider, left: u32) -> Res {
  let key = *ctx.pick(&["key", "other"]);
  let generic = ctx.flip();
  ctx.say(|| format!("{left}: with {key:?}{}", if generic { ", to be killed" } else { "" }));
  let runtime = ConfigLoader::new(dir);
  runtime.update_snapshot(&update(
    "r",
    &[("client_kill.generic_kill_duration_ms", if generic { GENERIC as u32 * 1000 } else { 0 }), ("client_kill.unauthenticated_kill_duration_ms", UNAUTHENTICATED as u32 * 1000)],
  ));
  let faults = Faults::new(ctx, |op| op.path.ends_with("client_kill_until"));
  let mut p = Process::new(dir, key, &runtime, time);
  settle().await;
  let fates = faults.take();
  // What it finds.
  let unread = fates.iter().any(|(op, f)| !op.changes && *f == Fate::Error);
  let found = if unread { File::Damaged } else { m.file.clone() };
  let mut killed = false;
  match found {
    File::Good { key: k, until } => {
      if until > m.now && k == key {
        killed = true;
        check!(!fates.iter().any(|f| f.0.changes), "file", "what is in force is changed");
      } else {
        m.changed(File::None, &fates)?;
      }
    },
    File::None | File::Damaged => {
      if generic {
        killed = true;
        m.changed(File::Good { key, until: m.now + GENERIC }, &fates)?;
      }
    },
  }
  let ended = |p: &Process| p.task.is_finished();
  let end = fates.iter().any(|f| matches!(f.1, Fate::EndBefore | Fate::EndAmid(_) | Fate::EndAfter));
  check!(ended(&p) == end, "ended", "the API has ended: {} {}", ended(&p), mc::last_panic());
  if end {
    check!(p.streams() == 0, "talks", "a stream is started before it is known whether there may be");
    return Ok(());
  }
  if killed {
    check!(p.streams() == 0, "talks", "a stream is started, and {:?} at {} forbids it", m.file, m.now);
  } else {
    check!(p.streams() == 1, "silent", "no stream is started, and {:?} at {} is no reason for it", m.file, m.now);
    let server = ctx.pick(&[Server::Silent, Server::Fine, Server::Refuses, Server::RefusesSlowly, Server::Fails]).clone();
    ctx.say(|| format!("    the server: {server:?}"));
    let shutdown = |status| Response_type::ErrorShutdown(ErrorShutdown { grpc_status: status, grpc_message: "no".into(), ..Default::default() });
    match server {
      Server::Silent => (),
      Server::Fine => p.receive(0, &frame(&[Response_type::Handshake(HandshakeResponse::default())], false)).await,
      Server::Refuses => p.receive(0, &frame(&[shutdown(16)], false)).await,
      Server::RefusesSlowly => {
        let b = frame(&[shutdown(16)], false);
        p.receive(0, &b[.. 6]).await;
        settle().await;
        check!(!ended(&p) && p.streams() == 1, "early", "something happens before all is received");
        p.receive(0, &b[6 ..]).await;
      },
      Server::Fails => p.receive(0, &frame(&[shutdown(7)], false)).await,
    }
    settle().await;
    let fates = faults.take();
    if matches!(server, Server::Refuses | Server::RefusesSlowly) {
      killed = true;
      m.changed(File::Good { key, until: m.now + UNAUTHENTICATED }, &fates)?;
    } else {
      check!(fates.is_empty(), "file", "{fates:?}, and nothing is to be done to it");
    }
    let end = fates.iter().any(|f| matches!(f.1, Fate::EndBefore | Fate::EndAmid(_) | Fate::EndAfter));
    check!(ended(&p) == end, "ended", "the API has ended: {} {}", ended(&p), mc::last_panic());
    if end {
      return Ok(());
    }
    if matches!(server, Server::Fails) {
      tokio::time::sleep(Duration::from_secs(30)).await;
      same!("reconnects", p.streams(), 2, "streams in 30 s after one that has failed");
    }
  }
  if killed {
    let before = p.streams();
    let sent = p.net.0.lock().unwrap().iter().map(|s| s.sent.len()).sum::<usize>();
    // The rest of the process goes on, and nothing of it gets out; even when the time is over.
    let (t, mut rx) = bd_api::upload::Tracked::new("u".into(), StatsUploadRequest::default());
    check!(p.data.try_send(bd_api::DataUpload::StatsUploadRequest(t)).is_ok(), "takes", "uploads are not taken");
    time.advance(time::Duration::seconds(100 * HOUR));
    for _ in 0 .. 3 {
      tokio::time::sleep(Duration::from_secs(3600)).await;
    }
    time.advance(time::Duration::seconds(-100 * HOUR));
    check!(!ended(&p), "ended", "the API has ended {}", mc::last_panic());
    same!("talks", p.streams(), before, "streams of a client that is killed");
    let now = p.net.0.lock().unwrap().iter().map(|s| s.sent.len()).sum::<usize>();
    same!("talks", now, sent, "sent by a client that is killed");
    check!(rx.try_recv().is_err(), "answer", "an upload is answered");
  }
  let gone = tokio::spawn(p.shutdown.take().unwrap().shutdown());
  settle().await;
  check!(ended(&p), "goes-on", "the API goes on after the shutdown");
  let r = (&mut p.task).await;
  check!(matches!(r, Ok(Ok(()))), "ended", "the API ends with {r:?}");
  settle().await;
  check!(gone.is_finished(), "goes-on", "the shutdown is not done");
  check!(faults.take().is_empty(), "file", "something is done to it for no reason");
  Ok(())
}

fn histories(ctx: &Ctx, depth: u32) -> Res {
  let dir = mc::Scratch::new();
  let start = 1_000_000;
  let mut m = Model { file: File::None, now: start };
  let time = TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(start).unwrap());
  for i in 0 .. depth {
    let rt = mc::fut::runtime();
    let r = rt.block_on(process(ctx, &mut m, dir.path(), &time, i));
    rt.shutdown_background();
    r?;
    ctx.step();
    // What is there, as others would read it.
    let there = dir.path().join("client_kill_until").exists();
    same!("file", there, m.file != File::None, "whether it is there, {:?}", m.file);
    let h = *ctx.pick(&[0, 1, 3, 25]);
    m.now += h * HOUR;
    time.advance(time::Duration::seconds(h * HOUR));
    ctx.say(|| format!("{h} hours pass, and there is {:?} at {}", m.file, m.now));
    let file = match &m.file {
      File::Good { key, until } => (1, *key, (until - m.now).max(0)),
      File::None => (0, "", 0),
      File::Damaged => (2, "", 0),
    };
    if ctx.known(file, depth - i) {
      break;
    }
  }
  Ok(())
}

pub fn c38(r: &mut Run) {
  let d = if r.thorough() { 5 } else { 4 };
  r.explore("histories", &format!("{d} processes, 2 keys, 5 ways of the server, 4 pauses"), Opts::dev(0).memory(0), |c| histories(c, d));
  let d = if r.thorough() { 4 } else { 3 };
  r.explore("faults", &format!("{d} processes, one operation fails or is the last one"), Opts::dev(1).memory(0), |c| histories(c, d));
  let d = if r.thorough() { 3 } else { 2 };
  r.explore("two-faults", &format!("{d} processes, two operations fail or are the last"), Opts::dev(2).memory(0), |c| histories(c, d));
  r.explore("full", "2 processes, one operation fails, nothing left out", Opts::dev(1).full(), |c| histories(c, 2));
}

