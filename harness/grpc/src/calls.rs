//! C50: what goes in on one side of a call comes out on the other, and so do failures.

use crate::test_proto::{EchoRequest, EchoResponse};
use crate::wire::{client, code, seen, Failure, Kind, Shared, Wire, CODES, ERRORS};
use bd_grpc::{
  make_server_streaming_router, make_unary_router, Code, Compression, Error, Handler, ServerStreamingHandler, ServiceMethod, Status, StreamStats,
  StreamingApiSender,
};
use bd_grpc_codec::OptimizeFor;
use http::{Extensions, HeaderMap, HeaderValue};
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

pub type Method = ServiceMethod<EchoRequest, EchoResponse>;
pub fn method() -> Method {
  Method::new("Test", "Echo")
}
pub const ZLIB: bd_grpc_codec::Compression = bd_grpc_codec::Compression::StatelessZlib { level: 3 };

pub fn text(size: usize, salt: u8) -> String {
  (0 .. size).map(|i| char::from(b'a' + ((i * 7 + i / 13 + salt as usize) % 26) as u8)).collect()
}
pub fn request(size: usize, salt: u8) -> EchoRequest {
  EchoRequest { echo: text(size, salt), ..Default::default() }
}
pub fn response(size: usize, salt: u8) -> EchoResponse {
  EchoResponse { echo: text(size, salt), ..Default::default() }
}

pub const MESSAGES: [Option<&str>; 9] = [None, Some(""), Some("foo"), Some("a b, c: d"), Some("100%"), Some("a%20b"), Some("\u{e9}\u{1f600}"), Some("one\r\ntwo"), Some("\0")];

/// What a handler ends with.
#[derive(Clone, Copy, Debug)]
pub enum End {
  Ok(usize),
  Status(i32, Option<&'static str>),
  Other(Kind),
}
impl End {
  pub fn error(self) -> Option<Error> {
    match self {
      Self::Ok(_) => None,
      Self::Status(c, m) => Some(Error::Grpc(Status { code: code(c), message: m.map(ToString::to_string) })),
      Self::Other(k) => Some(k.error()),
    }
  }
  /// What the client of a unary call sees of it.
  fn unary(self) -> Option<Failure> {
    match self {
      Self::Ok(_) => None,
      Self::Status(c, m) => Some((c, m.map(ToString::to_string))),
      Self::Other(Kind::Timeout | Kind::ConnectTimeout) => Some((13, Some("upstream timeout".to_string()))),
      Self::Other(Kind::Snap) => Some((13, Some("Non-200 response code: 400 Bad Request".to_string()))),
      Self::Other(Kind::Closed | Kind::Body) => Some((13, Some("Non-200 response code: 500 Internal Server Error".to_string()))),
    }
  }
  /// And of a stream.
  fn stream(self) -> Option<Failure> {
    match self {
      // What has no error in it is no error there.
      Self::Ok(_) | Self::Status(0, _) => None,
      Self::Status(c, m) => Some((c, m.map(ToString::to_string))),
      Self::Other(k) => Some((13, Some(k.error().to_string()))),
    }
  }
  pub fn choose(ctx: &Ctx, sizes: &[usize]) -> Self {
    match ctx.choose(3) {
      0 => Self::Ok(*ctx.pick(sizes)),
      1 => Self::Status(*ctx.pick(&CODES), *ctx.pick(&MESSAGES)),
      _ => Self::Other(*ctx.pick(&ERRORS)),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Packed {
  No,
  Zlib,
  Snappy,
}
impl Packed {
  fn compression(self) -> Compression {
    match self {
      Self::No => Compression::None,
      Self::Zlib => Compression::GRpc(ZLIB),
      Self::Snappy => Compression::Snappy,
    }
  }
}

pub struct Answers {
  /// By the salt of the request.
  pub ends: Vec<End>,
  pub got: Shared<Vec<(HeaderMap, EchoRequest)>>,
}
fn salt(r: &EchoRequest) -> usize {
  r.echo.as_bytes().first().map_or(0, |b| (*b - b'a') as usize)
}
#[async_trait::async_trait]
impl Handler<EchoRequest, EchoResponse> for Answers {
  async fn handle(&self, h: HeaderMap, _: Extensions, r: EchoRequest) -> bd_grpc::Result<EchoResponse> {
    let i = salt(&r);
    self.got.lock().unwrap().push((h, r));
    tokio::task::yield_now().await;
    match self.ends[i.min(self.ends.len() - 1)] {
      End::Ok(n) => Ok(response(n, i as u8)),
      e => Err(e.error().unwrap()),
    }
  }
}

const EXTRA: [&[(&str, &str)]; 3] = [&[], &[("x-one", "1")], &[("x-one", "1"), ("x-two", "2"), ("x-one", "3"), ("authorization", "Bearer x")]];
fn headers(extra: &[(&'static str, &'static str)]) -> Option<HeaderMap> {
  (!extra.is_empty()).then(|| {
    let mut h = HeaderMap::new();
    for (k, v) in extra {
      h.append(*k, HeaderValue::from_static(v));
    }
    h
  })
}
fn with_extra(h: &HeaderMap, extra: &[(&'static str, &'static str)]) -> Res {
  for (k, _) in extra {
    let want: Vec<&str> = extra.iter().filter(|(l, _)| l == k).map(|(_, v)| *v).collect();
    let got: Vec<&str> = h.get_all(*k).iter().map(|v| v.to_str().unwrap()).collect();
    same!("headers", got, want, "the values of {k} that the handler sees");
  }
  same!("headers", h.get("content-type").map(|v| v.as_bytes().to_vec()), Some(b"application/grpc".to_vec()), "the content type");
  Ok(())
}

fn counter() -> prometheus::IntCounter {
  prometheus::IntCounter::new("errors", "-").unwrap()
}

/// Calls at the same time, over one connection.
fn unary(ctx: &Ctx, calls: usize, sizes: &'static [usize]) -> Res {
  mc::fut::runtime().block_on(async {
    let mut todo = vec![];
    for i in 0 .. calls {
      let size = *ctx.pick(sizes);
      let packed = *ctx.pick(&[Packed::No, Packed::Zlib, Packed::Snappy]);
      let end = End::choose(ctx, sizes);
      let extra = *ctx.pick(if calls == 1 { &EXTRA[..] } else { &EXTRA[1 .. 2] });
      ctx.say(|| format!("call {i}: {size} bytes, {packed:?}, {extra:?}, answered with {end:?}"));
      todo.push((size, packed, end, extra));
    }
    let got = Shared::default();
    let failed: Shared<Vec<Failure>> = Shared::default();
    let errors = counter();
    let router = make_unary_router(
      &method(),
      Arc::new(Answers { ends: todo.iter().map(|t| t.2).collect(), got: Shared::clone(&got) }),
      {
        let failed = failed.clone();
        move |e| failed.lock().unwrap().push(seen(e))
      },
      errors.clone(),
      true,
    );
    let c = client(Wire::To(router), 10);
    let m = method();
    let results = futures::future::join_all(todo.iter().enumerate().map(|(i, (size, packed, _, extra))| {
      c.unary(&m, headers(extra), request(*size, i as u8), time::Duration::seconds(5), packed.compression())
    }))
    .await;
    let got = got.lock().unwrap().clone();
    same!("calls", got.len(), calls, "requests at the handler");
    let mut want: Vec<Failure> = vec![];
    for (i, ((size, packed, end, extra), r)) in todo.iter().zip(results).enumerate() {
      let Some((h, _)) = got.iter().find(|(_, r)| *r == request(*size, i as u8)) else {
        fail!("request", "the request of call {i} is not what reached the handler");
      };
      with_extra(h, extra)?;
      same!("accepts", h.get("grpc-accept-encoding").is_some(), *packed == Packed::Zlib, "whether compressed answers are accepted");
      match (end, r) {
        (End::Ok(n), Ok(r)) => check!(r == response(*n, i as u8), "response", "the response of call {i} is another one"),
        (End::Ok(_), Err(e)) => fail!("response", "call {i} fails: {e}"),
        (_, Ok(_)) => fail!("failure", "call {i} gets a response"),
        (end, Err(e)) => {
          want.push(seen(&end.error().unwrap()));
          same!("failure", Some(seen(&e)), end.unary(), "what the client sees of {end:?}");
        },
      }
    }
    let mut failed = failed.lock().unwrap().clone();
    failed.sort();
    want.sort();
    same!("handled", failed, want, "what the error handler was called with");
    same!("counted", errors.get(), want.len() as u64, "failures as counted");
    ctx.step();
    ctx.state(format!("{:?}", todo.iter().map(|t| (t.0, t.1, t.2, t.3.len())).collect::<Vec<_>>()));
    Ok(())
  })
}

pub struct Script {
  pub sends: Vec<usize>,
  pub end: End,
  pub got: Shared<Vec<(HeaderMap, EchoRequest)>>,
  pub sent: Shared<Vec<bool>>,
  pub ended: Shared<bool>,
}
#[async_trait::async_trait]
impl ServerStreamingHandler<EchoResponse, EchoRequest> for Script {
  async fn stream(&self, h: HeaderMap, _: Extensions, r: EchoRequest, s: &mut StreamingApiSender<EchoResponse>) -> bd_grpc::Result<()> {
    self.got.lock().unwrap().push((h, r));
    for (i, n) in self.sends.iter().enumerate() {
      let r = s.send(response(*n, i as u8)).await;
      self.sent.lock().unwrap().push(r.is_ok());
      if let Err(e) = r {
        *self.ended.lock().unwrap() = true;
        return Err(e);
      }
    }
    *self.ended.lock().unwrap() = true;
    self.end.error().map_or(Ok(()), Err)
  }
}

pub fn counted(collector: &bd_server_stats::stats::Collector) -> std::collections::BTreeMap<String, u64> {
  collector
    .gather()
    .iter()
    .flat_map(|f| {
      f.get_metric().iter().map(|m| {
        let labels: String = m.get_label().iter().map(|l| format!(" {}", l.get_value())).collect();
        (format!("{}{labels}", f.get_name()), m.get_counter().get_value() as u64)
      })
    })
    .collect()
}

fn streaming(ctx: &Ctx, most: usize, sizes: &'static [usize], full: bool) -> Res {
  mc::fut::runtime().block_on(async {
    let sends: Vec<usize> = (0 .. ctx.choose(most + 1)).map(|_| *ctx.pick(sizes)).collect();
    let end = if full { End::choose(ctx, &[0]) } else { *ctx.pick(&[End::Ok(0), End::Status(5, Some("x")), End::Other(Kind::Closed)]) };
    let server = ctx.flip().then_some(ZLIB);
    let accepts = ctx.flip();
    // After so many of them the client goes away.
    let leaves = if full { None } else { Some(ctx.choose(most + 2)).filter(|n| *n <= most) };
    ctx.say(|| format!("{sends:?}, then {end:?}; compressed: {}, accepted: {accepts}; the client leaves after {leaves:?}", server.is_some()));
    let collector = bd_server_stats::stats::Collector::default();
    let scope = collector.scope("s");
    let script = Arc::new(Script { sends: sends.clone(), end, got: Shared::default(), sent: Shared::default(), ended: Shared::default() });
    let failed: Shared<Vec<Failure>> = Shared::default();
    let router = make_server_streaming_router(
      &method(),
      script.clone(),
      {
        let failed = failed.clone();
        move |e| failed.lock().unwrap().push(seen(e))
      },
      StreamStats::new(&scope, "x"),
      true,
      server,
    );
    let c = client(Wire::To(router), 10);
    let extra: &[(&str, &str)] = if accepts { &[("x-one", "1"), ("grpc-accept-encoding", "deflate")] } else { EXTRA[2] };
    let mut s = match c.server_streaming(&method(), headers(extra), request(3, 0), false, OptimizeFor::Cpu).await {
      Ok(s) => s,
      Err(e) => fail!("refused", "no stream: {e}"),
    };
    let packed = accepts && server.is_some();
    same!("encoding", s.received_headers().get("grpc-encoding").map(|v| v.as_bytes().to_vec()), packed.then(|| b"deflate".to_vec()), "the encoding of the answer");
    let mut got = vec![];
    let wire: Shared<u64> = Shared::default();
    let raw: Shared<u64> = Shared::default();
    #[derive(Debug)]
    struct N(Shared<u64>);
    impl bd_stats_common::Counter for N {
      fn inc(&self) {
        self.inc_by(1);
      }
      fn inc_by(&self, n: u64) {
        *self.0.lock().unwrap() += n;
      }
    }
    s.initialize_bandwidth_stats(Arc::new(N(wire.clone())), Arc::new(N(raw.clone())));
    let mut left = false;
    let result = loop {
      if leaves.is_some_and(|n| got.len() >= n) {
        left = true;
        break Ok(());
      }
      match tokio::time::timeout(Duration::from_secs(60), s.next()).await {
        Err(_) => fail!("stuck", "nothing more comes after {} messages", got.len()),
        Ok(Ok(Some(ms))) => {
          check!(!ms.is_empty(), "empty", "no message is given as some");
          got.extend(ms);
        },
        Ok(Ok(None)) => break Ok(()),
        Ok(Err(e)) => break Err(seen(&e)),
      }
    };
    check!(got.len() <= sends.len(), "messages", "{} messages of {}", got.len(), sends.len());
    for (i, m) in got.iter().enumerate() {
      check!(*m == response(sends[i], i as u8), "messages", "message {i} is another one");
    }
    let reqs = script.got.lock().unwrap().clone();
    if left {
      drop(s);
      tokio::time::sleep(Duration::from_secs(1)).await;
      check!(*script.ended.lock().unwrap(), "handler", "the handler goes on with nobody there");
    } else {
      same!("messages", got.len(), sends.len(), "messages at the client");
      same!("failure", result.err(), end.stream(), "how the stream ends, after {end:?}");
      same!("received", *raw.lock().unwrap(), bytes(&sends) - 5 * sends.len() as u64, "bytes received, decompressed");
    }
    check!(reqs.len() <= 1, "calls", "{} requests at the handler", reqs.len());
    if let Some((h, r)) = reqs.first() {
      check!(*r == request(3, 0), "request", "another request");
      with_extra(h, extra)?;
    } else {
      check!(left, "calls", "no request at the handler");
    }
    // What has been counted.
    tokio::time::sleep(Duration::from_secs(1)).await;
    let sent = script.sent.lock().unwrap().clone();
    let cut = sent.iter().any(|x| !x);
    check!(left || !cut, "closed", "a send failed with the client there");
    let counted = counted(&collector);
    let count = |k: &str| counted.get(&format!("s:x:{k}")).copied();
    same!("initiations", count("stream_initiations_total"), Some(1), "streams begun");
    let bad = u64::from(cut || !matches!(end, End::Ok(_)));
    same!(
      "completions",
      (count("stream_completions_total success"), count("stream_completions_total failure")),
      (Some(1 - bad), Some(bad)),
      "streams that went well, and did not"
    );
    let want: Vec<Failure> = if cut { vec![seen(&Error::Closed)] } else { end.error().iter().map(seen).collect() };
    same!("handled", failed.lock().unwrap().clone(), want, "what the error handler was called with");
    same!("sent", count("stream_tx_messages_total"), Some(sent.len() as u64), "messages sent, as counted");
    same!("sent", count("bandwidth_tx_bytes_uncompressed_total"), Some(bytes(&sends[.. sent.len()])), "bytes sent, before compression");
    let tx = count("bandwidth_tx_bytes_total").unwrap_or_default();
    if !left {
      same!("sent", tx, *wire.lock().unwrap(), "bytes sent, as counted, and received");
    }
    let large = sends[.. sent.len()].iter().any(|n| *n > 200);
    same!("compressed", tx < bytes(&sends[.. sent.len()]), packed && large, "whether anything was compressed");
    ctx.step();
    ctx.state(format!("{sends:?} {end:?} {packed} {leaves:?}"));
    Ok(())
  })
}
fn bytes(sizes: &[usize]) -> u64 {
  use protobuf::Message;
  sizes.iter().map(|n| 5 + response(*n, 0).compute_size()).sum()
}

/// How many are on their way at a time, and when one is given up.
struct Gate {
  here: Shared<Vec<usize>>,
  most: Shared<usize>,
  open: tokio::sync::watch::Receiver<u32>,
}
#[async_trait::async_trait]
impl Handler<EchoRequest, EchoResponse> for Gate {
  async fn handle(&self, _: HeaderMap, _: Extensions, r: EchoRequest) -> bd_grpc::Result<EchoResponse> {
    struct Leaves(Shared<Vec<usize>>, usize);
    impl Drop for Leaves {
      fn drop(&mut self) {
        self.0.lock().unwrap().retain(|x| *x != self.1);
      }
    }
    let i = salt(&r);
    let _leaves = {
      let mut h = self.here.lock().unwrap();
      h.push(i);
      let mut m = self.most.lock().unwrap();
      *m = (*m).max(h.len());
      Leaves(self.here.clone(), i)
    };
    let mut open = self.open.clone();
    drop(open.wait_for(|o| o >> i & 1 == 1).await);
    Ok(response(i + 1, i as u8))
  }
}

fn limits(ctx: &Ctx, depth: u32) -> Res {
  mc::fut::runtime().block_on(async {
    let most = 1 + ctx.choose(2);
    let (open_tx, open) = tokio::sync::watch::channel(0u32);
    let gate = Arc::new(Gate { here: Shared::default(), most: Shared::default(), open });
    let router = make_unary_router(&method(), gate.clone() as Arc<dyn Handler<_, _>>, |_| {}, counter(), false);
    let c = Arc::new(client(Wire::To(router), most as u64));
    // The first one waits for the connection, with which the others go at once.
    struct Call {
      task: tokio::task::JoinHandle<(bd_grpc::Result<EchoResponse>, Instant)>,
      until: Instant,
      result: Option<Option<Failure>>,
      when: Option<Instant>,
      canceled: bool,
    }
    let mut calls: Vec<Call> = vec![];
    let mut opened = 0u32;
    let timeouts = [10i64, 25, 1000];
    // In the order in which they came, who has not got its turn yet.
    for step in 0 .. depth {
      let key: Vec<(bool, bool, bool, u128)> = calls
        .iter()
        .enumerate()
        .map(|(i, c)| (c.task.is_finished(), c.canceled, opened >> i & 1 == 1, c.until.saturating_duration_since(Instant::now()).as_millis()))
        .collect();
      ctx.state(&key);
      if ctx.known((&key, most, gate.here.lock().unwrap().clone()), depth - step) {
        break;
      }
      match ctx.choose(4) {
        0 if calls.len() < 4 => {
          let (i, t) = (calls.len(), *ctx.pick(&timeouts));
          ctx.say(|| format!("call {i}, within {t} ms"));
          let c = c.clone();
          let task = tokio::spawn(async move {
            let r = c.unary(&method(), None, request(5, i as u8), time::Duration::milliseconds(t), Compression::None).await;
            (r, Instant::now())
          });
          calls.push(Call { task, until: Instant::now() + Duration::from_millis(t as u64), result: None, when: None, canceled: false });
        },
        1 if opened.count_ones() < calls.len() as u32 => {
          let i = (0 .. calls.len()).filter(|i| opened >> i & 1 == 0).nth(ctx.choose(calls.len() - opened.count_ones() as usize)).unwrap();
          ctx.say(|| format!("{i} may be answered"));
          opened |= 1 << i;
          open_tx.send(opened).unwrap();
        },
        2 => {
          ctx.say(|| "10 ms".to_string());
          tokio::time::sleep(Duration::from_millis(10)).await;
        },
        3 if calls.iter().any(|c| !c.canceled && !c.task.is_finished()) => {
          let open: Vec<usize> = (0 .. calls.len()).filter(|i| !calls[*i].canceled && !calls[*i].task.is_finished()).collect();
          let i = *ctx.pick(&open);
          ctx.say(|| format!("{i} is given up"));
          calls[i].task.abort();
          calls[i].canceled = true;
        },
        _ => break,
      }
      mc::fut::settle().await;
      ctx.step();
      check!(*gate.most.lock().unwrap() <= most, "limit", "{} calls are on their way", gate.most.lock().unwrap());
      // Who can go on does: the limit is used, in order.
      let here = gate.here.lock().unwrap().clone();
      let open: Vec<usize> = (0 .. calls.len()).filter(|i| !calls[*i].canceled && !calls[*i].task.is_finished()).collect();
      let mut want: Vec<usize> = open.iter().copied().take(most).collect();
      let mut here = here;
      here.sort_unstable();
      want.sort_unstable();
      same!("turn", here, want, "the calls that are on their way, of {open:?}");
      for i in &open {
        check!(calls[*i].until > Instant::now(), "late", "call {i} goes on after its time");
        check!(!want.contains(i) || opened >> i & 1 == 0, "answer", "call {i} has been answered, and goes on");
      }
    }
    // In the end all are answered, and all are free.
    open_tx.send(u32::MAX).unwrap();
    for (i, call) in calls.iter_mut().enumerate() {
      match tokio::time::timeout(Duration::from_secs(60), &mut call.task).await {
        Err(_) => fail!("stuck", "call {i} does not end"),
        Ok(Err(e)) => check!(call.canceled && e.is_cancelled(), "panic", "call {i} panicked: {e}"),
        Ok(Ok((Ok(r), when))) => {
          check!(r == response(i + 1, i as u8), "response", "call {i} gets the response of another");
          check!(when <= call.until, "late", "call {i} is answered after its time");
        },
        Ok(Ok((Err(Error::RequestTimeout), when))) => {
          let late = when.duration_since(call.until).as_millis();
          check!(when >= call.until && late <= 1, "timeout", "call {i} times out {late} ms after its time, or before it");
        },
        Ok(Ok((Err(e), _))) => fail!("response", "call {i} fails: {e}"),
      }
    }
    for n in 0 .. 2 {
      let r = tokio::time::timeout(Duration::from_secs(30), c.unary(&method(), None, request(5, 9), time::Duration::seconds(20), Compression::None)).await;
      check!(matches!(r, Ok(Ok(_))), "after", "call {n} after all others fails");
    }
    Ok(())
  })
}

/// Addresses that a client takes.
fn addresses(ctx: &Ctx) -> Res {
  let scheme = *ctx.pick(&["", "http://", "https://"]);
  let authority = *ctx.pick(&["", "a", "a:1", "1.2.3.4:50"]);
  let path = *ctx.pick(&["", "/", "/x", "/x/"]);
  let query = *ctx.pick(&["", "?", "?q=1"]);
  let a = format!("{scheme}{authority}{path}{query}");
  ctx.say(|| a.clone());
  let r = mc::fut::runtime().block_on(async {
    bd_grpc::Client::new_with_client(
      a.as_str(),
      hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new()).build::<_, axum::body::Body>(Wire::Fails(std::io::ErrorKind::Other)),
      1,
    )
    .map(|_| ())
  });
  let fine = !scheme.is_empty() && !authority.is_empty() && path.len() < 2 && query.is_empty();
  // "?" is an empty query, which says nothing.
  check!(query == "?" || r.is_ok() == fine, "address", "{a}: {r:?}");
  ctx.step();
  ctx.state(&a);
  Ok(())
}

fn codes(ctx: &Ctx) -> Res {
  let n = ctx.choose(40) as i32 - 10;
  let known = CODES.contains(&n) && n != 2;
  let c = Code::from_string(&n.to_string());
  same!("code", c.to_int(), if known { n } else { 2 }, "the code of {n}");
  for s in [format!(" {n}"), format!("0{n}"), format!("{n}.0"), String::new(), "OK".to_string(), format!("+{n}")] {
    check!(Code::from_string(&s) == Code::Unknown, "code", "{s:?} is a code");
  }
  if known {
    check!(c == code(n), "code", "{n} is {c:?}");
  }
  // Anything, as a value of a binary header.
  let b: Vec<u8> = (0 .. ctx.choose(8)).map(|i| (i * 83 + n.unsigned_abs() as usize * 47) as u8).collect();
  let h = bd_grpc::BinaryHeaderValue::new(&b).to_header_value();
  same!("binary", h.to_str().unwrap_or_default().to_string(), base64(&b), "the header of {b:?}");
  ctx.step();
  ctx.state((n, b.len()));
  Ok(())
}
fn base64(b: &[u8]) -> String {
  const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  b.chunks(3)
    .flat_map(|c| {
      let n = c.iter().fold(0u32, |n, x| n << 8 | u32::from(*x)) << (8 * (3 - c.len()));
      (0 .. 4).map(move |i| if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' })
    })
    .collect()
}

struct Ends(Vec<End>);
#[async_trait::async_trait]
impl ServerStreamingHandler<EchoResponse, EchoRequest> for Ends {
  async fn stream(&self, _: HeaderMap, _: Extensions, r: EchoRequest, s: &mut StreamingApiSender<EchoResponse>) -> bd_grpc::Result<()> {
    s.send(response(3, 0)).await?;
    self.0[salt(&r)].error().map_or(Ok(()), Err)
  }
}

/// One call after the other: each counts, whatever is said of it in the log.
fn again(ctx: &Ctx, calls: usize) -> Res {
  mc::fut::runtime().block_on(async {
    let streams = ctx.flip();
    let ends: Vec<End> = (0 .. calls).map(|_| *ctx.pick(&[End::Ok(5), End::Status(5, Some("x")), End::Other(Kind::Closed), End::Other(ERRORS[0]), End::Other(ERRORS[2])])).collect();
    let collector = bd_server_stats::stats::Collector::default();
    let failed: Shared<Vec<Failure>> = Shared::default();
    let errors = counter();
    let handler = {
      let failed = failed.clone();
      move |e: &bd_grpc::Error| failed.lock().unwrap().push(seen(e))
    };
    let router = if streams {
      make_server_streaming_router(&method(), Arc::new(Ends(ends.clone())), handler, StreamStats::new(&collector.scope("s"), "x"), true, None)
    } else {
      make_unary_router(&method(), Arc::new(Answers { ends: ends.clone(), got: Shared::default() }), handler, errors.clone(), true)
    };
    let c = client(Wire::To(router), 10);
    let (mut good, mut bad) = (0u64, 0u64);
    let mut want: Vec<Failure> = vec![];
    for (i, end) in ends.iter().enumerate() {
      ctx.say(|| format!("call {i} of {calls}, streams: {streams}, ends with {end:?}"));
      if streams {
        let Ok(mut s) = c.server_streaming(&method(), None, request(3, i as u8), false, OptimizeFor::Cpu).await else { fail!("refused", "no stream") };
        while let Ok(Some(_)) = s.next().await {}
      } else {
        let r = c.unary(&method(), None, request(3, i as u8), time::Duration::seconds(5), Compression::None).await;
        check!(r.is_ok() == matches!(end, End::Ok(_)), "failure", "call {i} gives an answer, or does not");
      }
      let apart = *ctx.pick(&[1, 15, 40]);
      tokio::time::sleep(Duration::from_secs(apart)).await;
      match end.error() {
        None => good += 1,
        Some(e) => {
          bad += 1;
          want.push(seen(&e));
        },
      }
      ctx.step();
      ctx.state((streams, good, bad, apart, format!("{end:?}")));
      same!("handled", failed.lock().unwrap().clone(), want.clone(), "what the error handler was called with");
      if streams {
        let n = counted(&collector);
        let n = ["stream_initiations_total", "stream_completions_total success", "stream_completions_total failure"].map(|k| n.get(&format!("s:x:{k}")).copied().unwrap_or_default());
        same!("completions", n, [good + bad, good, bad], "streams begun, gone well, and not");
      } else {
        same!("counted", errors.get(), bad, "failures as counted");
      }
    }
    Ok(())
  })
}

pub fn c50(r: &mut Run) {
  r.assume("hyper, h2, axum and tower carry requests, bodies and trailers as they are; zlib, snappy and protobuf are stand-ins");
  r.explore("unary", "one call: 3 sizes of the request, 3 compressions, 3 sets of headers, answered with 3 sizes, 8 codes with 9 messages, 5 other errors", Opts::default(), |c| {
    unary(c, 1, &[0, 5, 1000])
  });
  let sizes: &'static [usize] = if r.thorough() { &[0, 1000, 70_000] } else { &[5, 70_000] };
  r.explore("streaming", &format!("up to 2 messages of sizes {sizes:?}, each end, compressed and accepted or not"), Opts::default(), |c| streaming(c, 2, sizes, true));
  let n = r.by_tier(3, 4);
  r.explore("leaving", &format!("up to {n} messages of 3 sizes, up to 1 MB, of which the client takes each number"), Opts::default(), |c| streaming(c, n, &[5, 1000, 1_000_000], false));
  r.explore("limits", &format!("every sequence of {} steps: calls with 3 timeouts, answers, 10 ms, calls given up; at most 1 or 2 at a time", r.by_tier(6, 8)), Opts::default(), {
    let d = r.by_tier(6, 8);
    move |c| limits(c, d)
  });
  let n = r.by_tier(3, 4);
  r.explore("again", &format!("{n} calls or streams, one after the other, each with 5 ends, 1, 15 or 40 s apart"), Opts::default(), move |c| again(c, n));
  crate::read::explore(r);
  crate::server::explore(r);
  r.explore("addresses", "3 schemes, 4 authorities, 4 paths, 3 queries", Opts::default(), addresses);
  r.explore("codes", "40 codes and forms of them, 8 lengths of binary headers", Opts::default(), codes);
  if r.thorough() {
    r.explore("two calls", "two calls at the same time over one connection, as before", Opts::default().secs(400), |c| unary(c, 2, &[5, 70_000]));
  }
}
