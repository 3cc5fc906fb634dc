//! Each side with another one that is not from here.

use crate::calls::{counted, method, request, response, text, Answers, End, Script, MESSAGES, ZLIB};
use crate::test_proto::{EchoRequest, EchoResponse};
use crate::wire::{client, seen, Failure, Shared, Wire, CODES};
use axum::body::Body;
use axum::routing::post;
use axum::Router;
use bd_grpc::{make_server_streaming_router, make_unary_router, Compression, Error, StreamStats};
use bd_grpc_codec::Encoder;
use bytes::Bytes;
use http::{HeaderMap, HeaderValue, Request, Response};
use http_body::Frame;
use http_body_util::{BodyExt, StreamBody};
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use protobuf::Message;
use std::io::Read;
use std::sync::Arc;
use tower::ServiceExt;

fn body(pieces: Vec<Result<Frame<Bytes>, axum::BoxError>>) -> Body {
  Body::new(StreamBody::new(futures::stream::iter(pieces)))
}

/// Requests of others.
fn requests(ctx: &Ctx, cuts: usize) -> Res {
  mc::fut::runtime().block_on(async {
    let count = ctx.choose(3);
    let size = *ctx.pick(&[0, 5, 300]);
    let zlib = ctx.flip();
    let mut e = Encoder::new(zlib.then_some(ZLIB));
    let mut b: Vec<u8> = (0 .. count).flat_map(|i| e.encode(&request(size, i as u8)).to_vec()).collect();
    let encoding = *ctx.pick(&[None, Some("deflate"), Some("gzip"), Some("identity")]);
    let snappy = ctx.flip();
    if snappy {
      b = snap::raw::Encoder::new().compress_vec(&b).unwrap();
    }
    let content = *ctx.pick(&[None, Some("snappy"), Some("gzip")]);
    let accept = *ctx.pick(&[None, Some("deflate"), Some("gzip")]);
    // Harm: nothing, the end missing, the connection broken.
    let harm = ctx.choose(3);
    if harm == 1 {
      b.pop();
    }
    let mut pieces = vec![];
    let mut from = 0;
    for _ in 0 .. cuts {
      let at = *ctx.pick(&[0, 1, 5, b.len() / 2, b.len()]);
      if at > from && at <= b.len() {
        pieces.push(Ok(Frame::data(Bytes::copy_from_slice(&b[from .. at]))));
        from = at;
      }
    }
    pieces.push(Ok(Frame::data(Bytes::copy_from_slice(&b[from ..]))));
    if harm == 2 {
      pieces.push(Err("broken".into()));
    }
    ctx.say(|| format!("{count} messages of {size}, packed: {zlib}, said to be {encoding:?}; in snappy: {snappy}, said to be {content:?}; accepts {accept:?}; harm {harm}"));
    let mut req = Request::post("/test.Test/Echo").header("content-type", "application/grpc").body(body(pieces)).unwrap();
    for (k, v) in [("grpc-encoding", encoding), ("content-encoding", content), ("grpc-accept-encoding", accept)] {
      if let Some(v) = v {
        req.headers_mut().insert(k, HeaderValue::from_static(v));
      }
    }
    let got = Shared::default();
    let failed: Shared<Vec<Failure>> = Shared::default();
    let errors = prometheus::IntCounter::new("errors", "-").unwrap();
    let answer = 300;
    let readable = snappy == (content == Some("snappy")) && (!(zlib && size > 100) || encoding == Some("deflate"));
    if ctx.flip() {
      ctx.say(|| "for a stream".to_string());
      let script = Arc::new(Script { sends: vec![5, 300], end: End::Ok(0), got: Shared::default(), sent: Shared::default(), ended: Shared::default() });
      let collector = bd_server_stats::stats::Collector::default();
      let stats = StreamStats::new(&collector.scope("s"), "x");
      let router = make_server_streaming_router(&method(), script.clone(), |_| {}, stats, true, Some(ZLIB));
      let res = router.oneshot(req).await.unwrap();
      let ok = harm == 0 && readable && count == 1;
      let open = harm == 1 && count == 2 && readable && !snappy;
      let status = (res.status().as_u16(), res.headers().get("grpc-status").map(|v| v.to_str().unwrap().to_string()));
      let all = res.into_body().collect().await.unwrap();
      let trailer = all.trailers().and_then(|t| t.get("grpc-status").map(|v| v.as_bytes().to_vec()));
      tokio::time::sleep(std::time::Duration::from_secs(1)).await;
      ctx.step();
      ctx.state((count, size, zlib, encoding, snappy, content, accept, harm, "stream"));
      let got: Vec<EchoRequest> = script.got.lock().unwrap().iter().map(|g| g.1.clone()).collect();
      let n = counted(&collector);
      let n = ["stream_initiations_total", "stream_completions_total success", "stream_completions_total failure"].map(|k| n.get(&format!("s:x:{k}")).copied().unwrap_or_default());
      if ok {
        check!(got.len() == 1 && got[0] == request(size, 0), "request", "{} requests reach the handler of a stream, or another one", got.len());
        same!("completions", n, [1, 1, 0], "streams begun, gone well, and not");
        same!("status", status, (200, None), "of the stream");
        same!("trailers", trailer, Some(b"0".to_vec()), "the status in the trailers of the stream");
      } else if open {
        check!(n[0] == 1 && n[1] as usize == got.len() && n[1] + n[2] == 1, "once", "{} requests and {n:?}", got.len());
      } else {
        check!(got.is_empty(), "request", "a request reaches the handler of a stream");
        same!("completions", n, [1, 0, 1], "streams begun, gone well, and not");
        check!(status.0 != 200 || status.1.is_some_and(|s| s != "0"), "status", "a request that cannot be read looks like a stream");
      }
      return Ok(());
    }
    let router = make_unary_router(
      &method(),
      Arc::new(Answers { ends: vec![End::Ok(answer)], got: Shared::clone(&got) }),
      {
        let failed = failed.clone();
        move |e| failed.lock().unwrap().push(seen(e))
      },
      errors.clone(),
      true,
    );
    let res = router.oneshot(req).await.unwrap();
    let got: Vec<EchoRequest> = got.lock().unwrap().iter().map(|g: &(HeaderMap, EchoRequest)| g.1.clone()).collect();
    let (parts, b) = res.into_parts();
    ctx.step();
    ctx.state((count, size, zlib, encoding, snappy, content, accept, harm));
    let failures = failed.lock().unwrap().clone();
    same!("counted", errors.get(), failures.len() as u64, "failures counted, and handled");
    if harm == 0 && readable && count == 1 {
      check!(got.len() == 1 && got[0] == request(size, 0), "request", "{} requests reach the handler, or another one", got.len());
      same!("handled", failures, vec![], "failures");
      same!("status", parts.status.as_u16(), 200, "the status");
      let deflate = accept == Some("deflate");
      same!("encoding", parts.headers.get("grpc-encoding").map(|v| v.as_bytes().to_vec()), deflate.then(|| b"deflate".to_vec()), "the encoding of the answer");
      same!("type", parts.headers.get("content-type").map(|v| v.as_bytes().to_vec()), Some(b"application/grpc".to_vec()), "the type of the answer");
      let all = b.collect().await.unwrap();
      same!("trailers", all.trailers().and_then(|t| t.get("grpc-status").map(|v| v.as_bytes().to_vec())), Some(b"0".to_vec()), "the status in the trailers");
      let b = all.to_bytes();
      check!(b.len() >= 5 && b.len() - 5 == u32::from_be_bytes(b[1 .. 5].try_into().unwrap()) as usize, "frame", "no frame: {b:?}");
      same!("frame", b[0] == 1, deflate, "whether the answer is compressed");
      let mut m = b[5 ..].to_vec();
      if deflate {
        m.clear();
        flate2::read::ZlibDecoder::new(&b[5 ..]).read_to_end(&mut m).unwrap();
      }
      check!(EchoResponse::parse_from_bytes(&m).ok() == Some(response(answer, 0)), "response", "another answer");
    } else if harm == 1 && count == 2 && readable && !snappy {
      // One message is whole: whether what follows counts is left open.
      check!(got.len() + failures.len() == 1, "once", "{} requests and {} failures", got.len(), failures.len());
    } else {
      check!(got.is_empty(), "request", "a request reaches the handler");
      same!("handled", failures.len(), 1, "failures");
      let status = (parts.status.as_u16(), parts.headers.get("grpc-status").map(|v| v.to_str().unwrap().to_string()));
      if harm == 2 {
        same!("status", status, (500, None), "of a request that breaks");
      } else if harm == 0 && readable || harm == 1 && readable && !snappy && count <= 1 {
        same!("status", status, (200, Some("3".to_string())), "of a request with {count} messages");
      } else {
        check!(status.0 == 400 || status == (200, Some("3".to_string())), "status", "of what cannot be read: {status:?}");
      }
    }
    Ok(())
  })
}

/// Answers of others.
fn answers(ctx: &Ctx, full: bool) -> Res {
  mc::fut::runtime().block_on(async {
    let status = *ctx.pick(&[200u16, 204, 302, 404, 503]);
    let early = *ctx.pick(&[None, Some("0"), Some("5"), Some("13"), Some("7"), Some("x"), Some("")]);
    let message = *ctx.pick(&MESSAGES);
    let count = ctx.choose(3);
    let size = *ctx.pick(&[0, 5, 300]);
    let zlib = ctx.flip();
    let said = ctx.flip();
    // The trailers: none, or that it went well.
    let trailers = ctx.flip();
    let harm = if full { ctx.choose(3) } else { 0 };
    let slow = if full { ctx.choose(3) } else { 0 };
    ctx.say(|| format!("{status}, {early:?} {message:?}, {count} messages of {size}, packed: {zlib}, said: {said}, trailers: {trailers}, harm {harm}, slow {slow}"));
    let mut e = Encoder::new(zlib.then_some(ZLIB));
    let mut b: Vec<u8> = (0 .. count).flat_map(|i| e.encode(&response(size, i as u8)).to_vec()).collect();
    if harm == 1 {
      b.pop();
    }
    let make = move || {
      let mut pieces = vec![Ok(Frame::data(Bytes::copy_from_slice(&b)))];
      if harm == 2 {
        pieces.push(Err::<_, axum::BoxError>("broken".into()));
      } else if trailers {
        let mut t = HeaderMap::new();
        t.insert("grpc-status", HeaderValue::from_static("0"));
        pieces.push(Ok(Frame::trailers(t)));
      }
      let mut r = Response::builder().status(status).header("content-type", "application/grpc");
      if said {
        r = r.header("grpc-encoding", "deflate");
      }
      if let Some(s) = early {
        r = r.header("grpc-status", s);
      }
      if let Some(m) = message {
        r = r.header("grpc-message", percent(m));
      }
      r.body(body(pieces)).unwrap()
    };
    let router = Router::new().route(
      "/test.Test/Echo",
      post(move |_: Request<Body>| async move {
        // Not at all in time, just in time.
        tokio::time::sleep(std::time::Duration::from_millis([0, 5000, 20][slow])).await;
        make()
      }),
    );
    let c = client(Wire::To(router), 1);
    let t0 = tokio::time::Instant::now();
    let r = c.unary(&method(), None, request(5, 0), time::Duration::milliseconds(30), Compression::None).await;
    let took = t0.elapsed().as_millis();
    ctx.step();
    ctx.state((status, early, message, count, size, zlib, said, trailers, harm, slow));
    let failure = r.as_ref().err().map(seen);
    if slow == 1 {
      check!(matches!(r, Err(Error::RequestTimeout)), "timeout", "{:?} of what does not come", failure);
      check!((30 ..= 31).contains(&took), "timeout", "after {took} ms");
      return Ok(());
    }
    check!(took <= 30, "late", "after {took} ms");
    if harm == 2 {
      // How much of it comes through before is up to HTTP.
      check!(r.is_err(), "broken", "a response from a body that breaks");
    } else if !(200 .. 300).contains(&status) {
      let Some((13, Some(m))) = failure else { fail!("status", "{failure:?} of {status}") };
      check!(m.contains(&status.to_string()), "status", "{m} of {status}");
    } else if let Some(s) = early {
      let n = s.parse().unwrap_or(2);
      same!("failure", failure, Some((if CODES.contains(&n) { n } else { 2 }, message.map(ToString::to_string))), "what the client sees");
    } else if zlib && size > 100 && !said && count > 0 {
      check!(failure.is_some(), "unreadable", "a response, of what is not said to be compressed");
    } else if count != 1 || harm == 1 {
      if harm == 1 && count == 2 {
        return Ok(());
      }
      if status != 204 {
        check!(failure.is_some(), "count", "a response, of {count} messages");
      }
    } else if status == 200 {
      check!(r.is_ok_and(|r| r == response(size, 0)), "response", "another response, or {failure:?}");
    }
    Ok(())
  })
}
fn percent(s: &str) -> String {
  s.bytes().map(|b| if (0x20 ..= 0x7e).contains(&b) && b != b'%' { char::from(b).to_string() } else { format!("%{b:02X}") }).collect()
}

fn connecting(ctx: &Ctx) -> Res {
  mc::fut::runtime().block_on(async {
    let kind = *ctx.pick(&[std::io::ErrorKind::TimedOut, std::io::ErrorKind::ConnectionRefused, std::io::ErrorKind::Other]);
    let c = client(Wire::Fails(kind), 1);
    for n in 0 .. 3 {
      let r = if ctx.flip() {
        c.unary(&method(), None, request(5, 0), time::Duration::milliseconds(30), Compression::None).await.map(|_| ())
      } else {
        c.server_streaming(&method(), None, request(5, 0), false, bd_grpc_codec::OptimizeFor::Cpu).await.map(|_| ())
      };
      ctx.say(|| format!("call {n}: {kind:?}"));
      match r {
        Err(Error::ConnectionTimeout) => check!(kind == std::io::ErrorKind::TimedOut, "kind", "{kind:?} is a timeout"),
        Err(Error::HyperClient(_)) => check!(kind != std::io::ErrorKind::TimedOut, "kind", "a timeout is something else"),
        Ok(()) => fail!("kind", "no connection, and a response"),
        Err(e) => fail!("kind", "{kind:?} is {e}"),
      }
      ctx.step();
    }
    ctx.state(format!("{kind:?}"));
    Ok(())
  })
}

struct Waits {
  here: Shared<u32>,
  open: tokio::sync::watch::Receiver<u32>,
}
#[async_trait::async_trait]
impl bd_grpc::Handler<EchoRequest, EchoResponse> for Waits {
  async fn handle(&self, _: HeaderMap, _: http::Extensions, r: EchoRequest) -> bd_grpc::Result<EchoResponse> {
    let i = u32::from(r.echo.as_bytes()[0] - b'a');
    *self.here.lock().unwrap() |= 1 << i;
    let mut open = self.open.clone();
    drop(open.wait_for(|o| o >> i & 1 == 1).await);
    Ok(response(i as usize + 1, 0))
  }
}

/// Until it holds, for as long as it may take.
pub async fn until(f: impl Fn() -> bool) -> bool {
  for _ in 0 .. 10_000 {
    if f() {
      return true;
    }
    tokio::time::sleep(std::time::Duration::from_millis(1)).await;
  }
  false
}

/// Connections (over the loopback network), as the server shuts down.
fn serving(ctx: &Ctx, depth: u32) -> Res {
  #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
  enum Is {
    Asking,
    Idle,
    Gone,
    Refused,
  }
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let ended = rt.block_on(async {
    let (open_tx, open) = tokio::sync::watch::channel(0u32);
    let here: Shared<u32> = Shared::default();
    let errors = prometheus::IntCounter::new("errors", "-").unwrap();
    let router = make_unary_router(&method(), Arc::new(Waits { here: here.clone(), open }), |_| {}, errors, true);
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let address = listener.local_addr().unwrap().to_string();
    let (total, active) = (prometheus::IntCounter::new("t", "-").unwrap(), prometheus::IntGauge::new("a", "-").unwrap());
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let mut stop_tx = Some(stop_tx);
    let server = tokio::spawn(bd_grpc::axum_helper::serve_with_connect_info(router, listener, total.clone(), active.clone(), async {
      drop(stop_rx.await);
    }));
    let mut is: Vec<Is> = vec![];
    let mut clients = vec![];
    let mut calls: Vec<Option<tokio::task::JoinHandle<bool>>> = vec![];
    for step in 0 .. depth {
      let key = (is.clone(), stop_tx.is_none());
      ctx.state(&key);
      if ctx.known(&key, depth - step) {
        break;
      }
      let asking: Vec<usize> = (0 .. is.len()).filter(|i| is[*i] == Is::Asking).collect();
      match ctx.choose(4) {
        0 if is.len() < 3 => {
          let i = is.len();
          ctx.say(|| format!("connection {i}, with a call"));
          let c = Arc::new(bd_grpc::Client::new_http(&address, time::Duration::seconds(10), 1).unwrap());
          clients.push(Some(c.clone()));
          calls.push(Some(tokio::spawn(async move {
            let r = c.unary(&method(), None, request(1, i as u8 * 7), time::Duration::seconds(60), Compression::None).await;
            r.is_ok_and(|r| r == response(i * 7 % 26 + 1, 0))
          })));
          if stop_tx.is_none() {
            is.push(Is::Refused);
            let ok = calls[i].take().unwrap().await.unwrap();
            check!(!ok, "accepted", "a call after the shutdown is answered");
          } else {
            is.push(Is::Asking);
            check!(until(|| here.lock().unwrap().count_ones() as usize == is.len()).await, "call", "call {i} does not reach the handler");
          }
        },
        1 if !asking.is_empty() => {
          let i = *ctx.pick(&asking);
          ctx.say(|| format!("{i} is answered"));
          open_tx.send_modify(|o| *o |= 1 << (i * 7 % 26));
          let ok = tokio::time::timeout(std::time::Duration::from_secs(10), calls[i].take().unwrap()).await;
          check!(matches!(ok, Ok(Ok(true))), "answer", "call {i} gets no answer: {ok:?}");
          is[i] = if stop_tx.is_none() { Is::Gone } else { Is::Idle };
        },
        2 if is.iter().any(|x| matches!(x, Is::Asking | Is::Idle)) => {
          let there: Vec<usize> = (0 .. is.len()).filter(|i| matches!(is[*i], Is::Asking | Is::Idle)).collect();
          let i = *ctx.pick(&there);
          ctx.say(|| format!("client {i} goes away"));
          if let Some(c) = calls[i].take() {
            c.abort();
            drop(c.await);
          }
          clients[i] = None;
          is[i] = Is::Gone;
        },
        3 if stop_tx.is_some() => {
          ctx.say(|| "shutdown".to_string());
          drop(stop_tx.take().unwrap().send(()));
          for x in &mut is {
            if *x == Is::Idle {
              *x = Is::Gone;
            }
          }
        },
        _ => break,
      }
      ctx.step();
      let there = is.iter().filter(|x| matches!(x, Is::Asking | Is::Idle)).count();
      let known = is.iter().filter(|x| **x != Is::Refused).count();
      check!(until(|| active.get() == there as i64).await, "active", "{} connections are active, of {is:?}", active.get());
      same!("total", total.get(), known as u64, "connections in all, of {is:?}");
      if stop_tx.is_none() && there == 0 {
        check!(until(|| server.is_finished()).await, "shutdown", "the server does not end, with {is:?}");
      } else {
        tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        check!(!server.is_finished(), "shutdown", "the server ends, with {is:?}");
      }
    }
    Ok(())
  });
  drop(rt);
  ended
}

pub fn explore(r: &mut Run) {
  let d = r.by_tier(6, 8);
  r.explore("serving", &format!("every sequence of {d} steps: up to 3 connections with a call each, answered, gone away, the shutdown"), Opts::default(), move |c| serving(c, d));
  let cuts = r.by_tier(1, 2);
  r.explore("requests", &format!("0 to 2 messages of 3 sizes in every combination of what they are packed in and what is said of it, whole, cut short, or broken off, in up to {} pieces", cuts + 1), Opts::default(), move |c| {
    requests(c, cuts)
  });
  r.explore("answers", "5 HTTP statuses, 7 gRPC statuses with 9 messages, 0 to 2 messages of 3 sizes, compressed and said to be or not, with trailers or not", Opts::default(), |c| answers(c, false));
  if r.thorough() {
    r.explore("answers broken", "as before, whole, cut short, or broken off; at once, in time, or too late", Opts::default(), |c| answers(c, true));
  } else {
    r.explore("answers broken", "0 to 2 messages, whole, cut short, or broken off; at once, in time, or too late", Opts::default().secs(20), |c| answers(c, true));
  }
  r.explore("connecting", "3 ways in which no connection is made, 3 calls of 2 kinds", Opts::default(), connecting);
  let _ = text;
}
