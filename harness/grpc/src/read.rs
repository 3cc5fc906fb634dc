//! The reading end of a stream, whose frames come as they like, and which may be told to stop.

use crate::calls::{request, MESSAGES, ZLIB};
use crate::test_proto::{EchoRequest, EchoResponse};
use crate::wire::{code, seen, Failure, CODES};
use axum::body::Body;
use bd_grpc::{Error, StreamingApi};
use bd_grpc_codec::{Compression, Encoder, OptimizeFor};
use bytes::Bytes;
use http::{HeaderMap, HeaderValue};
use http_body::Frame;
use http_body_util::StreamBody;
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::sync::{mpsc, watch};
use tokio_stream::wrappers::ReceiverStream;

#[derive(Default)]
struct Woken(AtomicBool);
impl std::task::Wake for Woken {
  fn wake(self: Arc<Self>) {
    self.0.store(true, SeqCst);
  }
}

type Api = StreamingApi<EchoResponse, EchoRequest>;
type Next = Pin<Box<dyn Future<Output = bd_grpc::Result<Option<Vec<EchoRequest>>>>>>;
type Got = Result<Option<Vec<EchoRequest>>, Failure>;

#[derive(Clone, Debug, PartialEq)]
enum On {
  /// What is complete with these bytes.
  Data(Vec<usize>),
  Bad,
  Trailers(Option<(i32, Option<String>)>),
  Broken,
}

fn encoded(s: &str) -> String {
  // As the specification of gRPC says.
  s.bytes().map(|b| if (0x20 ..= 0x7e).contains(&b) && b != b'%' { char::from(b).to_string() } else { format!("%{b:02X}") }).collect()
}

fn stopping(ctx: &Ctx, depth: u32) -> Res {
  mc::fut::runtime().block_on(stopping_in(ctx, depth))
}

async fn stopping_in(ctx: &Ctx, depth: u32) -> Res {
  let mode = ctx.choose(3);
  let mut headers = HeaderMap::new();
  match mode {
    0 => {},
    1 => drop(headers.insert("grpc-encoding", HeaderValue::from_static("deflate"))),
    _ => drop(headers.insert(bd_grpc_codec::LEGACY_GRPC_ENCODING_HEADER, HeaderValue::from_static("deflate"))),
  }
  let mut encoder = Encoder::<EchoRequest>::new(match mode {
    0 => None,
    1 => Some(ZLIB),
    _ => Some(Compression::StatefulZlib { level: 3 }),
  });
  let watched = ctx.flip();
  let (stop_tx, stop_rx) = watch::channel(false);
  let mut stop_tx = Some(stop_tx);
  let (frames, rx) = mpsc::channel::<Result<Frame<Bytes>, axum::BoxError>>(16);
  let mut frames = Some(frames);
  let (out, _out) = mpsc::channel(1);
  let mut api: Box<Api> = Box::new(StreamingApi::new(
    out,
    headers,
    Body::new(StreamBody::new(ReceiverStream::new(rx))),
    true,
    None,
    OptimizeFor::Cpu,
    watched.then_some(stop_rx),
  ));
  let mut next: Option<Next> = None;
  // What is on its way, in order.
  let mut queue: Vec<On> = vec![];
  let mut rest: Option<(Vec<u8>, usize)> = None;
  let mut n = 0;
  let mut stop = false;
  // It has been looked at since it was set.
  let mut known = true;
  ctx.say(|| format!("mode {mode}, {}", if watched { "may be told to stop" } else { "never told to stop" }));
  for step in 0 .. depth {
    let key = (mode, watched, stop, known, stop_tx.is_some(), frames.is_some(), next.is_some(), format!("{queue:?}"), rest.as_ref().map(|r| r.1), n);
    ctx.state(&key);
    if ctx.known(&key, depth - step) {
      break;
    }
    let mut push = |f: Result<Frame<Bytes>, axum::BoxError>| frames.as_ref().map(|t| t.try_send(f).is_ok()).unwrap_or_default();
    match ctx.choose(10) {
      0 if n < 4 => {
        let k = if rest.is_some() { 0 } else { 1 + ctx.choose(2) };
        let (mut b, mut ids) = rest.take().map_or_else(|| (vec![], vec![]), |(b, i)| (b, vec![i]));
        for _ in 0 .. k {
          b.extend_from_slice(&encoder.encode(&request(if n % 2 == 0 { 3 } else { 300 }, n as u8)));
          ids.push(n);
          n += 1;
        }
        ctx.say(|| format!("the bytes that make messages {ids:?} whole"));
        if push(Ok(Frame::data(b.into()))) {
          queue.push(On::Data(ids));
        }
      },
      1 if n < 4 && rest.is_none() => {
        let b = encoder.encode(&request(if n % 2 == 0 { 3 } else { 300 }, n as u8)).to_vec();
        let at = *ctx.pick(&[1, 5, b.len() - 1]);
        ctx.say(|| format!("{at} bytes of message {n}"));
        rest = Some((b[at ..].to_vec(), n));
        n += 1;
        if push(Ok(Frame::data(b[.. at].to_vec().into()))) {
          queue.push(On::Data(vec![]));
        }
      },
      2 if frames.is_some() => {
        let with = *ctx.pick(&[None, Some((0, 0)), Some((5, 0)), Some((13, 2)), Some((0, 2)), Some((99, 3))]);
        ctx.say(|| format!("trailers: {with:?}"));
        let mut t = HeaderMap::new();
        t.insert("x-other", HeaderValue::from_static("7"));
        let mut end = None;
        if let Some((c, m)) = with {
          let m = MESSAGES[m];
          // Others may send the message first.
          let first = m.is_some() && ctx.flip();
          if !first {
            t.insert("grpc-status", HeaderValue::from(c));
          }
          if let Some(m) = m {
            t.insert("grpc-message", HeaderValue::from_str(&encoded(m)).unwrap());
          }
          if first {
            t.insert("grpc-status", HeaderValue::from(c));
          }
          end = (c != 0).then(|| (if CODES.contains(&c) { c } else { 2 }, m.map(ToString::to_string)));
        }
        push(Ok(Frame::trailers(t)));
        queue.push(On::Trailers(end));
        frames = None;
      },
      3 if frames.is_some() => {
        ctx.say(|| "no more".to_string());
        frames = None;
      },
      4 if frames.is_some() => {
        ctx.say(|| "the connection breaks".to_string());
        push(Err("broken".into()));
        queue.push(On::Broken);
        frames = None;
      },
      5 if frames.is_some() && rest.is_none() => {
        ctx.say(|| "what is no frame".to_string());
        push(Ok(Frame::data(Bytes::from_static(&[0, 0, 0, 0, 2, 0xff, 0xff]))));
        queue.push(On::Bad);
        frames = None;
      },
      6 if watched && stop_tx.is_some() => {
        stop = !stop;
        known = false;
        ctx.say(|| format!("stop: {stop}"));
        stop_tx.as_ref().unwrap().send(stop).unwrap();
      },
      7 if watched && stop_tx.is_some() && !stop => {
        ctx.say(|| "who says to stop is gone".to_string());
        stop_tx = None;
      },
      8 if next.is_some() => {
        ctx.say(|| "the read is given up".to_string());
        next = None;
      },
      _ => {
        ctx.say(|| "read".to_string());
        let fresh = next.is_none();
        let f = next.get_or_insert_with(|| {
          let p: *mut Api = &mut *api;
          // It is boxed, and outlives the future.
          Box::pin(unsafe { &mut *p }.next())
        });
        let woken = Arc::new(Woken::default());
        let got: Option<Got> = match f.as_mut().poll(&mut Context::from_waker(&woken.clone().into())) {
          Poll::Ready(r) => Some(r.map_err(|e| seen(&e))),
          Poll::Pending => None,
        };
        tokio::task::yield_now().await;
        check!(got.is_some() || !woken.0.load(SeqCst), "busy", "it waits for nothing, and goes on and on");
        let must_stop = stop && (known || fresh);
        if stop && got.is_none() {
          known = true;
        }
        let Some(got) = got else {
          check!(stop || (frames.is_some() && queue.iter().all(|q| *q == On::Data(vec![]))), "stuck", "nothing is read, with {queue:?} there");
          if !stop {
            // These were not enough for a message.
            queue.clear();
            known = true;
          }
          ctx.step();
          continue;
        };
        next = None;
        check!(!must_stop, "stop", "read while it was told to stop: {got:?}");
        if !stop {
          known = true;
        }
        // What comes first.
        let mut want: Got = Ok(None);
        while !queue.is_empty() {
          match queue.remove(0) {
            On::Data(ids) if ids.is_empty() => {},
            On::Data(ids) => {
              want = Ok(Some(ids.iter().map(|i| request(if i % 2 == 0 { 3 } else { 300 }, *i as u8)).collect()));
              break;
            },
            On::Trailers(None) => break,
            On::Trailers(Some(f)) => {
              want = Err(f);
              break;
            },
            On::Broken => {
              want = Err(seen(&Error::BodyStream(axum::Error::new("broken").into())));
              break;
            },
            On::Bad => {
              check!(matches!(&got, Err((-1, _))), "damage", "what is no frame gives {got:?}");
              return Ok(());
            },
          }
        }
        check!(got == want, "read", "read {}, and not {}", short(&got), short(&want));
        if !matches!(got, Ok(Some(_))) {
          return Ok(());
        }
      },
    }
    ctx.step();
  }
  drop(next);
  Ok(())
}
fn short(g: &Got) -> String {
  match g {
    Ok(Some(ms)) => format!("messages of {:?} bytes", ms.iter().map(|m| m.echo.len()).collect::<Vec<_>>()),
    Ok(None) => "the end".to_string(),
    Err(e) => format!("{e:?}"),
  }
}

pub fn explore(r: &mut Run) {
  let d = r.by_tier(6, 7);
  r.explore(
    "reading",
    &format!("every sequence of {d} steps: messages whole, two at once, cut; trailers, the end, an error, damage; told to stop and go on, or by nobody; reads, given up or not; 3 encodings; 1 deviation in what a select looks at first"),
    Opts::dev(1),
    move |c| stopping(c, d),
  );
}
