//! C51: streams of the client over HTTP/2, with a server over the loopback network that does what it likes.

use crate::server::until;
use crate::wire::Shared;
use axum::body::Body;
use axum::routing::post;
use axum::Router;
use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_hyper_network::HyperNetwork;
use bytes::Bytes;
use http::{HeaderMap, Request, Response};
use http_body::Frame;
use http_body_util::{BodyExt, StreamBody};
use hyper_util::rt::{TokioExecutor, TokioIo};
use mc::{check, same, Ctx, Opts, Res, Run};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio_stream::wrappers::ReceiverStream;
use tower::ServiceExt;

/// How the server answers the next request.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
enum Mode {
  #[default]
  Ok,
  Status,
  Grpc,
  Never,
  /// There is no server.
  None,
}

/// A request at the server.
struct Stream {
  headers: HeaderMap,
  got: Vec<u8>,
  ended: bool,
  answer: Option<mpsc::Sender<Result<Frame<Bytes>, axum::BoxError>>>,
}

#[derive(Default)]
struct Server {
  mode: Mode,
  streams: Vec<Stream>,
  connections: Vec<tokio::task::AbortHandle>,
}

async fn answer(server: Shared<Server>, request: Request<Body>) -> Response<Body> {
  let (parts, mut body) = request.into_parts();
  let (tx, rx) = mpsc::channel(8);
  let (i, mode) = {
    let mut s = server.lock().unwrap();
    let mode = s.mode;
    s.streams.push(Stream { headers: parts.headers, got: vec![], ended: false, answer: (mode == Mode::Ok).then_some(tx) });
    (s.streams.len() - 1, mode)
  };
  let reading = server.clone();
  tokio::spawn(async move {
    while let Some(Ok(f)) = body.frame().await {
      if let Some(d) = f.data_ref() {
        reading.lock().unwrap().streams[i].got.extend_from_slice(d);
      }
    }
    reading.lock().unwrap().streams[i].ended = true;
  });
  match mode {
    Mode::Ok => Response::new(Body::new(StreamBody::new(ReceiverStream::new(rx)))),
    Mode::Status => Response::builder().status(503).body(Body::empty()).unwrap(),
    Mode::Grpc => Response::builder().header("grpc-status", "16").header("grpc-message", "no").body(Body::empty()).unwrap(),
    Mode::Never | Mode::None => std::future::pending().await,
  }
}

/// What the client knows of its stream.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Is {
  No,
  Open,
  /// No answer has come.
  Waiting,
  Closed,
}

const STEPS: &[&str] = &["start", "start status", "start grpc", "start never", "start none", "send", "serve", "end", "end trailers", "break", "kill", "late", "shutdown"];

fn explore(ctx: &Ctx, depth: u32) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let r = rt.block_on(async {
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let address = format!("http://{}", listener.local_addr().unwrap());
    let server: Shared<Server> = Shared::default();
    let router = {
      let server = server.clone();
      Router::new().route(
        "/bitdrift_public.protobuf.client.v1.ApiService/Mux",
        post(move |r: Request<Body>| {
          let server = server.clone();
          async move { answer(server, r).await }
        }),
      )
    };
    let accepting = {
      let server = server.clone();
      tokio::spawn(async move {
        loop {
          let Ok((socket, _)) = listener.accept().await else { return };
          if server.lock().unwrap().mode == Mode::None {
            continue;
          }
          let router = router.clone();
          let task = tokio::spawn(async move {
            let service = hyper::service::service_fn(move |r: Request<hyper::body::Incoming>| router.clone().oneshot(r));
            let _ = hyper_util::server::conn::auto::Builder::new(TokioExecutor::new()).serve_connection(TokioIo::new(socket), service).await;
          });
          server.lock().unwrap().connections.push(task.abort_handle());
        }
      })
    };
    let kill = |server: &Shared<Server>| {
      for c in server.lock().unwrap().connections.drain(..) {
        c.abort();
      }
    };
    let trigger = bd_shutdown::ComponentShutdownTrigger::default();
    let (network, handle) = HyperNetwork::new(&address, trigger.make_shutdown());
    let mut trigger = Some(trigger);
    let network = tokio::spawn(network.start());
    let mut is = Is::No;
    let mut stream: Option<Box<dyn PlatformNetworkStream>> = None;
    let mut events: Option<mpsc::Receiver<StreamEvent>> = None;
    // What was sent on either side of the present stream, how many requests there have been, and what is late.
    let (mut sent, mut served, mut seen, mut requests, mut late) = (vec![], vec![], vec![], 0usize, 0u32);
    let mut n = 0u8;
    for step in 0 .. depth {
      let alive = !server.lock().unwrap().connections.is_empty();
      let key = (is, sent.len().min(2), served.len().min(2), late, trigger.is_none(), alive, requests.min(1));
      ctx.state(key);
      if ctx.known(&key, depth - step) {
        break;
      }
      let can: Vec<&str> = STEPS
        .iter()
        .copied()
        .filter(|s| match *s {
          _ if trigger.is_none() => false,
          "shutdown" => true,
          s if s.starts_with("start") => matches!(is, Is::No | Is::Closed),
          "send" => is == Is::Open,
          // Into a stream that has no answer yet only one message fits.
          "late" => is == Is::Closed || is == Is::Waiting && late == 0,
          "kill" => is == Is::Open || is == Is::Waiting || alive,
          _ => is == Is::Open,
        })
        .collect();
      if can.is_empty() {
        break;
      }
      let what = *ctx.pick(&can);
      ctx.say(|| what.to_string());
      ctx.step();
      n += 1;
      // What the server does to the present stream.
      let act = |f: &mut dyn FnMut(&mut Stream)| f(server.lock().unwrap().streams.last_mut().unwrap());
      let mut closes = false;
      match what {
        "send" => {
          stream.as_mut().unwrap().send_data(&[n, n, n]).await.unwrap();
          sent.extend([n, n, n]);
        },
        "late" => {
          let r = tokio::time::timeout(Duration::from_secs(10), stream.as_mut().unwrap().send_data(&[n, n])).await;
          check!(r.is_ok(), "stuck", "what is sent late does not get anywhere");
          late += 1;
        },
        "serve" => {
          let mut tx = None;
          act(&mut |s| tx = s.answer.clone());
          tx.unwrap().send(Ok(Frame::data(Bytes::from(vec![n; 4])))).await.unwrap();
          served.extend([n; 4]);
        },
        "end" => {
          act(&mut |s| s.answer = None);
          closes = true;
        },
        "end trailers" | "break" => {
          let mut tx = None;
          act(&mut |s| tx = s.answer.take());
          let mut t = HeaderMap::new();
          t.insert("grpc-status", "14".parse().unwrap());
          tx.unwrap().send(if what == "break" { Err("broken".into()) } else { Ok(Frame::trailers(t)) }).await.unwrap();
          closes = true;
        },
        "kill" => {
          closes = matches!(is, Is::Open | Is::Waiting);
          kill(&server);
        },
        "shutdown" => {
          let t = trigger.take().unwrap();
          let r = tokio::time::timeout(Duration::from_secs(10), t.shutdown()).await;
          check!(r.is_ok(), "shutdown", "the network goes on after the shutdown, with a stream that is {is:?}");
          check!(until(|| network.is_finished()).await, "shutdown", "the network goes on after the shutdown");
          if let Some(s) = &mut stream {
            // Nobody hears it; that may fail, but not panic.
            let r = tokio::time::timeout(Duration::from_secs(10), s.send_data(&[n])).await;
            check!(r.is_ok(), "stuck", "what is sent after the shutdown does not get anywhere");
          }
        },
        s => {
          let mode = match s {
            "start status" => Mode::Status,
            "start grpc" => Mode::Grpc,
            "start never" => Mode::Never,
            "start none" => Mode::None,
            _ => Mode::Ok,
          };
          server.lock().unwrap().mode = mode;
          if mode == Mode::None && alive {
            // A connection that is dead may not have been noticed as such; either way nothing gets through.
            kill(&server);
            tokio::time::sleep(Duration::from_millis(5)).await;
          }
          let (tx, rx) = mpsc::channel(1);
          let (number, content) = (n.to_string(), "application/grpc".to_string());
          let headers: HashMap<&str, &str> = [("x-number", number.as_str()), ("content-type", content.as_str())].into();
          let r = tokio::time::timeout(Duration::from_secs(10), PlatformNetworkManager::<()>::start_stream(&handle, tx, &(), &headers)).await;
          check!(r.is_ok(), "stuck", "no stream is started");
          stream = Some(r.unwrap().unwrap());
          events = Some(rx);
          (sent, served, seen, late) = (vec![], vec![], vec![], 0);
          is = if mode == Mode::Ok { Is::Open } else { Is::Waiting };
          closes = matches!(mode, Mode::Status | Mode::Grpc | Mode::None);
          if mode != Mode::None {
            requests += 1;
            check!(until(|| server.lock().unwrap().streams.len() == requests).await, "request", "no request reaches the server");
            let s = server.lock().unwrap();
            let s = s.streams.last().unwrap();
            let one = |k: &str| s.headers.get_all(k).iter().map(|v| v.to_str().unwrap_or_default().to_string()).collect::<Vec<_>>();
            same!("headers", (one("x-number"), one("content-type")), (vec![number], vec![content]), "headers at the server");
          }
        },
      }
      // What the client hears.
      if let Some(rx) = &mut events {
        let mut closed = 0;
        for _ in 0 .. 10_000 {
          match rx.try_recv() {
            Ok(StreamEvent::Data(d)) => {
              check!(closed == 0 && is != Is::Closed, "late", "data after the end of the stream");
              seen.extend(d);
            },
            Ok(StreamEvent::StreamClosed(_)) => closed += 1,
            Err(_) if seen.len() >= served.len() && (!closes || closed > 0) => break,
            Err(_) => tokio::time::sleep(Duration::from_millis(1)).await,
          }
        }
        check!(seen == served, "data", "the client gets {seen:?}, and not {served:?}");
        same!("closed", closed, usize::from(closes), "times the client is told that its stream is closed");
        if closes {
          is = Is::Closed;
        }
      }
      check!(server.lock().unwrap().streams.len() == requests, "requests", "{} requests, not {requests}", server.lock().unwrap().streams.len());
      if is == Is::Open && trigger.is_some() {
        check!(until(|| server.lock().unwrap().streams.last().unwrap().got.len() >= sent.len()).await, "sent", "what is sent does not get to the server");
      }
      tokio::time::sleep(Duration::from_millis(1)).await;
      if let Some(s) = server.lock().unwrap().streams.last() {
        if !matches!(is, Is::No) && requests > 0 {
          check!(is == Is::Closed || is == Is::Waiting || s.got == sent, "sent", "the server gets {:?}, and not {sent:?}", s.got);
        }
        check!(is != Is::Open || trigger.is_none() || !s.ended, "ended", "the request ends with its stream open");
      }
      check!(trigger.is_none() || !network.is_finished(), "running", "the network ends on its own");
    }
    drop((handle, stream, events));
    if is != Is::Waiting {
      check!(until(|| network.is_finished()).await, "end", "the network goes on with nobody there, with a stream that is {is:?}");
    }
    accepting.abort();
    Ok(())
  });
  rt.shutdown_background();
  r
}

pub fn c51(r: &mut Run) {
  let n = if r.thorough() { 8 } else { 6 };
  r.explore("streams", &format!("every sequence of {n} steps of 13 kinds: streams that are answered, refused in two ways, not answered, or find no server; data each way, ends, breaks, killed connections, late data, the shutdown"), Opts::default(), move |c| explore(c, n));
  let n = if r.thorough() { 5 } else { 3 };
  r.explore("streams-full", &format!("{n} of them, nothing left out"), Opts::default().full(), move |c| explore(c, n));
}
