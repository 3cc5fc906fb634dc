//! A client and a server with nothing but memory between them.

use axum::body::Body;
use axum::Router;
use bd_grpc::{Client, Code, Error, Status};
use http::{Request, Uri};
use hyper::body::Incoming;
use hyper_util::client::legacy::connect::{Connected, Connection};
use hyper_util::rt::{TokioExecutor, TokioIo};
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, DuplexStream, ReadBuf};
use tower::ServiceExt;

pub struct Pipe(DuplexStream);
impl AsyncRead for Pipe {
  fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.0).poll_read(cx, b)
  }
}
impl AsyncWrite for Pipe {
  fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    Pin::new(&mut self.0).poll_write(cx, b)
  }
  fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.0).poll_flush(cx)
  }
  fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.0).poll_shutdown(cx)
  }
}
impl Connection for Pipe {
  fn connected(&self) -> Connected {
    Connected::new()
  }
}

/// As what comes from a connector of hyper: the cause is inside.
#[derive(Debug)]
pub struct NoConnection(io::Error);
impl std::fmt::Display for NoConnection {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "no connection")
  }
}
impl std::error::Error for NoConnection {
  fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
    Some(&self.0)
  }
}

#[derive(Clone)]
pub enum Wire {
  To(Router),
  Fails(io::ErrorKind),
}
impl tower::Service<Uri> for Wire {
  type Response = TokioIo<Pipe>;
  type Error = NoConnection;
  type Future = std::future::Ready<Result<TokioIo<Pipe>, NoConnection>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), NoConnection>> {
    Poll::Ready(Ok(()))
  }
  fn call(&mut self, _: Uri) -> Self::Future {
    std::future::ready(match self {
      Self::To(router) => {
        let (a, b) = tokio::io::duplex(1 << 16);
        let router = router.clone();
        tokio::spawn(async move {
          let s = hyper::service::service_fn(move |r: Request<Incoming>| router.clone().oneshot(r));
          drop(hyper::server::conn::http2::Builder::new(TokioExecutor::new()).serve_connection(TokioIo::new(b), s).await);
        });
        Ok(TokioIo::new(Pipe(a)))
      },
      Self::Fails(kind) => Err(NoConnection(io::Error::new(*kind, "no"))),
    })
  }
}

pub fn client(wire: Wire, most: u64) -> Client<Wire> {
  Client::new_with_client(
    "http://server",
    hyper_util::client::legacy::Client::builder(TokioExecutor::new()).http2_only(true).build::<_, Body>(wire),
    most,
  )
  .unwrap()
}

pub const CODES: [i32; 8] = [0, 2, 3, 5, 9, 13, 14, 16];
pub fn code(n: i32) -> Code {
  match n {
    0 => Code::Ok,
    3 => Code::InvalidArgument,
    5 => Code::NotFound,
    9 => Code::FailedPrecondition,
    13 => Code::Internal,
    14 => Code::Unavailable,
    16 => Code::Unauthenticated,
    _ => Code::Unknown,
  }
}

/// What is not a status that the handler gave.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
  Timeout,
  ConnectTimeout,
  Closed,
  Body,
  Snap,
}
pub const ERRORS: [Kind; 5] = [Kind::Timeout, Kind::ConnectTimeout, Kind::Closed, Kind::Body, Kind::Snap];
impl Kind {
  pub fn error(self) -> Error {
    match self {
      Self::Timeout => Error::RequestTimeout,
      Self::ConnectTimeout => Error::ConnectionTimeout,
      Self::Closed => Error::Closed,
      Self::Body => Error::BodyStream("gone".into()),
      Self::Snap => Error::Snap(snap::raw::Decoder::new().decompress_vec(&[200, 1, 2, 3]).unwrap_err()),
    }
  }
}

pub type Failure = (i32, Option<String>);
/// What a failure looks like.
pub fn seen(e: &Error) -> Failure {
  match e {
    Error::Grpc(Status { code, message }) => (code.to_int(), message.clone()),
    e => (-1, Some(format!("{e}"))),
  }
}
pub type Shared<T> = Arc<std::sync::Mutex<T>>;
