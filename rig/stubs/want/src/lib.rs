//! Offline stand-in for want 0.3.1.
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
#[derive(Clone, Copy, PartialEq, Debug)]
enum State { Idle, Want, Give, Closed }
#[derive(Debug)]
struct Inner { state: State, task: Option<Waker> }
#[derive(Debug)]
pub struct Giver(Arc<Mutex<Inner>>);
#[derive(Debug)]
pub struct Taker(Arc<Mutex<Inner>>);
pub struct Closed(());
impl std::fmt::Debug for Closed {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Closed") }
}
impl std::fmt::Display for Closed {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Closed") }
}
impl std::error::Error for Closed {}
#[derive(Clone, Debug)]
pub struct SharedGiver(Arc<Mutex<Inner>>);
pub fn new() -> (Giver, Taker) {
  let i = Arc::new(Mutex::new(Inner { state: State::Idle, task: None }));
  (Giver(i.clone()), Taker(i))
}
impl Giver {
  pub fn poll_want(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
    let mut i = self.0.lock().unwrap();
    match i.state {
      State::Want => Poll::Ready(Ok(())),
      State::Closed => Poll::Ready(Err(Closed(()))),
      State::Idle | State::Give => {
        i.state = State::Give;
        i.task = Some(cx.waker().clone());
        Poll::Pending
      },
    }
  }
  pub fn give(&self) -> bool {
    let mut i = self.0.lock().unwrap();
    if i.state == State::Want { i.state = State::Idle; true } else { false }
  }
  pub fn is_wanting(&self) -> bool { self.0.lock().unwrap().state == State::Want }
  pub fn is_canceled(&self) -> bool { self.0.lock().unwrap().state == State::Closed }
  pub fn shared(&self) -> SharedGiver { SharedGiver(self.0.clone()) }
}
impl SharedGiver {
  pub fn is_wanting(&self) -> bool { self.0.lock().unwrap().state == State::Want }
  pub fn is_canceled(&self) -> bool { self.0.lock().unwrap().state == State::Closed }
}
impl Taker {
  fn signal(&self, s: State) {
    let w = {
      let mut i = self.0.lock().unwrap();
      if i.state == State::Closed { return; }
      let give = i.state == State::Give;
      i.state = s;
      if give { i.task.take() } else { None }
    };
    if let Some(w) = w { w.wake(); }
  }
  pub fn cancel(&mut self) { self.signal(State::Closed); }
  pub fn want(&mut self) { self.signal(State::Want); }
}
impl Drop for Taker {
  fn drop(&mut self) { self.signal(State::Closed); }
}
