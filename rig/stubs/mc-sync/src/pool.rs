//! Real threads, used again from execution to execution.
use std::sync::mpsc::{channel, Sender};
use std::sync::Mutex;

type Job = Box<dyn FnOnce() + Send>;

static IDLE: Mutex<Vec<Sender<Job>>> = Mutex::new(Vec::new());

/// With `fresh`, on a thread that did nothing before.
pub fn run(mut job: Job, fresh: bool) {
  if fresh {
    std::thread::Builder::new().name("mc".into()).stack_size(4 << 20).spawn(job).unwrap();
    return;
  }
  loop {
    let idle = IDLE.lock().unwrap().pop();
    match idle {
      Some(tx) => match tx.send(job) {
        Ok(()) => return,
        Err(e) => job = e.0,
      },
      None => break,
    }
  }
  let (tx, rx) = channel::<Job>();
  tx.send(job).unwrap();
  std::thread::Builder::new()
    .name("mc".into())
    .stack_size(4 << 20)
    .spawn(move || {
      while let Ok(job) = rx.recv() {
        job();
        IDLE.lock().unwrap().push(tx.clone());
      }
    })
    .unwrap();
}
