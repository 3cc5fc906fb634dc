//! C23: the manager of the ring buffers: updates of the configuration, and flushes.

use crate::model::payload;
use crate::seq::HEADER;
use bd_buffer::buffer::RingBuffer as _;
use bd_buffer::{Buffer, BufferEvent, BufferEventWithResponse, BuffersWithAck, Manager};
use bd_client_stats_store::Collector;
use bd_proto::protos::config::v1::config::buffer_config::{BufferSizes, Type};
use bd_proto::protos::config::v1::config::{BufferConfig, BufferConfigList};
use mc::{check, fail, fut, same, th, Ctx, Opts, Res, Run, Scratch, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn c23(r: &mut Run) {
  let d = r.by_tier(4, 5);
  r.explore("updates", &format!("every sequence of {d} updates (of 2 buffers and the stream buffer; some are bad), writes, references taken and given back, and restarts"), Opts::default(), move |ctx| {
    let ctx2 = ctx.clone();
    ctx.one_schedule(move || updates(&ctx2, d, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
  });
  r.explore("acks", "an update that adds or removes buffers while another thread handles its events: every interleaving", Opts::dev(r.by_tier(1, 2)), move |ctx| {
    let ctx2 = ctx.clone();
    ctx.under(move || updates(&ctx2, 2, &[0, 1, 3, 5]))
  });
  let d = r.by_tier(3, 4);
  r.explore("flushes", &format!("every sequence of {d} writes, reads and requests to flush some, all or unknown buffers, on one thread with the readers of the buffers"), Opts::default(), move |ctx| flushes(ctx, d));
}

fn config(ids: &[(&str, Type, u32)]) -> BufferConfigList {
  BufferConfigList {
    buffer_config: ids
      .iter()
      .map(|(id, t, disk)| BufferConfig {
        name: format!("name of {id}"),
        id: (*id).to_string(),
        type_: (*t).into(),
        buffer_sizes: Some(BufferSizes { volatile_buffer_size_bytes: if *id == "b" { 300 } else { 60 }, non_volatile_buffer_size_bytes: HEADER + disk, ..Default::default() }).into(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}
const A: (&str, Type, u32) = ("a", Type::CONTINUOUS, 400);
const B: (&str, Type, u32) = ("b", Type::TRIGGER, 400);
/// More memory than there is on disk.
const BAD: (&str, Type, u32) = ("bad", Type::TRIGGER, 20);

fn manager(dir: &Path) -> (Arc<Manager>, tokio::sync::mpsc::Receiver<BufferEventWithResponse>) {
  Manager::new(dir.to_path_buf(), &Collector::default().scope(""), &bd_runtime::runtime::ConfigLoader::new(dir))
}

/// What is in a buffer is read, and taken from it.
fn take(t: Type, b: &Arc<Buffer>) -> Result<Vec<u32>, Violation> {
  let bad = |e: String| Violation { key: "read".into(), msg: e };
  let mut all = vec![];
  let mut put = |r: &[u8]| match (0 .. 40).find(|id| payload(*id, r.len() as u32) == r) {
    Some(id) => Ok(all.push(id)),
    None => Err(bad(format!("{r:?} is read"))),
  };
  if t == Type::TRIGGER {
    let mut c = b.new_consumer().map_err(|e| bad(e.to_string()))?;
    while let Ok(r) = c.try_read() {
      put(&r)?;
    }
  } else {
    let mut c = b.create_continous_consumer().map_err(|e| bad(e.to_string()))?;
    loop {
      let r = match fut::now(&mut (Box::pin(c.read()) as Pin<Box<dyn Future<Output = anyhow::Result<&[u8]>>>>)) {
        Some(r) => r.map(<[u8]>::to_vec),
        None => break,
      };
      put(&r.map_err(|e| bad(e.to_string()))?)?;
      c.advance_read_cursor().map_err(|e| bad(e.to_string()))?;
    }
  }
  Ok(all)
}

struct Live {
  manager: Arc<Manager>,
  events: Arc<Mutex<Vec<String>>>,
  acked: Arc<AtomicU64>,
  worker: th::JoinHandle<()>,
}
impl Live {
  fn new(dir: &Path) -> Self {
    let (manager, mut rx) = manager(dir);
    let (events, acked) = (Arc::new(Mutex::new(vec![])), Arc::new(AtomicU64::new(0)));
    let (ev, ack) = (events.clone(), acked.clone());
    let worker = th::named("events", move || {
      while let Some(mut e) = fut::block_on(rx.recv()) {
        let event = std::mem::replace(&mut e.event, BufferEvent::BufferRemoved(String::new()));
        ev.lock().unwrap().push(match &event {
          BufferEvent::ContinuousBufferCreated(id, _) => format!("continuous {id}"),
          BufferEvent::TriggerBufferCreated(id, _) => format!("trigger {id}"),
          BufferEvent::BufferRemoved(id) => format!("removed {id}"),
          BufferEvent::StreamBufferAdded(_) => "stream".into(),
          BufferEvent::StreamBufferRemoved(_) => "no stream".into(),
        });
        drop(event);
        th::point();
        ack.fetch_add(1, SeqCst);
        drop(e);
      }
    });
    Self { manager, events, acked, worker }
  }
}

fn updates(ctx: &Ctx, depth: usize, ops: &[usize]) -> Res {
  let dir = Scratch::new();
  let mut live = Live::new(dir.path());
  // What is in the buffers, and in the files that are left of others.
  let mut active: BTreeMap<String, Vec<u32>> = BTreeMap::new();
  let mut left: BTreeMap<String, Vec<u32>> = BTreeMap::new();
  let mut unknown: BTreeSet<String> = BTreeSet::new();
  let mut stream = false;
  let mut held: Option<(Arc<Buffer>, bool)> = None;
  let mut n = 0;
  for _ in 0 .. depth {
    ctx.state((&active, &left, stream, held.as_ref().map(|h| h.1)));
    let with_a = active.contains_key("a") || held.is_some();
    let ops: Vec<usize> = ops.iter().copied().filter(|op| with_a || *op < 8).collect();
    let op = *ctx.pick(&ops);
    match op {
      0 ..= 6 => {
        let (of, streaming, ok): (&[_], _, _) = [
          (&[][..], false, true),
          (&[A][..], false, true),
          (&[A, B][..], false, true),
          (&[B][..], true, true),
          (&[B, A][..], true, true),
          (&[B, BAD][..], true, false),
          (&[A][..], false, false),
        ][op];
        if op == 0 && active.len() > 1 {
          // One by one: the order of two is not determined.
          return Ok(());
        }
        // A file that is in use is not opened a second time.
        let ok = ok && !(matches!(held, Some((_, true))) && of.iter().any(|o| o.0 == "a"));
        let mut list = config(of);
        if op == 6 {
          list.buffer_config[0].type_ = protobuf::EnumOrUnknown::from_i32(17);
        }
        ctx.say(|| format!("update to {:?}, streaming {streaming}", of.iter().map(|o| o.0).collect::<Vec<_>>()));
        live.events.lock().unwrap().clear();
        live.acked.store(0, SeqCst);
        let r = fut::block_on(live.manager.update_from_config(&list, streaming));
        let (acked, events) = (live.acked.load(SeqCst), live.events.lock().unwrap().clone());
        same!("result", r.as_ref().map(Option::is_some).map_err(|_| ()), if ok { Ok(streaming) } else { Err(()) }, "what the update returns");
        same!("acked", acked, events.len() as u64, "events that were handled when the update returned");
        if ok {
          let mut removed = vec![];
          for id in active.keys().cloned().collect::<Vec<_>>() {
            if !of.iter().any(|o| o.0 == id) {
              removed.push(format!("removed {id}"));
              let was = active.remove(&id).unwrap();
              match &mut held {
                Some((_, gone)) if id == "a" => {
                  *gone = true;
                  left.insert(id, was);
                },
                _ => {},
              }
            }
          }
          let mut added = vec![];
          for (id, t, _) in of {
            if !active.contains_key(*id) {
              added.push(format!("{} {id}", if *t == Type::TRIGGER { "trigger" } else { "continuous" }));
              active.insert((*id).to_string(), left.remove(*id).unwrap_or_default());
              unknown.remove(*id);
            }
          }
          if stream != streaming {
            added.push(if streaming { "stream".into() } else { "no stream".to_string() });
          }
          stream = streaming;
          let at = removed.len();
          check!(events.len() >= at, "events", "{events:?}, though {removed:?} is due");
          let mut first = events[.. at].to_vec();
          first.sort();
          same!("events", (first, events[at ..].to_vec()), (removed, added), "events of the update");
        } else {
          same!("events", events, Vec::<String>::new(), "events of an update that fails");
          for o in of {
            if !active.contains_key(o.0) && !left.contains_key(o.0) {
              unknown.insert(o.0.to_string());
            }
          }
        }
      },
      7 => {
        ctx.say(|| "restart".into());
        if let Some((h, true)) = held.take() {
          drop(h);
          left.remove("a");
        }
        let Live { manager, worker, .. } = live;
        drop(manager);
        worker.join().unwrap();
        left.append(&mut active);
        stream = false;
        live = Live::new(dir.path());
      },
      8 => {
        if !active.contains_key("a") || n > 3 {
          return Ok(());
        }
        ctx.say(|| "write".into());
        for (id, (_, b)) in live.manager.buffers() {
          let mut p = b.new_thread_local_producer().map_err(|e| Violation { key: "producer".into(), msg: e.to_string() })?;
          if let Err(e) = p.write(&payload(n, 9)) {
            fail!("write", "a write to {id} fails: {e}");
          }
          b.flush();
          active.get_mut(&id).unwrap().push(n);
        }
        n += 1;
      },
      9 => {
        if held.is_some() {
          return Ok(());
        }
        ctx.say(|| "take a reference".into());
        held = live.manager.buffers().remove("a").map(|b| (b.1, false));
      },
      _ => {
        ctx.say(|| "give the reference back".into());
        if let Some((h, gone)) = held.take() {
          drop(h);
          if gone {
            left.remove("a");
          }
        } else {
          return Ok(());
        }
      },
    }
    let have: BTreeMap<String, Type> = live.manager.buffers().into_iter().map(|(id, (t, _))| (id, t)).collect();
    let want: BTreeMap<String, Type> = active.keys().map(|id| (id.clone(), if id == "a" { Type::CONTINUOUS } else { Type::TRIGGER })).collect();
    same!("buffers", have, want, "the buffers that there are");
    same!("stream", live.manager.stream_buffer().is_some(), stream, "whether there is a stream buffer");
    for id in ["a", "b"] {
      let want = active.contains_key(id) || left.contains_key(id);
      if want || !unknown.contains(id) {
        same!("files", dir.path().join(id).exists(), want, "whether the file of buffer {id} is there");
      }
    }
  }
  drop(held.take().filter(|h| !h.1));
  for (id, (t, b)) in live.manager.buffers() {
    same!("content", take(t, &b)?, active[&id], "what is in buffer {id}");
  }
  let Live { manager, worker, .. } = live;
  drop(manager);
  worker.join().unwrap();
  Ok(())
}

fn flushes(ctx: &Ctx, depth: usize) -> Res {
  // The choices are made first: the rest runs on a thread of its own, as it may not end.
  #[derive(Clone, Copy)]
  enum Op {
    Write(usize),
    Read(usize),
    Flush(&'static [&'static str]),
  }
  let ops: Vec<Op> = (0 .. depth)
    .map(|_| *ctx.pick(&[Op::Write(0), Op::Write(1), Op::Write(2), Op::Read(0), Op::Read(2), Op::Flush(&[]), Op::Flush(&["a"]), Op::Flush(&["b", "a"]), Op::Flush(&["x"]), Op::Flush(&["x", "b"])]))
    .collect();
  let (done_tx, done_rx) = std::sync::mpsc::channel();
  let all = async move {
    let dir = Scratch::new();
    let (manager, mut events) = manager(dir.path());
    let worker = tokio::spawn(async move { while events.recv().await.is_some() {} });
    let small = (A.0, A.1, 60);
    manager.update_from_config(&config(&[small, B]), true).await.unwrap();
    let buffers = manager.buffers();
    let stream = manager.stream_buffer().unwrap();
    let mut producers = vec![
      buffers["a"].1.new_thread_local_producer().unwrap(),
      buffers["b"].1.new_thread_local_producer().unwrap(),
      stream.clone().register_producer().unwrap(),
    ];
    let mut a = buffers["a"].1.create_continous_consumer().unwrap();
    let mut s = stream.clone().register_consumer().unwrap();
    let (tx, rx) = tokio::sync::mpsc::channel(10);
    let m = manager.clone();
    let flusher = tokio::spawn(async move { m.process_flushes(rx).await });
    let (mut acks, mut written, mut id) = (vec![], vec![], 0);
    for op in ops {
      match op {
        Op::Write(to) => {
          for _ in 0 .. if to == 1 { 2 } else { 5 } {
            id += 1;
            let r = producers[to].write(&payload(id, 11));
            // What the flush thread reads just then is not overwritten: the write is refused.
            if to == 1 && r.is_ok() {
              written.push(id);
            }
          }
        },
        Op::Read(0) => {
          if let Ok(Ok(_)) = tokio::time::timeout(Duration::ZERO, a.read()).await {
            a.advance_read_cursor().unwrap();
          }
        },
        Op::Read(_) => {
          if s.start_read(false).is_ok() {
            s.finish_read().unwrap();
          }
        },
        Op::Flush(ids) => {
          let (ack_tx, ack_rx) = bd_completion::Sender::new();
          tx.send(BuffersWithAck::new(ids.iter().map(|s| (*s).to_string()).collect(), Some(ack_tx))).await.unwrap();
          let of_b = ids.is_empty() || ids.contains(&"b");
          acks.push((ack_rx, if of_b { written.clone() } else { vec![] }, ids));
        },
      }
      tokio::task::yield_now().await;
    }
    let readers = tokio::task::spawn_local(async move {
      loop {
        tokio::select! {
          r = a.read() => { r.unwrap(); a.advance_read_cursor().unwrap(); },
          r = s.read() => { r.unwrap(); s.finish_read().unwrap(); },
        }
      }
    });
    for (ack, want, ids) in acks {
      check!(ack.recv().await.is_ok(), "ack", "a request to flush {ids:?} is not acknowledged");
      // What a crash would leave of b now.
      let copy = Scratch::new();
      std::fs::copy(dir.path().join("b"), copy.path().join("b")).unwrap();
      let (m2, mut e2) = self::manager(copy.path());
      let w2 = tokio::spawn(async move { while e2.recv().await.is_some() {} });
      m2.update_from_config(&config(&[B]), false).await.unwrap();
      let got = take(Type::TRIGGER, &m2.buffers()["b"].1)?;
      check!(want.iter().all(|w| got.contains(w)), "flushed", "{got:?} of {want:?} is on disk after the flush of {ids:?}");
      drop(m2);
      w2.await.unwrap();
    }
    readers.abort();
    drop(tx);
    check!(flusher.await.is_ok_and(|r| r.is_ok()), "ended", "the task that flushes ends with an error");
    drop(producers);
    drop(buffers);
    drop(stream);
    drop(manager);
    worker.await.unwrap();
    Ok(())
  };
  std::thread::spawn(move || {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let r = tokio::task::LocalSet::new().block_on(&rt, all);
    let _ = done_tx.send(r);
  });
  match done_rx.recv_timeout(Duration::from_secs(20)) {
    Ok(r) => r,
    Err(std::sync::mpsc::RecvTimeoutError::Timeout) => fail!("stuck", "the thread of the flushes and the readers is stuck"),
    Err(_) => fail!("panic", "the thread of the flushes panics: {}", mc::last_panic()),
  }
}
