//! C22: the ring buffers with their threads: producers, the flush thread, readers, locks, flushes
//! and shutdowns.

use crate::model::payload;
use crate::seq::{code, HEADER};
use bd_buffer::buffer::{OptionalStatGetter, VolatileRingBuffer};
use bd_buffer::{AbslCode, AggregateRingBuffer, AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer, RingBufferStats, StatsHelper};
use bd_client_stats_store::Collector;
use mc::{check, fut, same, th, Ctx, Opts, Res, Run, Scratch, Violation};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub fn c22(r: &mut Run) {
  r.assume("the locks order the accesses to the memory of the buffers; the bytes of a record are written and read in two steps each");
  let d = r.by_tier(2, 3);
  r.explore("volatile", "2 producers of 2 records each, a blocking reader, and a shutdown, on a volatile buffer with room for 2 records: every interleaving", Opts::dev(d), |ctx| {
    ctx.under(volatile)
  });
  r.explore("flush", "2 producers of 2 records each, of which one or both flush, while the flush thread works, on an aggregate buffer with room for 2 (or 8) records in memory; then a restart: every interleaving", Opts::dev(r.by_tier(1, 2)), |ctx| {
    let room = *ctx.pick(&[27, 100]);
    let flushes = 2 - ctx.choose(2) as u32;
    let ctx2 = ctx.clone();
    ctx.under(move || flush(&ctx2, room, flushes))
  });
  r.explore("sizes", "records of every size that the memory takes, on an aggregate buffer with as much room on disk, with and without what records take there; each is flushed, and so is a small one after it", Opts::dev(0), |ctx| {
    let extra = *ctx.pick(&[0, 4, 8]);
    let len = ctx.choose(27) as u32 + 1;
    ctx.under(move || sizes(extra, len))
  });
  r.explore("cursor", "2 producers, the flush thread and a cursor consumer that reads ahead, on an aggregate buffer that keeps everything, with room for 2 records: every interleaving, up to a shutdown", Opts::dev(r.by_tier(1, 2)), |ctx| {
    let ahead = ctx.choose(2);
    ctx.under(move || cursor(ahead))
  });
  r.explore("async", "a producer and an async (cursor or plain) reader of an aggregate or of a volatile buffer: every interleaving", Opts::dev(r.by_tier(2, 4)), |ctx| {
    let kind = ctx.choose(3);
    ctx.under(move || async_read(kind))
  });
  r.explore("locked", "a producer, a reader that locks, drains and flushes, and the flush thread: every interleaving", Opts::dev(d), |ctx| {
    ctx.under(locked)
  });
  r.explore("shutdown", "a shutdown or the end of the buffer during the work of a producer, the flush thread and a reader that blocks, in each mode: every interleaving", Opts::dev(r.by_tier(1, 2)), |ctx| {
    let (mode, end) = (ctx.choose(3), ctx.flip());
    ctx.under(move || shutdown(mode, end))
  });
}

fn stats() -> Arc<RingBufferStats> {
  StatsHelper::new(&Collector::default().scope("")).stats
}

struct World {
  dir: Scratch,
  memory: u32,
  disk: u32,
  over: AllowOverwrite,
  vs: Arc<RingBufferStats>,
  ns: Arc<RingBufferStats>,
}
impl World {
  fn new(memory: u32, disk: u32, over: AllowOverwrite) -> Self {
    Self { dir: Scratch::new(), memory, disk, over, vs: stats(), ns: stats() }
  }
  fn open(&self) -> Result<Arc<AggregateRingBuffer>, Violation> {
    AggregateRingBuffer::new("a", self.memory, self.dir.path().join("b"), self.disk + HEADER, PerRecordCrc32Check::Yes, self.over, self.vs.clone(), self.ns.clone())
      .map_err(|e| Violation { key: "open".into(), msg: format!("the buffer does not open: {e}") })
  }
}

/// Records are named by their producer and number.
fn name(p: u32, n: u32) -> u32 {
  p * 16 + n
}
const LEN: u32 = 9;

fn write(p: &mut Box<dyn bd_buffer::buffer::RingBufferProducer>, id: u32, len: u32) -> Result<(), Error> {
  let b = payload(id, len);
  let s = p.reserve(len, true)?;
  let half = b.len() / 2;
  s[.. half].copy_from_slice(&b[.. half]);
  th::point();
  s[half ..].copy_from_slice(&b[half ..]);
  p.commit()
}

fn which(b: &[u8]) -> Option<u32> {
  (0 .. 48).find(|id| payload(*id, b.len() as u32) == b)
}

fn bad(k: &str, m: String) -> Res {
  Err(Violation { key: k.into(), msg: m })
}

/// Every producer's records come in its order.
fn ordered(read: &[u32]) -> Res {
  for p in 0 .. 3 {
    let of: Vec<u32> = read.iter().copied().filter(|r| r / 16 == p).collect();
    check!(of.windows(2).all(|w| w[0] < w[1]), "order", "what was read of producer {p} is {of:?}");
  }
  Ok(())
}

fn volatile() -> Res {
  let stats = stats();
  let buf = VolatileRingBuffer::new("v".into(), 30, stats.clone());
  let mut ts = vec![];
  for p in 0 .. 2 {
    let mut producer = buf.clone().register_producer().unwrap();
    ts.push(th::named(&format!("producer {p}"), move || {
      for n in 0 .. 2 {
        match write(&mut producer, name(p, n), LEN) {
          Ok(()) | Err(Error::AbslStatus(AbslCode::ResourceExhausted, _)) => {},
          Err(e) => return bad("write", format!("a write fails: {e}")),
        }
      }
      Ok(())
    }));
  }
  let b = buf.clone();
  let reader = th::named("reader", move || {
    let mut consumer = b.register_consumer().unwrap();
    let mut read = vec![];
    loop {
      let r = consumer.start_read(true);
      let c = code(&r);
      match r {
        Ok(b) => {
          let first = b.to_vec();
          th::point();
          if b != first {
            return (read, bad("changed", "a record changes while it is read".into()));
          }
          match which(b) {
            Some(id) => read.push(id),
            None => return (read, bad("garbage", format!("{first:?} is read"))),
          }
          if let Err(e) = consumer.finish_read() {
            return (read, bad("finish", format!("a read cannot be finished: {e}")));
          }
        },
        Err(_) if c == "aborted" => return (read, Ok(())),
        Err(e) => return (read, bad("read", format!("a blocking read fails: {e}"))),
      }
    }
  });
  for t in ts {
    t.join().unwrap()?;
  }
  buf.shutdown();
  let (mut read, r) = reader.join().unwrap();
  r?;
  let mut consumer = buf.clone().register_consumer().unwrap();
  while let Ok(b) = consumer.start_read(false) {
    match which(b) {
      Some(id) => read.push(id),
      None => return bad("garbage", format!("{b:?} is read")),
    }
    consumer.finish_read().unwrap();
  }
  ordered(&read)?;
  same!("count", read.len() as u64 + stats.records_overwritten.get_value(), stats.records_written.get_value(), "records that were read or overwritten, against written");
  same!("all", stats.records_written.get_value() + stats.records_refused.get_value(), 4, "records that were written or refused");
  Ok(())
}

fn flush(ctx: &Ctx, room: u32, flushes: u32) -> Res {
  let w = Arc::new(World::new(room, 300, AllowOverwrite::Yes));
  let buf = w.open()?;
  let refused = Arc::new(AtomicU64::new(0));
  let mut ts = vec![];
  for p in 0 .. 2 {
    let (b, w, refused) = (buf.clone(), w.clone(), refused.clone());
    ts.push(th::named(&format!("producer {p}"), move || {
      let mut producer = b.clone().register_producer().unwrap();
      for n in 0 .. 2 {
        match write(&mut producer, name(p, n), LEN + p * (2 - n)) {
          Ok(()) => {},
          Err(Error::AbslStatus(AbslCode::ResourceExhausted, _)) => {
            refused.fetch_add(1, SeqCst);
          },
          Err(e) => return bad("write", format!("a write fails: {e}")),
        }
      }
      if p >= flushes {
        return Ok(());
      }
      let before = w.vs.records_written.get_value();
      b.flush();
      let there = w.ns.records_written.get_value() + w.vs.records_overwritten.get_value();
      check!(there >= before, "flush", "after a flush, {there} of {before} records are on disk or overwritten");
      Ok(())
    }));
  }
  for t in ts {
    t.join().unwrap()?;
  }
  buf.flush();
  let lost = w.vs.records_overwritten.get_value();
  drop(buf);
  let buf = w.open()?;
  let mut consumer = buf.clone().register_consumer().unwrap();
  let mut read = vec![];
  loop {
    match consumer.start_read(false) {
      Ok(b) => match which(b) {
        Some(id) => read.push(id),
        None => return bad("garbage", format!("{b:?} is read")),
      },
      Err(_) => break,
    }
    consumer.finish_read().unwrap();
  }
  ctx.say(|| format!("{read:?} after the restart, {lost} overwritten"));
  ordered(&read)?;
  same!("all", read.len() as u64 + lost + refused.load(SeqCst), 4, "records that were read after the restart, overwritten or refused");
  Ok(())
}

fn sizes(extra: u32, len: u32) -> Res {
  let w = World::new(30, 30 + extra, AllowOverwrite::Yes);
  let buf = w.open()?;
  let mut producer = buf.clone().register_producer().unwrap();
  let mut fits = 0;
  for (id, len) in [(1, len), (2, 1)] {
    match write(&mut producer, id, len) {
      Ok(()) => fits += u64::from(len + 8 <= w.disk),
      Err(e) => check!(len + 4 > 30, "write", "a record of {len} bytes is refused: {e}"),
    }
    buf.flush();
    same!("flushed", w.ns.records_written.get_value(), fits, "records on disk after a record of {len} bytes was flushed");
  }
  Ok(())
}

fn cursor(ahead: usize) -> Res {
  let w = Arc::new(World::new(60, 60, AllowOverwrite::Block));
  let buf = w.open()?;
  let mut ts = vec![];
  for p in 0 .. 2 {
    let b = buf.clone();
    ts.push(th::named(&format!("producer {p}"), move || {
      let mut producer = b.clone().register_producer().unwrap();
      for n in 0 .. 2 {
        if let Err(e) = write(&mut producer, name(p, n), 11) {
          return bad("write", format!("a write fails: {e}"));
        }
      }
      Ok(())
    }));
  }
  let b = buf.clone();
  let reader = th::named("reader", move || {
    let mut read = vec![];
    let mut consumer = b.register_cursor_consumer().unwrap();
    let mut behind = 0;
    for _ in 0 .. 4 {
      match consumer.start_read(true) {
        Ok(b) => match which(b) {
          Some(id) => read.push(id),
          None => return (read, bad("garbage", format!("{b:?} is read"))),
        },
        Err(e) => return (read, bad("read", format!("a read fails: {e}"))),
      }
      behind += 1;
      while behind > ahead {
        behind -= 1;
        if let Err(e) = consumer.advance_read_pointer() {
          return (read, bad("advance", format!("the read pointer does not advance: {e}")));
        }
      }
    }
    (read, Ok(()))
  });
  for t in ts {
    t.join().unwrap()?;
  }
  let (mut read, r) = reader.join().unwrap();
  r?;
  ordered(&read)?;
  same!("lost", w.vs.records_overwritten.get_value(), 0, "records that were overwritten in memory, which has room for all");
  drop(buf);
  // Those that the read pointer is not past are read again.
  let buf = w.open()?;
  let mut consumer = buf.clone().register_cursor_consumer().unwrap();
  let mut again = vec![];
  while let Ok(b) = consumer.start_read(false) {
    again.push(which(b));
  }
  same!("again", again, read.split_off(4 - ahead).into_iter().map(Some).collect::<Vec<_>>(), "what is read after the restart");
  Ok(())
}

fn async_read(kind: usize) -> Res {
  let w = World::new(60, 60, AllowOverwrite::Block);
  let agg = w.open()?;
  let buf: Arc<dyn RingBuffer> = if kind == 0 { VolatileRingBuffer::new("v".into(), 60, stats()) } else { agg };
  let b = buf.clone();
  let producer = th::named("producer", move || {
    let mut producer = b.register_producer().unwrap();
    for n in 0 .. 3 {
      if let Err(e) = write(&mut producer, n, LEN) {
        return bad("write", format!("a write fails: {e}"));
      }
    }
    Ok(())
  });
  let mut read = vec![];
  if kind == 2 {
    let mut c = buf.clone().register_cursor_consumer().unwrap();
    for _ in 0 .. 3 {
      read.push(fut::block_on(async { c.read().await.map(<[u8]>::to_vec) }));
      c.advance_read_pointer().unwrap();
    }
  } else {
    let mut c = buf.clone().register_consumer().unwrap();
    for _ in 0 .. 3 {
      read.push(fut::block_on(async { c.read().await.map(<[u8]>::to_vec) }));
      c.finish_read().unwrap();
    }
  }
  producer.join().unwrap()?;
  let read: Vec<_> = read.into_iter().map(|r| r.ok().and_then(|b| which(&b))).collect();
  same!("read", read, vec![Some(0), Some(1), Some(2)], "what is read");
  Ok(())
}

fn locked() -> Res {
  let w = Arc::new(World::new(60, 200, AllowOverwrite::Yes));
  let buf = w.open()?;
  let locked = Arc::new(AtomicBool::new(false));
  let written = Arc::new(Mutex::new(vec![]));
  let (b, l, wr) = (buf.clone(), locked.clone(), written.clone());
  let producer = th::named("producer", move || {
    let mut producer = b.register_producer().unwrap();
    for n in 0 .. 3 {
      let before = l.load(SeqCst);
      let r = write(&mut producer, n, LEN);
      match r {
        Ok(()) => {
          check!(!before || !l.load(SeqCst), "locked", "a record is written to a locked buffer");
          wr.lock().unwrap().push(n);
        },
        Err(Error::AbslStatus(AbslCode::FailedPrecondition, _)) => {},
        Err(e) => return bad("write", format!("a write fails: {e}")),
      }
    }
    Ok(())
  });
  let handle = buf.clone().lock();
  handle.await_reservations_drained();
  locked.store(true, SeqCst);
  let before = written.lock().unwrap().clone();
  buf.flush();
  let mut consumer = buf.clone().register_consumer().unwrap();
  let mut read = vec![];
  while let Ok(b) = consumer.start_read(false) {
    match which(b) {
      Some(id) => read.push(id),
      None => return bad("garbage", format!("{b:?} is read")),
    }
    consumer.finish_read().unwrap();
  }
  locked.store(false, SeqCst);
  drop(consumer);
  drop(handle);
  producer.join().unwrap()?;
  check!(before.iter().all(|b| read.contains(b)), "missing", "{read:?} is read, though {before:?} was written before the lock");
  let mut producer = buf.clone().register_producer().unwrap();
  if let Err(e) = write(&mut producer, 5, LEN) {
    return bad("unlocked", format!("a write fails after the lock is gone: {e}"));
  }
  buf.flush();
  let mut consumer = buf.clone().register_consumer().unwrap();
  while let Ok(b) = consumer.start_read(false) {
    read.extend(which(b));
    consumer.finish_read().unwrap();
  }
  let mut all = written.lock().unwrap().clone();
  all.push(5);
  same!("all", read, all, "what was read");
  Ok(())
}

fn shutdown(mode: usize, end: bool) -> Res {
  let over = if mode == 0 { AllowOverwrite::Yes } else { AllowOverwrite::Block };
  let w = Arc::new(World::new(34, 34, over));
  let buf = w.open()?;
  let mut producer = buf.clone().register_producer().unwrap();
  let written = Arc::new(AtomicU64::new(0));
  let wr = written.clone();
  let p = th::named("producer", move || {
    for n in 0 .. 4 {
      match write(&mut producer, n, LEN) {
        Ok(()) => {
          wr.fetch_add(1, SeqCst);
        },
        Err(Error::AbslStatus(AbslCode::FailedPrecondition | AbslCode::ResourceExhausted, _)) => {},
        Err(e) => return bad("write", format!("a write fails: {e}")),
      }
    }
    Ok(())
  });
  let read = Arc::new(Mutex::new(vec![]));
  let rd = read.clone();
  let mut plain = (mode != 2).then(|| buf.clone().register_consumer().unwrap());
  let mut cursor = (mode == 2).then(|| buf.clone().register_cursor_consumer().unwrap());
  let reader = th::named("reader", move || {
    for _ in 0 .. 3 {
      let r = match (&mut plain, &mut cursor) {
        (Some(p), _) => p.start_read(!end).map(which),
        (_, Some(c)) => c.start_read(!end).map(which),
        _ => unreachable!(),
      };
      match r {
        Ok(Some(id)) => rd.lock().unwrap().push(id),
        Ok(None) => return bad("garbage", "what is read was not written".into()),
        Err(Error::AbslStatus(AbslCode::Aborted, _)) => return Ok(()),
        Err(Error::AbslStatus(AbslCode::Unavailable, _)) if end => continue,
        Err(e) => return bad("read", format!("a read fails: {e}")),
      }
      if let Some(p) = &mut plain {
        let _ = p.finish_read();
      }
      if let Some(c) = &mut cursor {
        let _ = c.advance_read_pointer();
      }
    }
    Ok(())
  });
  th::point();
  if end {
    // What a reader has at hand is memory of the buffer: it lasts as long as the buffer.
    reader.join().unwrap()?;
    if mode == 0 {
      drop(buf);
      p.join().unwrap()?;
    } else {
      buf.shutdown();
      p.join().unwrap()?;
      drop(buf);
    }
  } else {
    buf.shutdown();
    p.join().unwrap()?;
    reader.join().unwrap()?;
    let mut late = buf.clone().register_producer().unwrap();
    check!(write(&mut late, 9, LEN).is_err(), "late", "a record is written after the shutdown");
    drop(buf);
  }
  let read = read.lock().unwrap().clone();
  ordered(&read)?;
  // What was written before the end is on disk, was read, or had to make room.
  let gone = w.vs.records_overwritten.get_value() + w.ns.records_overwritten.get_value();
  let on_disk = w.ns.records_written.get_value();
  if mode == 0 {
    same!("shutdown", on_disk + w.vs.records_overwritten.get_value(), written.load(SeqCst), "records on disk or overwritten in memory, of those that were written");
  }
  let buf = w.open()?;
  let mut consumer = buf.clone().register_consumer().unwrap();
  let mut rest = vec![];
  while let Ok(b) = consumer.start_read(false) {
    match which(b) {
      Some(id) => rest.push(id),
      None => return bad("garbage", format!("{b:?} is read after the restart")),
    }
    consumer.finish_read().unwrap();
  }
  ordered(&rest)?;
  if mode == 0 {
    // A read that did not end may have taken its record along.
    let n = read.len() as u64 + rest.len() as u64 + gone;
    let all = written.load(SeqCst);
    check!(n >= all, "lost", "{read:?} and then {rest:?} are read, {gone} were overwritten, of {all}");
  }
  Ok(())
}
