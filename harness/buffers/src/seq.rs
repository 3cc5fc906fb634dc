//! C19, C20: what goes into a ring buffer comes out of it, one operation at a time.

use crate::model::{payload, Place, Ring, St};
use bd_buffer::buffer::{
  BlockWhenReservingIntoConcurrentRead, NonVolatileFileHeader, NonVolatileRingBuffer, OptionalStatGetter, RingBufferCursorConsumer,
  RingBufferProducer, VolatileRingBuffer,
};
use bd_buffer::{AbslCode, AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, RingBufferStats, StatsHelper};
use bd_client_stats_store::Collector;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Scratch, Violation};
use std::collections::VecDeque;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
  Volatile,
  /// Overwrites the oldest.
  Disk,
  /// Keeps all until read.
  Full,
  /// Keeps all until the read pointer is past.
  Cursor,
}
impl Kind {
  fn blocks(self) -> bool {
    matches!(self, Self::Full | Self::Cursor)
  }
  fn on_disk(self) -> bool {
    self != Self::Volatile
  }
}

pub const HEADER: u32 = std::mem::size_of::<NonVolatileFileHeader>() as u32;

pub fn c19(r: &mut Run) {
  r.assume("one operation at a time here; interleavings are explored in C23");
  let d = r.by_tier(10, 13);
  for (name, cap, sizes) in [("volatile", 30, [3u32, 9, 14]), ("volatile-odd", 37, [1, 12, 33])] {
    r.explore(name, &format!("every sequence of {d} operations of 2 producers, a consumer and a lock on {cap} bytes, with records of {sizes:?} bytes"), Opts::default(), move |ctx| run(ctx, Kind::Volatile, cap, &sizes, 2, d));
  }
  let d = r.by_tier(6, 7);
  r.explore("volatile-full", &format!("every sequence of {d} of these, whatever states they reach"), Opts::default().full(), move |ctx| run(ctx, Kind::Volatile, 30, &[3, 14], 2, d));
}

pub fn c20(r: &mut Run) {
  let d = r.by_tier(9, 12);
  for kind in [Kind::Disk, Kind::Full, Kind::Cursor] {
    for (cap, sizes) in [(40, [3u32, 8, 17]), (37, [1, 10, 29])] {
      r.explore(&format!("{kind:?}-{cap}").to_lowercase(), &format!("every sequence of {d} operations of a producer and a consumer, with restarts, on {cap} bytes, with records of {sizes:?} bytes"), Opts::default(), move |ctx| run(ctx, kind, cap, &sizes, 1, d));
    }
    let d = r.by_tier(6, 7);
    r.explore(&format!("{kind:?}-full").to_lowercase(), &format!("every sequence of {d} of these, whatever states they reach"), Opts::default().full(), move |ctx| run(ctx, kind, 40, &[3, 17], 1, d));
  }
}

pub fn open(kind: Kind, path: &std::path::Path, cap: u32, stats: Arc<RingBufferStats>) -> Result<Arc<dyn RingBuffer>, Error> {
  if kind == Kind::Volatile {
    return Ok(VolatileRingBuffer::new("v".into(), cap, stats));
  }
  let over = if kind.blocks() { AllowOverwrite::Block } else { AllowOverwrite::Yes };
  Ok(NonVolatileRingBuffer::new("n".into(), path, cap + HEADER, over, BlockWhenReservingIntoConcurrentRead::No, PerRecordCrc32Check::Yes, stats)?)
}

pub struct Slice(*mut u8, usize);
impl Slice {
  pub fn of(s: &mut [u8]) -> Self {
    Self(s.as_mut_ptr(), s.len())
  }
  pub fn read(s: &[u8]) -> Self {
    Self(s.as_ptr().cast_mut(), s.len())
  }
  pub fn fill(&self, b: &[u8]) {
    assert_eq!(b.len(), self.1);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.0, self.1) }
  }
  pub fn get(&self) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(self.0, self.1) }.to_vec()
  }
}

enum Reader {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

pub fn code<T>(r: &Result<T, Error>) -> &'static str {
  match r {
    Ok(_) => "ok",
    Err(Error::AbslStatus(c, _)) => match c {
      AbslCode::InvalidArgument => "invalid",
      AbslCode::ResourceExhausted => "exhausted",
      AbslCode::Unavailable => "unavailable",
      AbslCode::FailedPrecondition => "precondition",
      AbslCode::Aborted => "aborted",
      AbslCode::DataLoss => "data loss",
      _ => "other code",
    },
    Err(_) => "other error",
  }
}

struct Rig {
  kind: Kind,
  cap: u32,
  dir: Scratch,
  stats: Arc<RingBufferStats>,
  buf: Option<Arc<dyn RingBuffer>>,
  producers: Vec<Box<dyn RingBufferProducer>>,
  reader: Option<Reader>,
  writing: Vec<Option<Slice>>,
  reading: VecDeque<(Slice, u32, u32)>,
  locks: Vec<Box<dyn bd_buffer::buffer::LockHandle>>,
}

impl Rig {
  fn open(&mut self, producers: u8) -> Res {
    let b = match open(self.kind, &self.dir.path().join("b"), self.cap, self.stats.clone()) {
      Ok(b) => b,
      Err(e) => fail!("open", "the buffer does not open: {e}"),
    };
    for _ in 0 .. producers {
      self.producers.push(b.clone().register_producer().map_err(|e| Violation { key: "register".into(), msg: format!("no producer: {e}") })?);
    }
    self.writing = (0 .. producers).map(|_| None).collect();
    self.buf = Some(b);
    self.register()
  }
  fn register(&mut self) -> Res {
    let b = self.buf.clone().unwrap();
    let r = if self.kind == Kind::Cursor { b.register_cursor_consumer().map(Reader::Cursor) } else { b.register_consumer().map(Reader::Plain) };
    self.reader = match r {
      Ok(r) => Some(r),
      Err(e) => fail!("register", "no consumer: {e}"),
    };
    Ok(())
  }
  fn close(&mut self) {
    self.reading.clear();
    self.writing.clear();
    self.reader = None;
    self.producers.clear();
    self.locks.clear();
    self.buf = None;
  }
}

#[derive(Default, Clone, Copy, Debug)]
struct Counts {
  written: u64,
  bytes_written: u64,
  read: u64,
  bytes_read: u64,
  overwritten: u64,
}

pub fn run(ctx: &Ctx, kind: Kind, cap: u32, sizes: &[u32], producers: u8, depth: u32) -> Res {
  let mut rig = Rig {
    kind,
    cap,
    dir: Scratch::new(),
    stats: StatsHelper::new(&Collector::default().scope("")).stats,
    buf: None,
    producers: vec![],
    reader: None,
    writing: vec![],
    reading: VecDeque::new(),
    locks: vec![],
  };
  rig.open(producers)?;
  let mut m = Ring::new(cap, if kind.on_disk() { 8 } else { 4 });
  let mut c = Counts::default();
  let mut next = 0;
  let per = sizes.len() + 1;
  for left in (0 .. depth).rev() {
    ctx.step();
    let op = ctx.choose(per * producers as usize + 4);
    if op < per * producers as usize {
      let (p, k) = (op / per, op % per);
      if k < sizes.len() {
        reserve(ctx, &mut rig, &mut m, &mut c, p, sizes[k], &mut next)?;
      } else {
        commit(ctx, &mut rig, &mut m, &mut c, p)?;
      }
    } else {
      match op - per * producers as usize {
        0 => start(ctx, &mut rig, &mut m)?,
        1 => finish(ctx, &mut rig, &mut m, &mut c)?,
        2 => lock(ctx, &mut rig, &mut m),
        _ if kind.on_disk() => {
          ctx.say(|| "restart".into());
          rig.close();
          rig.open(producers)?;
          m.restart(kind == Kind::Cursor);
        },
        _ => {
          // Another consumer takes over.
          if rig.reading.is_empty() {
            ctx.say(|| "new consumer".into());
            rig.reader = None;
            rig.register()?;
          }
        },
      }
    }
    counters(&rig, &c)?;
    if ctx.known(m.key(), left) {
      break;
    }
  }
  rest(ctx, &mut rig, &mut m, &mut c)
}

fn reserve(ctx: &Ctx, rig: &mut Rig, m: &mut Ring, c: &mut Counts, p: usize, len: u32, next: &mut u32) -> Res {
  let place = m.place(len);
  let want = if m.reserved_by(p as u8).is_some() {
    "invalid"
  } else if m.locks > 0 {
    "precondition"
  } else {
    match place {
      Place::Invalid => "invalid",
      Place::Busy => "exhausted",
      Place::At(_, n) if n > 0 && rig.kind.blocks() => "unavailable",
      Place::At(..) => "ok",
    }
  };
  let refused = rig.stats.records_refused.get_value();
  let r = rig.producers[p].reserve(len, false);
  let got = code(&r);
  ctx.say(|| format!("producer {p} reserves {len}: {got}"));
  let want = match place {
    Place::At(_, n) if want == "unavailable" && got == "ok" && m.leftovers(n) => got,
    _ => want,
  };
  same!("reserve", got, want, "producer {p} reserves {len} bytes, with {m:?}");
  if let Ok(s) = r {
    same!("reserve-len", s.len(), len as usize, "the reserved space");
    let (Place::At(at, n)) = place else { unreachable!() };
    s.fill(0xee);
    rig.writing[p] = Some(Slice::of(s));
    c.overwritten += m.reserve(at, n, len, p as u8, *next);
    *next += 1;
  } else if want == "exhausted" {
    same!("refused", rig.stats.records_refused.get_value(), refused + 1, "refused records that were counted");
  }
  Ok(())
}

fn commit(ctx: &Ctx, rig: &mut Rig, m: &mut Ring, c: &mut Counts, p: usize) -> Res {
  let want = if let Some(e) = m.reserved_by(p as u8) {
    rig.writing[p].take().unwrap().fill(&payload(e.id, e.len));
    "ok"
  } else {
    "invalid"
  };
  let got = code(&rig.producers[p].commit());
  ctx.say(|| format!("producer {p} commits: {got}"));
  same!("commit", got, want, "producer {p} commits, with {m:?}");
  if want == "ok" {
    for e in m.commit(p as u8) {
      c.written += 1;
      c.bytes_written += u64::from(e.len);
    }
  }
  Ok(())
}

fn start(ctx: &Ctx, rig: &mut Rig, m: &mut Ring) -> Res {
  if rig.kind != Kind::Cursor && m.passed() > 0 {
    let Some(Reader::Plain(r)) = rig.reader.as_mut() else { unreachable!() };
    same!("start", code(&r.start_read(false)), "invalid", "a second read is started");
    return Ok(());
  }
  let r = match rig.reader.as_mut().unwrap() {
    Reader::Plain(r) => r.start_read(false),
    Reader::Cursor(r) => r.start_read(false),
  };
  let got = code(&r);
  let bytes = r.as_ref().ok().map(|b| b.to_vec());
  let at = r.as_ref().ok().map(|b| Slice::read(b));
  ctx.say(|| format!("start read: {got} {bytes:?}"));
  // What a crash left behind is skipped over.
  let i = loop {
    let Some(i) = m.exts.iter().position(|e| !e.passed && !matches!(e.st, St::Reserved(_) | St::Done)) else { break None };
    match m.exts[i].st {
      St::Ready => break Some(i),
      St::Maybe if bytes.as_ref() == Some(&payload(m.exts[i].id, m.exts[i].len)) => {
        m.exts[i].st = St::Ready;
        break Some(i);
      },
      _ if rig.kind != Kind::Cursor => {
        m.exts.remove(i);
      },
      _ => {
        m.exts[i].st = St::Dead;
        m.exts[i].passed = true;
      },
    }
  };
  let Some(i) = i else {
    m.tidy();
    same!("read", got, "unavailable", "a read of an empty buffer ({bytes:?}), {m:?}");
    return Ok(());
  };
  same!("read", got, "ok", "a read, with {m:?}");
  let e = m.exts[i];
  same!("read-data", bytes.unwrap(), payload(e.id, e.len), "what is read, with {m:?}");
  m.exts[i].passed = true;
  m.tidy();
  rig.reading.push_back((at.unwrap(), e.id, e.len));
  Ok(())
}

fn finish(ctx: &Ctx, rig: &mut Rig, m: &mut Ring, c: &mut Counts) -> Res {
  let was = rig.reading.pop_front();
  if let Some((s, id, len)) = &was {
    same!("read-late", s.get(), payload(*id, *len), "what was read, when the read is finished");
  }
  let r = match rig.reader.as_mut().unwrap() {
    Reader::Plain(r) => r.finish_read(),
    Reader::Cursor(r) => r.advance_read_pointer(),
  };
  let got = code(&r);
  ctx.say(|| format!("finish read: {got}"));
  if was.is_some() {
    same!("finish", got, "ok", "a read is finished, with {m:?}");
    let e = m.pop();
    assert!(e.passed && e.st == St::Ready, "{e:?}");
    c.read += 1;
    c.bytes_read += u64::from(e.len);
  } else {
    check!(r.is_err(), "finish", "a read that was not started is finished");
  }
  Ok(())
}

fn lock(ctx: &Ctx, rig: &mut Rig, m: &mut Ring) {
  if rig.locks.len() == 2 {
    rig.locks.clear();
  } else {
    rig.locks.push(rig.buf.clone().unwrap().lock());
  }
  m.locks = rig.locks.len() as u32;
  ctx.say(|| format!("{} locks", m.locks));
}

fn counters(rig: &Rig, c: &Counts) -> Res {
  let s = &rig.stats;
  same!("counted", s.records_written.get_value(), c.written, "records written");
  same!("counted", s.bytes_written.get_value(), c.bytes_written, "bytes written");
  same!("counted", s.records_overwritten.get_value(), c.overwritten, "records overwritten");
  same!("counted", s.total_data_loss.get_value(), 0, "losses of everything");
  Ok(())
}

/// In the end all that is left can be read, and then everything can be written again.
fn rest(ctx: &Ctx, rig: &mut Rig, m: &mut Ring, c: &mut Counts) -> Res {
  rig.locks.clear();
  m.locks = 0;
  for p in 0 .. rig.producers.len() {
    if rig.writing[p].is_some() {
      commit(ctx, rig, m, c, p)?;
    }
  }
  for _ in 0 .. 40 {
    if rig.kind == Kind::Cursor {
      start(ctx, rig, m)?;
    }
    if !rig.reading.is_empty() {
      finish(ctx, rig, m, c)?;
    }
    if rig.kind != Kind::Cursor {
      start(ctx, rig, m)?;
    }
    if m.exts.is_empty() {
      break;
    }
  }
  check!(m.exts.is_empty(), "rest", "not all can be read: {m:?}");
  let mut next = 1000;
  for len in [m.cap - m.over, 1, 2] {
    reserve(ctx, rig, m, c, 0, len, &mut next)?;
    commit(ctx, rig, m, c, 0)?;
    start(ctx, rig, m)?;
    finish(ctx, rig, m, c)?;
  }
  counters(rig, c)
}
