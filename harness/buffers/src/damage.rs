//! C21: what a ring buffer on disk makes of a file that a crash or something else has damaged.

use crate::model::payload;
use crate::seq::{code, Slice, HEADER};
use bd_buffer::buffer::{
  BlockWhenReservingIntoConcurrentRead, NonVolatileRingBuffer, OptionalStatGetter, RingBufferCursorConsumer, RingBufferProducer,
};
use bd_buffer::{AbslCode, AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, RingBufferStats, StatsHelper};
use bd_client_stats_store::Collector;
use mc::{check, fail, fut, same, Ctx, Opts, Res, Run, Scratch, Violation};
use std::collections::VecDeque;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
  Overwrite,
  Keep,
  Cursor,
}
const MODES: [Mode; 3] = [Mode::Overwrite, Mode::Keep, Mode::Cursor];

pub fn c21(r: &mut Run) {
  r.assume("what a crash leaves of a file is, word by word, older or newer contents of it");
  let (d, bits) = r.by_tier((3, &[0, 4][..]), (4, &[0, 1, 2, 3, 4, 5, 6, 7]));
  r.explore("at-rest", &format!("every history of {d} operations in 3 modes, then a byte of the file at any position zeroed, set or with one of its bits {bits:?} flipped, then what is there is read before or after writing more"), Opts::default(), move |ctx| at_rest(ctx, d, bits));
  let d = r.by_tier(3, 4);
  r.explore("torn", &format!("every history of {d} operations in 3 modes, of the last of which any subset of the changed words is on disk"), Opts::default(), move |ctx| torn(ctx, d));
  let d = r.by_tier(4, 6);
  r.explore("stale", &format!("every history of {d} operations in 3 modes, and a file that has an older header or an older beginning of any length"), Opts::default(), move |ctx| stale(ctx, d));
  let d = r.by_tier(3, 4);
  r.explore("at-work", &format!("every history of {} operations in 3 modes, a damaged byte of the records, and {d} more operations, such as reads ahead", d - 1), Opts::default(), move |ctx| at_work(ctx, d));
}

enum Reader {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

struct Open {
  stats: Arc<RingBufferStats>,
  buf: Arc<NonVolatileRingBuffer>,
  producer: Box<dyn RingBufferProducer>,
  reader: Reader,
}

#[derive(Clone, Copy, Debug)]
struct Rec {
  id: u32,
  len: u32,
}

struct Rig {
  mode: Mode,
  cap: u32,
  dir: Scratch,
  open: Option<Open>,
  /// Committed and not done with, as far as one knows.
  pending: VecDeque<Rec>,
  reserved: Option<Rec>,
  /// How many of `pending` are being read.
  reading: usize,
  all: Vec<Rec>,
}

fn violation(k: &str, m: String) -> Violation {
  Violation { key: k.into(), msg: m }
}

impl Rig {
  fn new(mode: Mode) -> Self {
    Self { mode, cap: 48, dir: Scratch::new(), open: None, pending: VecDeque::new(), reserved: None, reading: 0, all: vec![] }
  }
  fn file(&self) -> std::path::PathBuf {
    self.dir.path().join("b")
  }
  fn open(&mut self) -> Result<(), Error> {
    let stats = StatsHelper::new(&Collector::default().scope("")).stats;
    let over = if self.mode == Mode::Overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block };
    let buf = NonVolatileRingBuffer::new("n".into(), self.file(), self.cap + HEADER, over, BlockWhenReservingIntoConcurrentRead::No, PerRecordCrc32Check::Yes, stats.clone())?;
    let producer = buf.clone().register_producer()?;
    let reader = if self.mode == Mode::Cursor { Reader::Cursor(buf.clone().register_cursor_consumer()?) } else { Reader::Plain(buf.clone().register_consumer()?) };
    self.open = Some(Open { stats, buf, producer, reader });
    self.reading = 0;
    self.reserved = None;
    Ok(())
  }
  fn image(&self) -> Vec<u8> {
    std::fs::read(self.file()).unwrap()
  }

  /// One of the operations; undamaged, it does what it should, which C20 decides.
  fn op(&mut self, ctx: &Ctx, k: usize) -> Res {
    match k {
      0 | 1 | 2 => {
        let len = [2, 9, 22][k];
        if self.reserve(ctx, len)? {
          self.commit(ctx);
        }
      },
      3 => {
        if self.reserved.is_none() {
          self.reserve(ctx, 5)?;
        } else {
          self.commit(ctx);
        }
      },
      4 => {
        self.start(ctx)?;
      },
      _ => {
        self.finish(ctx);
      },
    }
    Ok(())
  }

  fn reserve(&mut self, ctx: &Ctx, len: u32) -> Result<bool, Violation> {
    let id = self.all.len() as u32;
    let o = self.open.as_mut().unwrap();
    let over = o.stats.records_overwritten.get_value();
    let r = o.producer.reserve(len, false);
    let got = code(&r);
    ctx.say(|| format!("reserve {len}: {got}"));
    let ok = if let Ok(s) = r {
      if s.len() != len as usize {
        return Err(violation("reserve-len", format!("{} bytes were reserved instead of {len}", s.len())));
      }
      Slice::of(s).fill(&payload(id, len));
      true
    } else {
      false
    };
    for _ in 0 .. o.stats.records_overwritten.get_value() - over {
      self.pending.pop_front();
    }
    if ok {
      let rec = Rec { id, len };
      self.all.push(rec);
      self.reserved = Some(rec);
    }
    Ok(ok)
  }
  fn commit(&mut self, ctx: &Ctx) {
    let r = self.open.as_mut().unwrap().producer.commit();
    ctx.say(|| format!("commit: {}", code(&r)));
    if let Some(rec) = self.reserved.take() {
      if r.is_ok() {
        self.pending.push_back(rec);
      }
    }
  }
  /// What a read gives.
  fn start(&mut self, ctx: &Ctx) -> Result<Option<Vec<u8>>, Violation> {
    let r = match &mut self.open.as_mut().unwrap().reader {
      Reader::Plain(r) => r.start_read(false),
      Reader::Cursor(r) => r.start_read(false),
    };
    let got = code(&r);
    let b = r.ok().map(<[u8]>::to_vec);
    ctx.say(|| format!("start read: {got} {b:?}"));
    if b.is_some() {
      self.reading += 1;
    }
    Ok(b)
  }
  fn finish(&mut self, ctx: &Ctx) {
    let r = match &mut self.open.as_mut().unwrap().reader {
      Reader::Plain(r) => r.finish_read(),
      Reader::Cursor(r) => r.advance_read_pointer(),
    };
    ctx.say(|| format!("finish read: {}", code(&r)));
    if r.is_ok() && self.reading > 0 {
      self.reading -= 1;
      self.pending.pop_front();
    }
  }

  fn history(&mut self, ctx: &Ctx, depth: u32) -> Res {
    for _ in 0 .. depth {
      ctx.step();
      let k = ctx.choose(6);
      self.op(ctx, k)?;
    }
    Ok(())
  }

  /// All that can be read, in order; every one is one of `known`.
  fn drain(&mut self, ctx: &Ctx, known: &[Rec], once: bool) -> Result<Vec<u32>, Violation> {
    let mut out: Vec<u32> = vec![];
    for n in 0 .. 60 {
      if n == 50 {
        return Err(violation("endless", format!("reading does not come to an end: {out:?}")));
      }
      if self.mode == Mode::Cursor && n == 0 {
        // The way that waits instead of giving up; it is asked once.
        let r = match &mut self.open.as_mut().unwrap().reader {
          Reader::Cursor(r) => {
            let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = _>>> = Box::pin(async { r.read().await.map(<[u8]>::to_vec) });
            fut::now(&mut f)
          },
          Reader::Plain(_) => unreachable!(),
        };
        ctx.say(|| format!("async read: {r:?}"));
        match r {
          Some(Ok(b)) => {
            self.reading += 1;
            self.judge(&b, known, &mut out, once)?;
            self.finish(ctx);
          },
          _ => break,
        }
        continue;
      }
      match self.start(ctx)? {
        Some(b) => {
          self.judge(&b, known, &mut out, once)?;
          self.finish(ctx);
        },
        None => break,
      }
    }
    Ok(out)
  }
  fn judge(&self, b: &[u8], known: &[Rec], out: &mut Vec<u32>, once: bool) -> Res {
    let Some(rec) = known.iter().find(|r| r.len as usize == b.len() && payload(r.id, r.len) == b) else {
      fail!("garbage", "{b:?} is read, which is none of the records that may be there: {known:?}");
    };
    if once {
      check!(out.last().map_or(true, |l| *l < rec.id), "order", "record {} is read after {out:?}", rec.id);
    }
    out.push(rec.id);
    Ok(())
  }

  /// The buffer works as before.
  fn works(&mut self, ctx: &Ctx) -> Res {
    for len in [3, 11, 24, 1] {
      let mut ok = false;
      for _ in 0 .. 2 {
        if self.reserve(ctx, len)? {
          ok = true;
          break;
        }
      }
      check!(ok, "stuck", "a record of {len} bytes cannot be written anymore");
      let rec = *self.all.last().unwrap();
      self.commit(ctx);
      let got = self.start(ctx)?;
      same!("lost-new", got, Some(payload(rec.id, len)), "what was written after the damage");
      self.finish(ctx);
    }
    Ok(())
  }
}

/// Where the records are in the file, by their contents.
fn locate(image: &[u8], rec: Rec) -> Option<usize> {
  let p = payload(rec.id, rec.len);
  let area = &image[HEADER as usize ..];
  (8 ..= area.len().saturating_sub(p.len())).find(|i| {
    area[*i .. *i + p.len()] == p[..] && area[*i - 4 .. *i] == rec.len.to_ne_bytes()
  })
}

fn at_rest(ctx: &Ctx, depth: u32, bits: &[u32]) -> Res {
  let mode = *ctx.pick(&MODES);
  let mut rig = Rig::new(mode);
  ctx.say(|| format!("{mode:?}"));
  if let Err(e) = rig.open() {
    fail!("open", "a new file does not open: {e}");
  }
  rig.history(ctx, depth)?;
  // What was being read may be there.
  let maybe = if mode == Mode::Cursor { 0 } else { rig.reading };
  let known: Vec<Rec> = rig.pending.iter().copied().collect();
  rig.open = None;
  let mut image = rig.image();
  let at = ctx.choose(image.len());
  let how = ctx.choose(bits.len() + 2);
  let was = image[at];
  image[at] = match how {
    0 => 0,
    1 => 0xff,
    _ => was ^ (1 << bits[how - 2]),
  };
  if image[at] == was {
    return Ok(());
  }
  ctx.say(|| format!("byte {at} becomes {} instead of {was}", image[at]));
  // Which records the damage may affect.
  let mut hit = known.len();
  let mut size = false;
  for (i, r) in known.iter().enumerate() {
    let mut orig = image.clone();
    orig[at] = was;
    let Some(p) = locate(&orig, *r) else { continue };
    let a = at as i64 - i64::from(HEADER);
    if a >= p as i64 - 8 && a < (p + r.len as usize) as i64 {
      hit = i;
      size = a >= p as i64 - 4 && a < p as i64;
    }
  }
  std::fs::write(rig.file(), &image).unwrap();
  match rig.open() {
    Ok(()) => {},
    Err(Error::AbslStatus(AbslCode::DataLoss, _)) => {
      check!(at < HEADER as usize, "refused", "the file is refused because of damage to a record");
      return Ok(());
    },
    Err(e) => fail!("open", "the damaged file does not open: {e}"),
  }
  let first = ctx.flip();
  let mut may = known.clone();
  if first {
    for _ in 0 .. 2 {
      if rig.reserve(ctx, 4)? {
        may.push(*rig.all.last().unwrap());
        rig.commit(ctx);
        break;
      }
    }
  }
  let got = rig.drain(ctx, &may, true)?;
  // Whatever the damage cannot have reached is there.
  for (i, r) in known.iter().enumerate() {
    let safe = i >= maybe && (i < hit || i > hit && !size) && !first;
    check!(!safe || got.contains(&r.id), "lost", "record {} of {known:?} is not read, but only {got:?}", r.id);
  }
  rig.works(ctx)
}

fn torn(ctx: &Ctx, depth: u32) -> Res {
  let mode = *ctx.pick(&MODES);
  let mut rig = Rig::new(mode);
  ctx.say(|| format!("{mode:?}"));
  if let Err(e) = rig.open() {
    fail!("open", "a new file does not open: {e}");
  }
  rig.history(ctx, depth - 1)?;
  let before = rig.image();
  let k = ctx.choose(6);
  rig.op(ctx, k)?;
  let known = rig.all.clone();
  let after = rig.image();
  rig.open = None;
  let mut image = before.clone();
  let (mut some, mut all) = (false, true);
  for w in 0 .. image.len() / 4 {
    let w = w * 4 .. w * 4 + 4;
    if before[w.clone()] != after[w.clone()] {
      if ctx.flip() {
        image[w.clone()].copy_from_slice(&after[w]);
        some = true;
      } else {
        all = false;
      }
    }
  }
  ctx.say(|| format!("on disk is {}", if all { "all" } else if some { "some" } else { "nothing" }));
  std::fs::write(rig.file(), &image).unwrap();
  match rig.open() {
    Ok(()) => {},
    Err(Error::AbslStatus(AbslCode::DataLoss, _)) => {
      check!(some && !all, "refused", "a file is refused that is as it was left");
      return Ok(());
    },
    Err(e) => fail!("open", "the file does not open: {e}"),
  }
  rig.drain(ctx, &known, false)?;
  rig.works(ctx)
}

fn stale(ctx: &Ctx, depth: u32) -> Res {
  let mode = *ctx.pick(&MODES);
  let mut rig = Rig::new(mode);
  ctx.say(|| format!("{mode:?}"));
  if let Err(e) = rig.open() {
    fail!("open", "a new file does not open: {e}");
  }
  let mut images = vec![rig.image()];
  for _ in 0 .. depth {
    ctx.step();
    let k = ctx.choose(6);
    rig.op(ctx, k)?;
    images.push(rig.image());
  }
  rig.open = None;
  let old = &images[ctx.choose(images.len() - 1)];
  let mut image = images.last().unwrap().clone();
  // Up to here the file is older.
  let to = *ctx.pick(&[HEADER as usize, HEADER as usize + 8, HEADER as usize + 16, HEADER as usize + 24, HEADER as usize + 32]);
  image[.. to].copy_from_slice(&old[.. to]);
  std::fs::write(rig.file(), &image).unwrap();
  match rig.open() {
    Ok(()) => {},
    Err(Error::AbslStatus(AbslCode::DataLoss, _)) => return Ok(()),
    Err(e) => fail!("open", "the file does not open: {e}"),
  }
  let known = rig.all.clone();
  rig.drain(ctx, &known, false)?;
  rig.works(ctx)
}

fn at_work(ctx: &Ctx, depth: u32) -> Res {
  let mode = *ctx.pick(&MODES);
  let mut rig = Rig::new(mode);
  ctx.say(|| format!("{mode:?}"));
  if let Err(e) = rig.open() {
    fail!("open", "a new file does not open: {e}");
  }
  for _ in 0 .. depth - 1 {
    ctx.step();
    let k = *ctx.pick(&[0, 2, 3, 4]);
    rig.op(ctx, k)?;
  }
  rig.open = None;
  let mut image = rig.image();
  let at = HEADER as usize + ctx.choose(rig.cap as usize);
  let b = if ctx.flip() { 0xff } else { 0 };
  if b == image[at] {
    return Ok(());
  }
  ctx.say(|| format!("byte {at} becomes {b} instead of {}", image[at]));
  image[at] = b;
  std::fs::write(rig.file(), &image).unwrap();
  if let Err(e) = rig.open() {
    fail!("open", "the file does not open: {e}");
  }
  let known = rig.all.clone();
  let mut may = known;
  for _ in 0 .. depth {
    ctx.step();
    let k = ctx.choose(6);
    if k == 4 {
      if let Some(b) = rig.start(ctx)? {
        rig.judge(&b, &rig.all, &mut vec![], false)?;
      }
    } else {
      rig.op(ctx, k)?;
    }
  }
  if rig.reserved.is_some() {
    rig.commit(ctx);
  }
  if rig.mode == Mode::Cursor && ctx.flip() {
    // Reads ahead with reads outstanding.
    may = rig.all.clone();
    rig.drain(ctx, &may, false)?;
  }
  while rig.reading > 0 {
    let was = rig.reading;
    rig.finish(ctx);
    if rig.reading == was {
      fail!("finish", "a read that was started cannot be finished");
    }
  }
  may = rig.all.clone();
  rig.drain(ctx, &may, false)?;
  rig.works(ctx)
}
