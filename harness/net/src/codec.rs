//! C36: what is framed on one side comes out on the other, however it is cut.

use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::LogUploadRequest;
use bd_stats_common::{Counter};
use mc::{check, fail, same, Ctx, Opts, Res, Run, Violation};
use protobuf::Message;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

type M = LogUploadRequest;

#[derive(Default)]
struct Count(AtomicU64);
impl Counter for Count {
  fn inc(&self) {
    self.inc_by(1);
  }
  fn inc_by(&self, n: u64) {
    self.0.fetch_add(n, Ordering::Relaxed);
  }
}
impl std::fmt::Debug for Count {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.0.load(Ordering::Relaxed))
  }
}

/// A message of `size` bytes on the wire.
fn message(size: usize, plain: bool) -> M {
  let mut m = M::default();
  let header = if size > 130 { 3 } else { 2 };
  if size > 0 {
    let mut x = 12345u32;
    let s = (0 .. size - header)
      .map(|_| {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        if plain { b'a' } else { (x >> 24) as u8 }
      })
      .collect();
    m.logs.push(s);
  }
  assert_eq!(m.compute_size() as usize, size);
  m
}

/// Around the size from which on it is worth compressing.
const KINDS: [(usize, bool); 6] = [(0, true), (7, false), (99, true), (100, true), (140, false), (400, true)];
const LIMIT: usize = 100;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
  Plain,
  Stateless,
  Stateful,
}
const MODES: [Mode; 3] = [Mode::Plain, Mode::Stateless, Mode::Stateful];

fn encoder(mode: Mode, level: u32) -> Encoder<M> {
  Encoder::new(match mode {
    Mode::Plain => None,
    Mode::Stateless => Some(Compression::StatelessZlib { level }),
    Mode::Stateful => Some(Compression::StatefulZlib { level }),
  })
}
fn decoder(mode: Mode, cpu: bool) -> Decoder<M> {
  Decoder::new(
    match mode {
      Mode::Plain => None,
      Mode::Stateless => Some(Decompression::StatelessZlib),
      Mode::Stateful => Some(Decompression::StatefulZlib),
    },
    if cpu { OptimizeFor::Cpu } else { OptimizeFor::Memory },
  )
}

fn well_formed(frame: &[u8], m: &M, mode: Mode) -> Res {
  check!(frame.len() >= 5, "frame", "a frame of {} bytes", frame.len());
  let size = m.compute_size() as usize;
  same!("flag", frame[0], u8::from(mode != Mode::Plain && size >= LIMIT), "compression flag of {size} bytes, {mode:?}");
  same!("length", u32::from_be_bytes(frame[1 .. 5].try_into().unwrap()) as usize, frame.len() - 5, "length of {size} bytes, {mode:?}");
  Ok(())
}


/// One stream, cut into pieces.
fn stream(ctx: &Ctx, n: usize, cuts: usize) -> Res {
  let mode = *ctx.pick(&MODES);
  let cpu = ctx.flip();
  let count = ctx.choose(n + 1);
  let mut e = encoder(mode, 3);
  let mut ms = vec![];
  let mut bytes: Vec<u8> = vec![];
  let mut ends = vec![];
  // Counters may come in late.
  let late = ctx.choose(count + 1);
  let mut tx: Option<(Arc<Count>, Arc<Count>)> = None;
  let mut raw = 0;
  for i in 0 .. count {
    if i == late {
      let c = (Arc::new(Count::default()), Arc::new(Count::default()));
      e.initialize_stats(c.0.clone(), c.1.clone());
      tx = Some(c);
    }
    let (size, plain) = *ctx.pick(&KINDS);
    ctx.say(|| format!("{size} bytes"));
    let m = message(size, plain);
    let frame = e.encode(&m);
    well_formed(&frame, &m, mode)?;
    raw += size as u64 + 5;
    bytes.extend_from_slice(&frame);
    ends.push(bytes.len());
    ms.push(m);
    same!("sent", e.bandwidth_stats(), (bytes.len() as u64, raw), "bytes sent, before and after compression");
    if let Some((a, b)) = &tx {
      same!("sent", (a.0.load(Ordering::Relaxed), b.0.load(Ordering::Relaxed)), (bytes.len() as u64, raw), "bytes sent, as counted");
    }
  }
  let mut d = decoder(mode, cpu);
  let rx: (Arc<Count>, Arc<Count>) = Default::default();
  let mut at = vec![];
  for _ in 0 .. cuts {
    let from = at.last().copied().unwrap_or(0);
    at.push(from + ctx.choose(bytes.len() + 1 - from));
  }
  at.push(bytes.len());
  // Every byte for itself, if there are no cuts otherwise.
  if cuts == 0 {
    at = (1 ..= bytes.len()).collect();
  }
  ctx.say(|| format!("{mode:?}, {} bytes in {count} frames, cut at {at:?}", bytes.len()));
  let mut from = 0;
  let mut done = 0;
  for (i, to) in at.iter().enumerate() {
    if i == late {
      d.initialize_stats(rx.0.clone(), rx.1.clone());
    }
    let got = match d.decode_data(&bytes[from .. *to]) {
      Ok(g) => g,
      Err(e) => fail!("refused", "bytes {from} to {to} of {}: {e}", bytes.len()),
    };
    let now = ends.iter().filter(|e| **e <= *to).count();
    check!(got == ms[done .. now], "messages", "bytes {from} to {to} give {} messages and not {}, or others", got.len(), now - done);
    done = now;
    from = *to;
    let whole: u64 = ms[.. done].iter().map(|m| m.compute_size()).sum();
    same!("received", d.bandwidth_stats(), (from as u64, whole), "bytes received, before and after decompression");
    if i >= late {
      same!("received", (rx.0 .0.load(Ordering::Relaxed), rx.1 .0.load(Ordering::Relaxed)), (from as u64, whole), "bytes received, as counted");
    }
    ctx.step();
  }
  ctx.state((mode as u8, cpu, count, &at, &ends));
  Ok(())
}

/// What may have become of a frame.
#[derive(Clone, Copy, Debug)]
enum Harm {
  /// A bit of what is compressed.
  Bit(usize, u8),
  /// Less than there was, with the length that goes with it.
  Short(usize),
  /// More.
  Long(&'static [u8]),
  /// Not compressed at all.
  Plain,
  /// Compressed, but no message.
  Nonsense,
}

fn harm(frame: &[u8], h: Harm) -> Vec<u8> {
  let mut body = frame[5 ..].to_vec();
  match h {
    Harm::Bit(i, b) => body[i] ^= 1 << b,
    Harm::Short(n) => body.truncate(n),
    Harm::Long(more) => body.extend_from_slice(more),
    Harm::Plain => body = vec![b'x'; 150],
    Harm::Nonsense => {
      let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(3));
      z.write_all(&[0xff; 150]).unwrap();
      body = z.finish().unwrap();
    },
  }
  let mut out = vec![1];
  out.extend_from_slice(&(body.len() as u32).to_be_bytes());
  out.extend_from_slice(&body);
  out
}

struct Stream {
  mode: Mode,
  e: Encoder<M>,
  d: Decoder<M>,
  bad: bool,
}

/// Several streams on one thread, of which some receive what is damaged.
fn streams(ctx: &Ctx, depth: u32, most: u32, sizes: &'static [(usize, bool)]) -> Res {
  let fresh = |mode| Stream { mode, e: encoder(mode, 3), d: decoder(mode, true), bad: false };
  // What is kept by the thread is not to come from other executions.
  let ctx = ctx.clone();
  std::thread::spawn(move || {
    let modes = *ctx.pick(&[[Mode::Stateless, Mode::Stateless], [Mode::Stateless, Mode::Stateful], [Mode::Stateful, Mode::Stateful]]);
    let mut s: Vec<Stream> = modes.iter().map(|m| fresh(*m)).collect();
    let mut harms = 0;
    for i in 0 .. depth {
      let k = ctx.choose(s.len());
      if s[k].bad {
        // The stream has ended; there is another one.
        s[k] = fresh(s[k].mode);
      }
      let (size, plain) = *ctx.pick(sizes);
      let m = message(size, plain);
      let frame = s[k].e.encode(&m);
      well_formed(&frame, &m, s[k].mode)?;
      if size >= LIMIT && harms < most && ctx.flip() {
        harms += 1;
        let n = frame.len() - 5;
        let h = match ctx.choose(6) {
          0 => Harm::Bit(ctx.choose(n), 0),
          1 => Harm::Bit(ctx.choose(n), 6),
          2 => Harm::Short(ctx.choose(n)),
          3 => Harm::Long(*ctx.pick(&[&[0u8] as &[u8], &[0xff; 9], b"x\x9c"])),
          4 => Harm::Plain,
          _ => Harm::Nonsense,
        };
        ctx.say(|| format!("{i}: stream {k} gets {size} bytes with {h:?}"));
        // Whatever comes of it is the stream's own business.
        let _ = s[k].d.decode_data(&harm(&frame, h));
        s[k].bad = true;
      } else {
        ctx.say(|| format!("{i}: stream {k} gets {size} bytes"));
        match s[k].d.decode_data(&frame) {
          Ok(got) => check!(got == [m], "messages", "stream {k} gives something else than what it was sent"),
          Err(e) => fail!("refused", "stream {k} fails with what is in order: {e}"),
        }
      }
      ctx.step();
      ctx.state((i, k, size, s[k].bad, s[1 - k].bad, harms));
    }
    Ok(())
  })
  .join()
  .unwrap_or_else(|_| Err(Violation { key: "panic".into(), msg: mc::last_panic() }))
}

pub fn c36(r: &mut Run) {
  r.explore("whole", "up to 3 messages of 6 sizes, 3 modes, byte by byte", Opts::default(), |c| stream(c, 3, 0));
  r.explore("one-cut", "up to 2 messages of 6 sizes, 3 modes, one cut anywhere", Opts::default(), |c| stream(c, 2, 1));
  r.explore("harm", "3 steps with 2 streams on one thread, one of them damaged anywhere", Opts::default(), |c| streams(c, 3, 1, &[(140, false), (400, true)]));
  if !r.thorough() {
    return;
  }
  r.explore("two-cuts", "up to 2 messages of 6 sizes, 3 modes, two cuts anywhere", Opts::default().secs(600), |c| stream(c, 2, 2));
  r.explore("harms", "3 steps with 2 streams on one thread, two of them damaged anywhere", Opts::default(), |c| streams(c, 3, 2, &[(400, true)]));
  r.explore("harms-4", "4 steps with 2 streams on one thread, two of them damaged anywhere", Opts::default().secs(300), |c| streams(c, 4, 2, &[(400, true)]));
  r.explore("one-cut-3", "up to 3 messages of 6 sizes, 3 modes, one cut anywhere", Opts::default().secs(300), |c| stream(c, 3, 1));
}

