//! C41: what waits between the threads that log and the one that processes is bounded, and kept.

use bd_logger::verif::{channel, MemorySized, PreConfigBuffer, PreConfigError, TrySendError};
use mc::{check, fail, same, Ctx, Opts, Res, Run};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Item {
  id: u32,
  size: usize,
}
impl MemorySized for Item {
  fn size(&self) -> usize {
    self.size
  }
}

const CAP: usize = 10;
const SIZES: [usize; 6] = [0, 3, 5, 7, 10, 11];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Out {
  Ok,
  Count,
  Size,
  Closed,
}

fn out(r: Result<(), TrySendError<Item>>, item: Item) -> Result<Out, mc::Violation> {
  let (back, o) = match r {
    Ok(()) => (item, Out::Ok),
    Err(TrySendError::FullCountOverflow(i)) => (i, Out::Count),
    Err(TrySendError::FullSizeOverflow(i)) => (i, Out::Size),
    Err(TrySendError::Closed(i)) => (i, Out::Closed),
  };
  same!("back", back, item, "what comes back with {o:?}");
  Ok(o)
}

fn sequences(ctx: &Ctx, depth: u32) -> Res {
  let count = 1 + ctx.choose(3);
  let (tx, rx) = channel::<Item>(count, CAP);
  let txs = [tx.clone(), tx];
  let mut rx = Some(rx);
  let mut held: VecDeque<Item> = VecDeque::new();
  // What was there when it was closed is still counted.
  let mut stuck = 0;
  for id in 0 .. depth {
    match ctx.choose(2 + 2 * SIZES.len()) {
      0 => {
        if let Some(rx) = &mut rx {
          let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<Item>> + '_>> = Box::pin(rx.recv());
          same!("received", mc::fut::now(&mut f), held.pop_front().map(Some), "what is received");
        }
      },
      1 => {
        if rx.take().is_some() {
          stuck = held.iter().map(|i| i.size).sum();
        }
        held.clear();
      },
      k => {
        let item = Item { id, size: SIZES[(k - 2) / 2] };
        let got = out(txs[k % 2].try_send(item), item)?;
        let used: usize = held.iter().map(|i| i.size).sum();
        // Which of the two, if it is too much in both ways, is left open.
        let fits = (held.len() < count, used + item.size <= CAP);
        let fine = match got {
          _ if rx.is_none() => got == Out::Closed || got == Out::Size && item.size + stuck > CAP,
          Out::Ok => fits == (true, true),
          Out::Count => !fits.0,
          Out::Size => !fits.1,
          Out::Closed => false,
        };
        check!(fine, "verdict", "{item:?} is {got:?}, with {held:?} of {count} there (open: {})", rx.is_some());
        if got == Out::Ok {
          held.push_back(item);
        }
      },
    }
    ctx.step();
    if ctx.known((count, rx.is_some(), stuck, held.iter().map(|i| i.size).collect::<Vec<_>>()), depth - id) {
      break;
    }
  }
  // Nothing is lost of it.
  if let Some(rx) = &mut rx {
    while let Some(i) = held.pop_front() {
      let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<Item>> + '_>> = Box::pin(rx.recv());
      same!("received", mc::fut::now(&mut f), Some(Some(i)), "what is received");
    }
    let all = Item { id: 99, size: CAP };
    same!("leak", out(txs[0].try_send(all), all)?, Out::Ok, "one that takes all there is, when nothing is there");
  }
  Ok(())
}

fn before_config(ctx: &Ctx, depth: u32) -> Res {
  let count = 1 + ctx.choose(4);
  let mut b = PreConfigBuffer::new(count, CAP);
  let mut held: Vec<Item> = vec![];
  for id in 0 .. depth {
    let item = Item { id, size: *ctx.pick(&SIZES) };
    let used: usize = held.iter().map(|i| i.size).sum();
    let fits = (held.len() < count, used + item.size <= CAP);
    let r = b.push(item);
    let fine = match r {
      Ok(()) => fits == (true, true),
      Err(PreConfigError::FullCountOverflow) => !fits.0,
      Err(PreConfigError::FullSizeOverflow) => !fits.1,
    };
    check!(fine, "verdict", "{item:?} is {r:?}, with {held:?} of {count} there");
    if r.is_ok() {
      held.push(item);
    }
    ctx.step();
    ctx.state((count, held.iter().map(|i| i.size).collect::<Vec<_>>()));
  }
  same!("kept", b.pop_all().collect::<Vec<_>>(), held, "what was kept");
  Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Send {
  thread: usize,
  item: Item,
  out: Out,
  from: u64,
  to: u64,
}

/// Who sends what, in which room.
const SETS: [(usize, &[&[usize]]); 8] = [
  (4, &[&[5], &[11]]),
  (4, &[&[6, 4], &[5, 5]]),
  (1, &[&[3, 3], &[3]]),
  (2, &[&[10], &[1, 1]]),
  (2, &[&[5], &[5], &[5]]),
  (1, &[&[10], &[11, 10]]),
  (2, &[&[0, 0], &[10]]),
  (3, &[&[4, 11], &[3, 3], &[3]]),
];

fn threads(ctx: &Ctx, closes: bool) -> Res {
  let set = ctx.choose(SETS.len());
  let (count, sends) = SETS[set];
  let early = ctx.choose(3);
  let ctx2 = ctx.clone();
  ctx.under(move || {
    let (tx, mut rx) = channel::<Item>(count, CAP);
    let clock = Arc::new(AtomicU64::new(0));
    let log: Arc<Mutex<Vec<Send>>> = Arc::default();
    let mut threads = vec![];
    for (t, sizes) in sends.iter().enumerate() {
      let (tx, clock, log) = (tx.clone(), clock.clone(), log.clone());
      threads.push(mc::th::spawn(move || {
        for (n, size) in sizes.iter().enumerate() {
          let item = Item { id: (10 * t + n) as u32, size: *size };
          let from = clock.fetch_add(1, SeqCst);
          let r = tx.try_send(item);
          let to = clock.fetch_add(1, SeqCst);
          let o = out(r, item)?;
          log.lock().unwrap().push(Send { thread: t, item, out: o, from, to });
        }
        Ok::<_, mc::Violation>(())
      }));
    }
    // Some are received meanwhile.
    let mut received: Vec<(Item, u64, u64)> = vec![];
    for _ in 0 .. early {
      let from = clock.fetch_add(1, SeqCst);
      let i = {
        let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<Item>> + '_>> = Box::pin(rx.recv());
        mc::fut::now(&mut f)
      };
      if let Some(Some(i)) = i {
        received.push((i, from, clock.fetch_add(1, SeqCst)));
      }
    }
    let mut rx = Some(rx);
    let closed = clock.load(SeqCst);
    if closes {
      rx = None;
    }
    for t in threads {
      t.join().unwrap()?;
    }
    let end = clock.load(SeqCst);
    while let Some(rx) = &mut rx {
      let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<Item>> + '_>> = Box::pin(rx.recv());
      let Some(Some(i)) = mc::fut::now(&mut f) else { break };
      received.push((i, end, end));
    }
    let log = log.lock().unwrap().clone();
    ctx2.state((set, early, log.iter().map(|s| (s.thread, s.item.id, s.out)).collect::<Vec<_>>(), received.iter().map(|r| r.0.id).collect::<Vec<_>>()));

    // All that is accepted arrives, once, and in the order in which its thread sent it.
    let mut ok: Vec<u32> = log.iter().filter(|s| s.out == Out::Ok).map(|s| s.item.id).collect();
    let got: Vec<u32> = received.iter().map(|r| r.0.id).collect();
    for t in 0 .. sends.len() as u32 {
      let of: Vec<u32> = got.iter().copied().filter(|i| i / 10 == t).collect();
      check!(of.windows(2).all(|w| w[0] < w[1]), "order", "{of:?} are received in this order");
    }
    let mut sorted = got.clone();
    sorted.sort_unstable();
    ok.sort_unstable();
    if closes {
      check!(sorted.iter().all(|i| ok.contains(i)), "received", "{got:?} are received, of {ok:?}");
    } else {
      same!("received", sorted, ok, "what is received of what is accepted");
    }
    let gone = |id: u32| received.iter().find(|r| r.0.id == id).map_or((u64::MAX, u64::MAX), |r| (r.1, r.2));
    // Never more than there is room for.
    if !closes {
      for s in &log {
        let there: Vec<&Send> = log.iter().filter(|o| o.out == Out::Ok && o.to <= s.to && gone(o.item.id).0 > s.to).collect();
        let size: usize = there.iter().map(|o| o.item.size).sum();
        check!(there.len() <= count && size <= CAP, "bound", "{there:?} are there at {}", s.to);
      }
    }
    // What is refused does not fit with what may have been there then.
    for s in &log {
      let others: Vec<&Send> = log.iter().filter(|o| o.item.id != s.item.id && o.item.size <= CAP && o.from < s.to && gone(o.item.id).1 > s.from && (o.out == Out::Ok || o.to > s.from)).collect();
      let size: usize = others.iter().map(|o| o.item.size).sum();
      match s.out {
        Out::Ok => (),
        Out::Count => check!(others.len() >= count, "refused", "{s:?}, with no more than {others:?} there; {received:?}"),
        Out::Size => check!(size + s.item.size > CAP, "refused", "{s:?}, with no more than {others:?} there; {received:?}"),
        Out::Closed => check!(closes && s.to >= closed, "closed", "{s:?}, and it is not closed"),
      }
    }
    if let Some(rx) = &mut rx {
      let all = Item { id: 99, size: CAP };
      same!("leak", out(tx.try_send(all), all)?, Out::Ok, "one that takes all there is, when nothing is there");
      let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<Item>> + '_>> = Box::pin(rx.recv());
      same!("received", mc::fut::now(&mut f), Some(Some(all)), "what is received");
    } else {
      let one = Item { id: 99, size: 1 };
      let o = out(tx.try_send(one), one)?;
      let stuck: usize = log.iter().filter(|s| s.out == Out::Ok && gone(s.item.id).0 == u64::MAX).map(|s| s.item.size).sum();
      check!(o == Out::Closed || o == Out::Size && stuck + 1 > CAP, "leak", "one that is sent after it is closed, with {stuck} in it, is {o:?}");
    }
    Ok(())
  })
}

pub fn c41(r: &mut Run) {
  let t = r.thorough();
  let a = if t { 7 } else { 6 };
  r.explore("sequences", &format!("{a} operations: six sizes by two senders, receiving, closing; room for 1 to 3"), Opts::default(), |c| sequences(c, a));
  let a = if t { 7 } else { 6 };
  r.explore("before-config", &format!("{a} logs of six sizes, room for 1 to 4"), Opts::default(), |c| before_config(c, a));
  let p = if t { 4 } else { 3 };
  r.explore("threads", &format!("8 sets of two or three sending threads, and one that receives; all schedules of {p} preemptions"), Opts::dev(p), |c| threads(c, false));
  let p = if t { 3 } else { 2 };
  r.explore("threads-close", &format!("the same, and it is closed meanwhile; all schedules of {p} preemptions"), Opts::dev(p), |c| threads(c, true));
}
