//! What a ring buffer holds: an independent account of its space and of its records.

use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
  /// Reserved by this producer.
  Reserved(u8),
  /// Committed, but something before it is not.
  Done,
  Ready,
  /// Will never be returned: it was not committed when the process ended.
  Dead,
  /// May be returned: it was being read when the process ended.
  Maybe,
}

#[derive(Clone, Copy, Debug)]
pub struct Ext {
  pub start: u32,
  /// With what comes before it.
  pub size: u32,
  pub len: u32,
  pub id: u32,
  pub st: St,
  /// The cursor is past it.
  pub passed: bool,
}

#[derive(Clone, Debug)]
pub struct Ring {
  pub cap: u32,
  pub over: u32,
  pub pos: u32,
  pub exts: VecDeque<Ext>,
  pub locks: u32,
  pub wrapped_at: u32,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Place {
  /// Here, over so many of the oldest.
  At(u32, usize),
  /// Over something that is being read or written.
  Busy,
  Invalid,
}

impl Ring {
  pub fn new(cap: u32, over: u32) -> Self {
    Self { cap, over, pos: 0, exts: VecDeque::new(), locks: 0, wrapped_at: 0 }
  }

  /// What distinguishes states; which records they are does not.
  pub fn key(&self) -> (u32, Vec<(u32, u32, St, bool)>, u32, u32) {
    (self.pos, self.exts.iter().map(|e| (e.start, e.size, e.st, e.passed)).collect(), self.locks, self.wrapped_at)
  }

  /// Where a record of `len` bytes would go. Being read are those that are passed.
  pub fn place(&self, len: u32) -> Place {
    let Some(total) = len.checked_add(self.over) else { return Place::Invalid };
    if len == 0 || total > self.cap {
      return Place::Invalid;
    }
    let fits = self.pos + total <= self.cap;
    let at = if fits { self.pos } else { 0 };
    let hit = |e: &Ext| {
      let in_gap = !fits && e.start + e.size > self.pos;
      in_gap || e.start < at + total && at < e.start + e.size
    };
    let mut n = 0;
    for (i, e) in self.exts.iter().enumerate() {
      if hit(e) {
        if e.passed && e.st != St::Dead || matches!(e.st, St::Reserved(_) | St::Done) {
          return Place::Busy;
        }
        n = i + 1;
      }
    }
    Place::At(at, n)
  }

  /// How many were overwritten.
  pub fn reserve(&mut self, at: u32, over: usize, len: u32, producer: u8, id: u32) -> u64 {
    let mut gone = 0;
    for _ in 0 .. over {
      if self.exts.pop_front().is_some() {
        gone += 1;
        self.tidy();
      }
    }
    if at != self.pos {
      self.wrapped_at = self.pos;
    }
    let size = len + self.over;
    self.pos = at + size;
    self.exts.push_back(Ext { start: at, size, len, id, st: St::Reserved(producer), passed: false });
    self.tidy();
    gone
  }

  /// Whether there are only leftovers among the `n` oldest. Their space may be free or not.
  pub fn leftovers(&self, n: usize) -> bool {
    self.exts.iter().take(n).all(|e| e.st == St::Dead)
  }

  /// The oldest record is done with, and whatever is before it.
  pub fn pop(&mut self) -> Ext {
    loop {
      let e = self.exts.pop_front().unwrap();
      if e.st != St::Dead {
        self.tidy();
        return e;
      }
    }
  }

  pub fn reserved_by(&self, producer: u8) -> Option<&Ext> {
    self.exts.iter().find(|e| e.st == St::Reserved(producer))
  }

  /// How many became readable.
  pub fn commit(&mut self, producer: u8) -> Vec<Ext> {
    let e = self.exts.iter_mut().find(|e| e.st == St::Reserved(producer)).unwrap();
    e.st = St::Done;
    let mut out = vec![];
    for e in &mut self.exts {
      match e.st {
        St::Reserved(_) => break,
        St::Done => {
          e.st = St::Ready;
          out.push(*e);
        },
        _ => {},
      }
    }
    out
  }

  /// Leftovers do not matter when no record precedes them.
  pub fn tidy(&mut self) {
    if !self.exts.iter().any(|e| matches!(e.st, St::Ready | St::Maybe)) {
      self.exts.retain(|e| e.st != St::Dead);
    }
  }

  pub fn passed(&self) -> usize {
    self.exts.iter().filter(|e| e.passed && e.st == St::Ready).count()
  }

  /// What a new process finds.
  pub fn restart(&mut self, cursor: bool) {
    for e in &mut self.exts {
      match e.st {
        St::Reserved(_) | St::Done => e.st = St::Dead,
        St::Ready if e.passed && !cursor => e.st = St::Maybe,
        _ => {},
      }
      e.passed = false;
    }
    self.locks = 0;
    self.tidy();
  }
}

/// The contents of a record.
pub fn payload(id: u32, len: u32) -> Vec<u8> {
  (0 .. len).map(|i| ((id * 37 + i * 7 + 1) % 251 + 1) as u8).collect()
}
