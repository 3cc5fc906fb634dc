//! The reference for what flushes that workflows ask for lead to.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type Set = BTreeSet<&'static str>;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct Flush {
  pub id: &'static str,
  pub buffers: &'static [&'static str],
  pub stream: Option<(&'static [&'static str], Option<u64>)>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Pending {
  pub session: String,
  pub buffers: Set,
  pub stream: Option<(Set, Option<u64>)>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Stream {
  pub id: &'static str,
  pub session: String,
  pub from: Set,
  pub to: Set,
  pub max: Option<u64>,
  pub n: u64,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Default)]
pub struct Kept {
  pub session: String,
  pub pending: BTreeMap<&'static str, Pending>,
  pub streams: Vec<Stream>,
}

/// What is expected.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Model {
  pub flushes: &'static [Flush],
  pub now: Kept,
  pub disk: Option<Kept>,
  pub trigger: Set,
  pub continuous: Set,
  /// What the server is asked about, one after another.
  pub asking: VecDeque<(&'static str, Pending)>,
  pub rejected: Set,
  /// Flushes by action: whether the latest one is still under way.
  pub flushing: BTreeMap<&'static str, bool>,
}

impl Model {
  pub fn standardize(&mut self) {
    let (t, c) = (&self.trigger, &self.continuous);
    for p in self.now.pending.values_mut() {
      p.buffers.retain(|b| t.contains(b));
    }
    self.now.pending.retain(|_, p| !p.buffers.is_empty());
    for s in &mut self.now.streams {
      s.from.retain(|b| t.contains(b));
      s.to.retain(|b| c.contains(b));
    }
    self.now.streams.retain(|s| !s.from.is_empty() && !s.to.is_empty());
  }

  pub fn restart(&mut self) {
    self.now = self.disk.clone().unwrap_or_default();
    self.standardize();
    self.asking = self.now.pending.iter().map(|(k, p)| (*k, p.clone())).collect();
    self.rejected.clear();
    self.flushing.clear();
  }

  /// The action it triggers, the buffers it is about to flush, and where the log goes.
  pub fn log(&mut self, message: &str, session: &str, to: &Set) -> (Set, Set, Set) {
    self.now.session = session.to_string();
    let flushing = &self.flushing;
    self.now.streams.retain(|s| {
      let over = s.max.is_some_and(|m| s.n >= m) || s.session != session;
      !over || flushing.get(s.id).copied().unwrap_or(false)
    });
    let mut goes: Set = to.iter().filter(|b| self.trigger.contains(*b) || self.continuous.contains(*b)).copied().collect();
    let mut streamed = Set::new();
    for s in &mut self.now.streams {
      let hit: Set = s.from.intersection(to).copied().collect();
      if !hit.is_empty() {
        s.n += 1;
        goes.retain(|b| !hit.contains(b));
        streamed.extend(&s.to);
      }
    }
    goes.extend(streamed);
    let mut triggered = Set::new();
    let mut flushed = Set::new();
    if let Some(f) = self.flushes.iter().find(|f| f.id == message) {
      triggered.insert(f.id);
      let buffers: Set = if f.buffers.is_empty() { self.trigger.clone() } else { f.buffers.iter().filter(|b| self.trigger.contains(*b)).copied().collect() };
      if !buffers.is_empty() {
        flushed.clone_from(&buffers);
        if !self.now.pending.contains_key(f.id) && !self.now.streams.iter().any(|s| s.id == f.id) {
          let stream = f.stream.map(|(to, n)| {
            let to: Set = if to.is_empty() { self.continuous.iter().take(1).copied().collect() } else { to.iter().filter(|b| self.continuous.contains(*b)).copied().collect() };
            (to, n)
          });
          let p = Pending { session: session.to_string(), buffers, stream: stream.filter(|(to, _)| !to.is_empty()) };
          self.now.pending.insert(f.id, p.clone());
          self.asking.push_back((f.id, p));
        }
      }
    }
    (triggered, flushed, goes)
  }

  /// Those that were rejected once are not asked about again.
  pub fn skip(&mut self) {
    while let Some((id, _)) = self.asking.front() {
      if !self.rejected.contains(id) {
        break;
      }
      self.now.pending.remove(id);
      self.asking.pop_front();
    }
  }

  /// What is flushed, if anything.
  pub fn answer(&mut self, yes: bool) -> Option<(&'static str, Set)> {
    let (id, p) = self.asking.pop_front().unwrap();
    self.now.pending.remove(id);
    if !yes {
      self.rejected.insert(id);
      return None;
    }
    if let Some((to, max)) = p.stream {
      if !to.is_disjoint(&self.continuous) {
        self.now.streams.push(Stream { id, session: p.session, from: p.buffers.clone(), to, max, n: 0 });
      }
    }
    let busy = self.flushing.get(id).copied().unwrap_or(false);
    if busy {
      return None;
    }
    self.flushing.insert(id, true);
    Some((id, p.buffers))
  }
}

