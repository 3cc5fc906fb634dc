//! A platform's key-value storage, which outlives the processes that use it.

use bd_key_value::{Storage, Store};
use mc::Ctx;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Content {
  pub map: BTreeMap<String, String>,
  pub writes: BTreeMap<String, u32>,
  pub ops: u32,
  /// From this operation on, nothing reaches the storage: the process has died.
  pub dead_from: Option<u32>,
  pub faulted: BTreeMap<String, u32>,
}

/// Which faults may strike.
#[derive(Clone, Copy, Default)]
pub struct Faults {
  pub read: bool,
  pub write: bool,
  pub delete: bool,
}

#[derive(Clone)]
pub struct Disk {
  pub c: Arc<Mutex<Content>>,
  pub ctx: Option<Ctx>,
  pub faults: Faults,
  /// Whether each access is a scheduling point.
  pub points: bool,
}

impl Disk {
  pub fn new() -> Self {
    Self { c: Arc::default(), ctx: None, faults: Faults::default(), points: false }
  }
  pub fn faulty(ctx: &Ctx, faults: Faults) -> Self {
    Self { ctx: Some(ctx.clone()), faults, ..Self::new() }
  }
  pub fn with_points() -> Self {
    Self { points: true, ..Self::new() }
  }
  pub fn store(&self) -> Arc<Store> {
    Arc::new(Store::new(Box::new(self.clone())))
  }
  pub fn raw(&self, k: &str) -> Option<String> {
    self.c.lock().unwrap().map.get(k).cloned()
  }
  pub fn put_raw(&self, k: &str, v: &str) {
    self.c.lock().unwrap().map.insert(k.into(), v.into());
  }
  pub fn writes(&self, k: &str) -> u32 {
    self.c.lock().unwrap().writes.get(k).copied().unwrap_or(0)
  }
  pub fn all_writes(&self) -> u32 {
    self.c.lock().unwrap().writes.values().sum()
  }
  pub fn faults_on(&self, k: &str) -> u32 {
    self.c.lock().unwrap().faulted.get(k).copied().unwrap_or(0)
  }

  /// false: this operation does not happen, the process being dead.
  fn begin(&self) -> bool {
    if self.points {
      mc::th::point();
    }
    let mut c = self.c.lock().unwrap();
    c.ops += 1;
    c.dead_from.map_or(true, |d| c.ops <= d)
  }
  /// 0: all well, 1: fails and does nothing, 2: fails having done it.
  fn strike(&self, k: &str, on: bool, kinds: usize) -> usize {
    let Some(ctx) = &self.ctx else { return 0 };
    if !on {
      return 0;
    }
    let f = ctx.deviate(kinds);
    if f > 0 {
      *self.c.lock().unwrap().faulted.entry(k.into()).or_default() += 1;
    }
    f
  }
}

impl Storage for Disk {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    if !self.begin() {
      return Ok(());
    }
    let f = self.strike(key, self.faults.write, 3);
    if f != 1 {
      let mut c = self.c.lock().unwrap();
      c.map.insert(key.into(), value.into());
      *c.writes.entry(key.into()).or_default() += 1;
    }
    if f > 0 {
      anyhow::bail!("write fault");
    }
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    if !self.begin() {
      return Ok(None);
    }
    if self.strike(key, self.faults.read, 2) > 0 {
      anyhow::bail!("read fault");
    }
    Ok(self.raw(key))
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    if !self.begin() {
      return Ok(());
    }
    let f = self.strike(key, self.faults.delete, 3);
    if f != 1 {
      self.c.lock().unwrap().map.remove(key);
    }
    if f > 0 {
      anyhow::bail!("delete fault");
    }
    Ok(())
  }
}
