//! C28: the state of workflows outlives the process, and changes of the configuration.

use crate::flows::{in_tokio, tr};
use crate::matcher::log;
use crate::wf::{config, told, Model, One, Rig, Wf};
use mc::{check, same, Ctx, Opts, Res, Run, Scratch};
use std::collections::{BTreeMap, BTreeSet};

fn workflows() -> BTreeMap<&'static str, Wf> {
  let mut m = BTreeMap::new();
  m.insert("v", Wf::new("v", false, vec![vec![tr(1, "a", 1), tr(2, "b", 1)], vec![tr(2, "a", 1)], vec![tr(3, "b", 1)], vec![]]));
  m.insert("w", Wf::new("w", true, vec![vec![tr(1, "a", 2)], vec![tr(2, "b", 1)], vec![]]));
  m.insert("w'", Wf::new("w", true, vec![vec![tr(1, "b", 1), tr(2, "a", 1)], vec![tr(2, "a", 1), tr(2, "b", 2)], vec![]]));
  let mut u = Wf::new("u", false, vec![vec![tr(1, "a", 1)], vec![tr(2, "b", 2)], vec![]]);
  u.matched = Some(2);
  m.insert("u", u);
  let mut x = Wf::new("x", false, vec![vec![tr(1, "a", 1)], vec![tr(2, "b", 1)], vec![]]);
  x.duration = Some(10);
  m.insert("x", x);
  m.into_iter().map(|(k, w)| (k, w.telling())).collect()
}

const SETS: [&[&str]; 4] = [&["v", "w", "u", "x"], &["w'", "v", "x"], &["x", "v"], &["u", "x", "w", "v"]];

type Disk = Option<(String, BTreeMap<String, Vec<One>>)>;

fn fits(w: &Wf, runs: &[One]) -> bool {
  runs.iter().all(|r| !r.at.is_empty() && r.at.iter().all(|(s, c, _)| *s < w.states.len() && !c.is_empty() && w.states[*s].len() == c.len()))
}

struct Sim {
  wfs: Vec<Wf>,
  m: Model,
  disk: Disk,
}

impl Sim {
  fn new(wfs: Vec<Wf>) -> Self {
    Self { m: Model::new(&wfs, 1000), wfs, disk: None }
  }
  fn persist(&mut self) {
    let runs = self
      .wfs
      .iter()
      .zip(&self.m.runs)
      .map(|(w, r)| (w.id.clone(), r.iter().filter(|r| !r.initial()).cloned().collect::<Vec<_>>()))
      .collect();
    self.disk = Some((self.m.session.clone(), runs));
  }
  fn restart(&mut self) {
    self.m = Model::new(&self.wfs, 1000);
    if let Some((session, runs)) = &self.disk {
      self.m.session.clone_from(session);
      for (k, w) in self.wfs.iter().enumerate() {
        if let Some(r) = runs.get(&w.id).filter(|r| fits(w, r)) {
          self.m.runs[k].clone_from(r);
        }
      }
    }
  }
  fn update(&mut self, wfs: Vec<Wf>) {
    let runs = wfs.iter().map(|w| self.wfs.iter().position(|o| o == w).map_or_else(Vec::new, |i| self.m.runs[i].clone())).collect();
    self.m.runs = runs;
    self.wfs = wfs;
  }
  fn log(&mut self, message: &str, session: &str, at: i64) -> BTreeSet<String> {
    let followed = self.m.log(&self.wfs, &log(message), session, at);
    followed.into_iter().map(|(k, s, t)| told(&self.wfs[k].id, s, t)).collect()
  }
}

async fn histories(ctx: &Ctx, depth: usize) -> Res {
  let all = workflows();
  let set = |i: usize| SETS[i].iter().map(|k| all[k].clone()).collect::<Vec<_>>();
  let dir = Scratch::new();
  let mut sim = Sim::new(set(0));
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&sim.wfs, &[], &[]));
  let mut session = "s";
  let mut at = 0;
  for _ in 0 .. depth {
    let op = ctx.choose(9);
    at += 6;
    ctx.step();
    ctx.state((&sim.m.runs, &sim.disk, &sim.m.session, sim.wfs.len()));
    match op {
      0 ..= 2 => {
        if op == 2 {
          session = if session == "s" { "t" } else { "s" };
        }
        let message = ["a", "b", "a"][op];
        ctx.say(|| format!("log {message} in {session} at {at}"));
        let got = rig.log(&log(message), session, at, &[]);
        let want = sim.log(message, session, at);
        same!("followed", got.actions, want, "transitions that a log {message} in session {session} leads to");
      },
      3 => {
        ctx.say(|| "persist".into());
        rig.engine.maybe_persist(true).await;
        sim.persist();
      },
      4 => {
        ctx.say(|| "restart".into());
        drop(rig);
        rig = Rig::new(dir.path(), None);
        rig.engine.start(config(&sim.wfs, &[], &[]));
        sim.restart();
      },
      k => {
        ctx.say(|| format!("now the workflows are {:?}", SETS[k - 5]));
        sim.update(set(k - 5));
        rig.engine.update(config(&sim.wfs, &[], &[]));
      },
    }
  }
  Ok(())
}

/// The state file is not written more often than it should be, unless that is forced.
async fn rate(ctx: &Ctx, depth: usize) -> Res {
  let chain = Wf::new("c", true, (0 .. 12).map(|i| if i < 11 { vec![tr(i + 1, "a", 1)] } else { vec![] }).collect()).telling();
  let dir = Scratch::new();
  let mut sim = Sim::new(vec![chain]);
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&sim.wfs, &[], &[]));
  let mut now = 0;
  let mut last: Option<u64> = None;
  for _ in 0 .. depth {
    let op = ctx.choose(5);
    let got = rig.log(&log("a"), "s", 0, &[]);
    same!("followed", got.actions, sim.log("a", "s", 0), "the transition that a log leads to");
    ctx.step();
    ctx.state((&sim.m.runs, &sim.disk, now, last));
    match op {
      0 | 1 => {
        ctx.say(|| format!("persist at {now} ms, {}", if op == 1 { "forced" } else { "if it is time" }));
        rig.engine.maybe_persist(op == 1).await;
        if op == 1 || !last.is_some_and(|t| now - t < 1000) {
          last = Some(now);
          sim.persist();
        }
      },
      2 => {
        ctx.say(|| "restart".into());
        drop(rig);
        rig = Rig::new(dir.path(), None);
        rig.engine.start(config(&sim.wfs, &[], &[]));
        sim.restart();
        last = None;
      },
      k => {
        let ms = [500, 999][k - 3];
        tokio::time::advance(std::time::Duration::from_millis(ms)).await;
        now += ms;
      },
    }
  }
  Ok(())
}

/// A state file that is cut off at any place, or of which nothing is left.
async fn damage(ctx: &Ctx) -> Res {
  let all = workflows();
  let set = |i: usize| SETS[i].iter().map(|k| all[k].clone()).collect::<Vec<_>>();
  let dir = Scratch::new();
  let which = ctx.choose(4);
  let before = set(which);
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&before, &[], &[]));
  for (n, m) in ["a", "b", "a"].iter().enumerate() {
    rig.log(&log(m), "s", n as i64, &[]);
  }
  rig.engine.maybe_persist(true).await;
  drop(rig);
  let file = dir.path().join("workflows_state_snapshot.4.bin");
  let data = std::fs::read(&file).map_err(|e| mc::Violation { key: "no file".into(), msg: format!("the state file: {e}") })?;
  let cut = ctx.choose(data.len() + 4);
  let left = match cut.checked_sub(data.len()) {
    None => data[.. cut].to_vec(),
    Some(0) => vec![0; data.len()],
    Some(1) => vec![0; 4096],
    Some(2) => vec![0; 31],
    Some(_) => b"<html>".to_vec(),
  };
  ctx.say(|| format!("configuration {which}: {} bytes left of {}: {left:?}", left.len(), data.len()));
  std::fs::write(&file, &left).unwrap();
  // The configuration it was, or another one.
  let now = set(ctx.choose(4));
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&now, &[], &[]));
  let mut sim = Sim::new(now);
  check!(left.len() > 31 && left.iter().all(|b| *b == 0) || !file.exists(), "kept", "a state file that cannot be read is still there: {left:?}");
  for (n, m) in ["a", "b", "a", "b"].iter().enumerate() {
    ctx.step();
    ctx.state((&sim.m.runs, cut));
    let got = rig.log(&log(m), "s", 10 + n as i64, &[]);
    same!("followed", got.actions, sim.log(m, "s", 10 + n as i64), "transitions after a start with a damaged file");
  }
  sim.persist();
  rig.engine.maybe_persist(true).await;
  drop(rig);
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&sim.wfs, &[], &[]));
  sim.restart();
  let got = rig.log(&log("b"), "s", 15, &[]);
  same!("followed", got.actions, sim.log("b", "s", 15), "transitions after a persist and another start");
  Ok(())
}

/// After a start with another configuration under the same name.
async fn misfit(ctx: &Ctx) -> Res {
  let shapes = crate::flows::shapes();
  let dir = Scratch::new();
  let exclusive = ctx.flip();
  let mut sim = Sim::new(vec![Wf::new("w", exclusive, ctx.pick(&shapes).clone()).telling()]);
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&sim.wfs, &[], &[]));
  for n in 0 .. 2 {
    let m = *ctx.pick(&["a", "b"]);
    rig.log(&log(m), "s", n, &[]);
    sim.log(m, "s", n);
  }
  rig.engine.maybe_persist(true).await;
  sim.persist();
  drop(rig);
  sim.wfs = vec![Wf::new("w", exclusive, ctx.pick(&shapes).clone()).telling()];
  ctx.say(|| format!("stored {:?}, now {:?}", sim.disk, sim.wfs));
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(&sim.wfs, &[], &[]));
  let fit = sim.disk.as_ref().is_some_and(|(_, runs)| runs.values().all(|r| fits(&sim.wfs[0], r)));
  let none = sim.disk.as_ref().is_some_and(|(_, runs)| runs.values().flatten().flat_map(|r| &r.at).all(|(s, c, p)| !fits(&sim.wfs[0], &[One { at: vec![(*s, c.clone(), p.clone())], matched: 0, first: None }])));
  sim.restart();
  for n in 2 .. 5 {
    let m = *ctx.pick(&["a", "b"]);
    ctx.step();
    ctx.state((&sim.m.runs, fit));
    let got = rig.log(&log(m), "s", n, &[]);
    let want = sim.log(m, "s", n);
    // Where part of what was stored fits, what remains of it is not said.
    if fit || none {
      same!("followed", got.actions, want, "transitions that a log {m} leads to under another configuration");
    }
  }
  Ok(())
}

pub fn c28(r: &mut Run) {
  let depth = r.by_tier(5, 6);
  r.explore(
    "histories",
    &format!("4 workflows that fork, count and have limits; {depth} steps of: 3 logs in 2 sessions, persist, restart, update to one of 4 configurations"),
    Opts::default(),
    |ctx| in_tokio(histories(ctx, depth)),
  );
  let depth = r.by_tier(6, 8);
  r.explore("rate", &format!("{depth} steps of: persist if it is time, forced persist, restart, 500 or 999 ms pass; a log before each"), Opts::default(), |ctx| {
    in_tokio(rate(ctx, depth))
  });
  r.explore("damage", "4 configurations, the state file cut off at each of its bytes, or zeros, or something else; 4 configurations at the start after it", Opts::default(), |ctx| {
    in_tokio(damage(ctx))
  });
  r.explore("misfit", "the states of 14 workflows after 2 of 2 logs, started with each of the 14, and 3 of 2 logs", Opts::default(), |ctx| in_tokio(misfit(ctx)));
}
