//! C32: metrics and screenshots that workflows ask for.

use crate::flows::{in_tokio, on};
use crate::matcher::{bytes, log, L};
use crate::wf::{config, Act, Model, Rig, Tr, Wf, V};
use mc::{same, Ctx, Opts, Res, Run, Scratch};
use std::collections::BTreeMap;

type Tags = BTreeMap<String, String>;
type Made = BTreeMap<Tags, Result<u64, Vec<f64>>>;

fn metric(id: &str, by: Result<u32, &'static str>, tags: Vec<(&'static str, V)>, histogram: bool) -> Act {
  Act::Metric(id.to_string(), by, tags, histogram)
}

/// What becomes of a text as the value of a metric.
fn number(s: &str) -> Option<f64> {
  Some(match s {
    "0" => 0.0,
    "3" => 3.0,
    "3.9" => 3.9,
    "-2" => -2.0,
    "1e3" => 1000.0,
    "18446744073709551616" => 18_446_744_073_709_551_616.0,
    "2" => 2.0,
    "1" => 1.0,
    "" | "x" | "3 " | "0x3" => return None,
    s => unreachable!("{s}"),
  })
}

fn count(f: f64) -> u64 {
  if f < 0.0 {
    0
  } else if f >= 18_446_744_073_709_551_616.0 {
    u64::MAX
  } else {
    f.floor() as u64
  }
}

#[derive(Default)]
struct Expected {
  counters: Made,
  histograms: Made,
  overflows: u64,
}

impl Expected {
  fn see(&mut self, a: &Act, l: &L, limit: usize) {
    let Act::Metric(id, by, tags, histogram) = a else { return };
    let mut t: Tags = tags.iter().filter_map(|(k, v)| v.of(l).map(|v| (k.to_string(), v))).collect();
    t.insert("_id".to_string(), id.clone());
    let value = match by {
      Ok(n) => Some(f64::from(*n)),
      Err(f) => V::Field(f).of(l).and_then(|v| number(&v)),
    };
    let Some(v) = value else { return };
    let room = self.counters.len() + self.histograms.len() < limit;
    let of = if *histogram { &mut self.histograms } else { &mut self.counters };
    if !room && !of.contains_key(&t) {
      self.overflows += 1;
      return;
    }
    match of.entry(t).or_insert_with(|| if *histogram { Err(vec![]) } else { Ok(0) }) {
      Ok(n) => *n = n.wrapping_add(count(v)),
      Err(vs) => vs.push(v),
    }
  }
}

/// Those that counted nothing are as good as not there.
fn counters(m: Made) -> Made {
  m.into_iter().filter(|(_, v)| *v != Ok(0)).collect()
}

async fn made(ctx: &Ctx, wfs: &[Wf], logs: &[&L], limit: u32) -> Res {
  let dir = Scratch::new();
  let mut rig = Rig::with(dir.path(), &[("stats.max_dynamic_stats", limit)]);
  rig.engine.start(config(wfs, &["t"], &[]));
  let mut m = Model::new(wfs, 1000);
  let mut want = Expected::default();
  ctx.say(|| format!("workflows {wfs:?}"));
  for (n, l) in logs.iter().enumerate() {
    ctx.say(|| format!("{l:?}"));
    ctx.step();
    let got = rig.log(l, "s", n as i64, &[]);
    let mut once: Vec<&Act> = vec![];
    for (k, s, t) in m.log(wfs, l, "s", n as i64) {
      for a in &wfs[k].states[s][t].acts {
        if !once.contains(&a) {
          once.push(a);
        }
      }
    }
    for a in &once {
      want.see(a, l, limit as usize);
    }
    ctx.state((&m.runs, want.overflows, mc::hash_of(format!("{:?}", want.counters))));
    same!("shot", got.shot, once.iter().any(|a| matches!(a, Act::Shot(_))), "whether log {n} asks for a screenshot");
    let flushes = once.iter().filter_map(|a| if let Act::Flush(id, ..) = a { Some(id.clone()) } else { None }).collect();
    same!("flush", got.actions, flushes, "flushes that log {n} asks for");
    same!("counters", counters(rig.made("workflows_dyn:action")), counters(want.counters.clone()), "counters after log {n}");
    same!("histograms", rig.made("workflows_dyn:histogram"), want.histograms, "histograms after log {n}");
    same!("overflow", rig.stat("stats:dynamic_stats_overflow", &[]), want.overflows, "metrics that there was no room for");
  }
  Ok(())
}

fn one(acts: Vec<Act>) -> Wf {
  Wf::new("w", false, vec![vec![Tr { to: 1, on: on("a"), count: 1, acts, takes: vec![] }], vec![]])
}

pub fn c32(r: &mut Run) {
  let texts = ["0", "3", "3.9", "-2", "1e3", "18446744073709551616", "", "x", "3 ", "0x3"];
  let mut values: Vec<L> = vec![log("a"), log("b").f("n", "3")];
  for t in texts {
    values.push(log("a").f("n", t).f("o", "u"));
    values.push(log("a").m("n", t).level(1).kind(1));
  }
  values.push(log("a").f("n", "3").m("n", "1e3"));
  let mut odd = log("a").m("n", "3");
  odd.captured.push(bytes("n", b"1"));
  values.push(odd);
  let by = [Ok(0), Ok(1), Ok(u32::MAX), Err("n"), Err("log_level"), Err("log_type"), Err("gone")];
  let tags: Vec<Vec<(&'static str, V)>> = vec![
    vec![],
    vec![("a", V::Fixed("x")), ("b", V::Field("n"))],
    vec![("n", V::Field("log_level")), ("log_level", V::Field("log_type")), ("o", V::Field("o")), ("e", V::Fixed(""))],
  ];
  r.explore(
    "values",
    &format!("{} increments, {} sets of tags, counters and histograms, 2 of {} logs", by.len(), tags.len(), values.len()),
    Opts::default(),
    |ctx| {
      let w = one(vec![metric("m", *ctx.pick(&by), ctx.pick(&tags).clone(), ctx.flip())]);
      let logs = [ctx.pick(&values), ctx.pick(&values)];
      in_tokio(made(ctx, &[w], &logs, 500))
    },
  );
  let logs = [log("a"), log("b"), log("a").f("n", "3"), log("b").f("n", "x"), log("c")];
  let acts = [
    metric("m", Ok(1), vec![], false),
    metric("m", Ok(2), vec![], false),
    metric("m", Ok(1), vec![("n", V::Field("n"))], false),
    metric("m", Ok(1), vec![], true),
    metric("n", Err("n"), vec![("n", V::Field("n"))], false),
    Act::Shot("s".to_string()),
    Act::Flush("f".to_string(), vec![], None),
  ];
  let depth = r.by_tier(3, 4);
  r.explore(
    "once",
    &format!("two workflows with 3 of {} actions (metrics alike and not, screenshots, flushes) on forks and joins, parallel or exclusive, {depth} of 5 logs", acts.len()),
    Opts::default(),
    |ctx| {
      let t = |to, s, acts: &[&Act]| Tr { to, on: on(s), count: 1, acts: acts.iter().map(|a| (*a).clone()).collect(), takes: vec![] };
      let (x, y, z) = (ctx.pick(&acts), ctx.pick(&acts), ctx.pick(&acts));
      let v = Wf::new("v", false, vec![vec![t(1, "a", &[x, y]), t(2, "ab", &[z])], vec![t(3, "b", &[x])], vec![t(3, "*", &[y])], vec![]]);
      let w = Wf::new("w", ctx.flip(), vec![vec![t(1, "a", &[z])], vec![t(2, "b", &[x, x])], vec![]]);
      let of: Vec<&L> = (0 .. depth).map(|_| ctx.pick(&logs)).collect();
      in_tokio(made(ctx, &[v, w], &of, 500))
    },
  );
  let depth = r.by_tier(5, 6);
  r.explore("room", &format!("room for 0 to 3 metrics, {depth} logs, each to count or to a histogram, with 2 or 3 values of a tag"), Opts::default(), |ctx| {
    let mut w = one(vec![metric("m", Ok(1), vec![("k", V::Field("k"))], false)]);
    w.states[0].push(Tr { to: 1, on: on("b"), count: 1, acts: vec![metric("h", Ok(2), vec![("k", V::Field("k"))], true)], takes: vec![] });
    let ls = [log("a"), log("a").f("k", "x"), log("a").f("k", "y"), log("b").f("k", "x"), log("b")];
    let of: Vec<&L> = (0 .. depth).map(|_| ctx.pick(&ls)).collect();
    in_tokio(made(ctx, &[w], &of, ctx.choose(4) as u32))
  });
}
