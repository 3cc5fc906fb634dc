//! C27: workflows advance as they say. C29: their limits.

use crate::matcher::{log, Op, L, M};
use crate::wf::{config, same_stats, told, Act, Model, Rig, Tr, Wf, V};
use mc::{same, Ctx, Opts, Res, Run, Scratch};
use std::collections::BTreeSet;

pub fn on(s: &'static str) -> M {
  match s {
    "*" => M::And(vec![]),
    "ab" => M::Or(vec![on("a"), on("b")]),
    s => M::Msg(Op::Eq, s),
  }
}

pub fn tr(to: usize, s: &'static str, count: u32) -> Tr {
  Tr { to, on: on(s), count, acts: vec![], takes: vec![] }
}

/// Workflows of up to five states that fork, join, count and end in different places.
pub fn shapes() -> Vec<Vec<Vec<Tr>>> {
  vec![
    vec![vec![tr(1, "a", 1)], vec![]],
    vec![vec![tr(1, "a", 2)], vec![tr(2, "b", 2)], vec![]],
    vec![vec![tr(1, "a", 1)], vec![tr(2, "a", 1)], vec![tr(3, "a", 1)], vec![]],
    vec![vec![tr(1, "a", 1), tr(2, "*", 1)], vec![tr(3, "b", 1)], vec![tr(3, "a", 1)], vec![]],
    vec![vec![tr(1, "a", 1), tr(2, "b", 1)], vec![tr(3, "b", 2)], vec![tr(3, "a", 2)], vec![]],
    vec![vec![tr(2, "a", 1), tr(1, "a", 1)], vec![tr(2, "b", 1)], vec![]],
    vec![vec![tr(1, "a", 2), tr(2, "b", 1)], vec![tr(2, "a", 1)], vec![]],
    vec![vec![tr(1, "a", 1)], vec![tr(2, "b", 1), tr(3, "*", 2)], vec![tr(4, "a", 1)], vec![tr(4, "b", 1)], vec![]],
    vec![vec![tr(1, "a", 1), tr(1, "*", 1)], vec![tr(3, "a", 1), tr(2, "*", 1)], vec![tr(3, "b", 1)], vec![]],
    vec![vec![tr(1, "a", 1), tr(2, "a", 2)], vec![tr(3, "a", 3)], vec![tr(3, "b", 1)], vec![]],
    vec![vec![tr(1, "ab", 1), tr(2, "ab", 1), tr(3, "b", 1)], vec![tr(3, "a", 1)], vec![tr(3, "b", 2), tr(4, "a", 1)], vec![], vec![tr(3, "*", 1)]],
    vec![vec![]],
    vec![vec![tr(1, "a", 0), tr(2, "b", 1)], vec![tr(2, "a", 1)], vec![]],
    vec![vec![tr(1, "a", 1)], vec![tr(3, "a", 1), tr(2, "a", 2)], vec![tr(4, "b", 1)], vec![tr(2, "b", 1), tr(4, "a", 2)], vec![]],
  ]
}

/// Every state may have up to two transitions, to one of the states after it.
fn all_of(targets: &[usize], letters: &[&'static str], counts: &[u32], upto: usize) -> Vec<Vec<Tr>> {
  let mut one = vec![];
  for t in targets {
    for l in letters {
      for c in counts {
        one.push(tr(*t, l, *c));
      }
    }
  }
  let mut v: Vec<Vec<Tr>> = one.iter().map(|t| vec![t.clone()]).collect();
  if upto > 1 {
    for a in &one {
      for b in &one {
        v.push(vec![a.clone(), b.clone()]);
      }
    }
  }
  v
}

pub fn letters() -> Vec<L> {
  vec![log("a"), log("b"), log("c")]
}

pub fn in_tokio<T>(f: impl std::future::Future<Output = T>) -> T {
  mc::fut::runtime().block_on(f)
}

/// Logs, one after another, through an engine with these workflows and the same in the model.
pub async fn go(ctx: &Ctx, wfs: &[Wf], logs: &[(L, &str, i64)], limit: u32, stats: bool) -> Res {
  let dir = Scratch::new();
  let mut rig = Rig::new(dir.path(), Some(limit));
  rig.engine.start(config(wfs, &[], &[]));
  let mut m = Model::new(wfs, limit);
  for (n, (l, session, at)) in logs.iter().enumerate() {
    let got = rig.log(l, session, *at, &[]);
    let want: BTreeSet<String> = m.log(wfs, l, session, *at).into_iter().map(|(k, s, t)| told(&wfs[k].id, s, t)).collect();
    ctx.step();
    ctx.state((&m.runs, mc::hash_of(format!("{wfs:?}"))));
    if got.actions != want {
      let odd: Vec<_> = got.actions.symmetric_difference(&want).collect();
      let of: Vec<_> = wfs.iter().filter(|w| odd.iter().any(|o| o.starts_with(&format!("{}.", w.id)))).take(2).collect();
      mc::fail!("followed", "log {n} of {:?}: differs in {odd:?} of {of:?}", logs.iter().map(|(l, s, at)| (l.message.as_str().unwrap_or("?").to_string(), *s, *at)).collect::<Vec<_>>());
    }
    if stats {
      same_stats(&rig, m.stats)?;
    }
  }
  same_stats(&rig, m.stats)
}

fn described(ctx: &Ctx, wfs: &[Wf], logs: &[(L, &str, i64)]) {
  ctx.say(|| format!("workflows {wfs:?}"));
  ctx.say(|| format!("logs {:?}", logs.iter().map(|(l, s, at)| (l.message.as_str().unwrap_or("?").to_string(), *s, *at)).collect::<Vec<_>>()));
}

pub fn c27(r: &mut Run) {
  let shapes = shapes();
  let depth = r.by_tier(6, 8);
  r.explore(
    "shapes",
    &format!("{} workflows of up to 5 states, parallel or exclusive, {depth} logs of 3 kinds", shapes.len()),
    Opts::default(),
    |ctx| {
      let ls = letters();
      let w = Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone()).telling();
      let logs: Vec<_> = (0 .. depth).map(|i| (ctx.pick(&ls).clone(), "s", i as i64)).collect();
      described(ctx, std::slice::from_ref(&w), &logs);
      in_tokio(go(ctx, &[w], &logs, 1000, true))
    },
  );
  // Many workflows at a time, none of which is to mind the others.
  let counts: &[u32] = r.by_tier(&[1], &[1, 2]);
  let kinds: &[&'static str] = r.by_tier(&["a", "b"], &["a", "b", "*"]);
  let first = all_of(&[1, 2, 3], &["a", "b", "*"], counts, 2);
  let second = all_of(&[2, 3], kinds, &[1], 2);
  let third = all_of(&[3], &["b"], &[1], 1);
  let depth = r.by_tier(4, 5);
  r.explore(
    "all",
    &format!("each of {} x {} workflows of up to 4 states with up to 2 transitions from each, parallel or exclusive, {} at a time, {depth} logs of 3 kinds", first.len(), second.len(), second.len() * 2),
    Opts::default().full(),
    |ctx| {
      let ls = letters();
      let f = ctx.pick(&first).clone();
      let mut wfs = vec![];
      for (i, s) in second.iter().enumerate() {
        for exclusive in [false, true] {
          let id = format!("w{i}{}", if exclusive { "x" } else { "p" });
          wfs.push(Wf::new(&id, exclusive, vec![f.clone(), s.clone(), third[0].clone(), vec![]]).telling());
        }
      }
      let logs: Vec<_> = (0 .. depth).map(|i| (ctx.pick(&ls).clone(), "s", i as i64)).collect();
      in_tokio(go(ctx, &wfs, &logs, 1_000_000, false))
    },
  );
  let depth = r.by_tier(5, 7);
  r.explore(
    "sessions",
    &format!("{} workflows of up to 5 states, parallel or exclusive, {depth} logs of 2 kinds, each in one of 2 sessions", shapes.len()),
    Opts::default(),
    |ctx| {
      let ls = letters();
      let w = Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone()).telling();
      let logs: Vec<_> = (0 .. depth).map(|i| (ls[ctx.choose(2)].clone(), *ctx.pick(&["s", "t"]), i as i64)).collect();
      described(ctx, std::slice::from_ref(&w), &logs);
      in_tokio(go(ctx, &[w], &logs, 1000, true))
    },
  );
}

pub fn c29(r: &mut Run) {
  let shapes = shapes();
  let depth = r.by_tier(5, 7);
  let max = r.by_tier(4, 6);
  r.explore(
    "matched",
    &format!("{} workflows of up to 5 states, parallel or exclusive, that may match 1 to {max} logs per run, {depth} logs of 2 kinds", shapes.len()),
    Opts::default(),
    |ctx| {
      let ls = letters();
      let mut w = Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone()).telling();
      w.matched = Some(1 + ctx.choose(max) as u32);
      let logs: Vec<_> = (0 .. depth).map(|i| (ls[ctx.choose(2)].clone(), "s", i as i64)).collect();
      described(ctx, std::slice::from_ref(&w), &logs);
      in_tokio(go(ctx, &[w], &logs, 1000, true))
    },
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "duration",
    &format!("{} workflows of up to 5 states, parallel or exclusive, for 10 ms per run, {depth} logs of 2 kinds, each -5, 5, 10 or 11 ms after the one before", shapes.len()),
    Opts::default(),
    |ctx| {
      let ls = letters();
      let mut w = Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone()).telling();
      w.duration = Some(10);
      let mut at = 1000;
      let logs: Vec<_> = (0 .. depth)
        .map(|i| {
          if i > 0 {
            at += [-5, 5, 10, 11][ctx.choose(4)];
          }
          (ls[ctx.choose(2)].clone(), "s", at)
        })
        .collect();
      described(ctx, std::slice::from_ref(&w), &logs);
      in_tokio(go(ctx, &[w], &logs, 1000, true))
    },
  );
  let depth = r.by_tier(4, 6);
  let max = r.by_tier(5, 8);
  r.explore(
    "traversals",
    &format!("two of {} workflows of up to 5 states, parallel or exclusive, with room for 0 to {} traversals, {depth} logs of 2 kinds", shapes.len(), max - 1),
    Opts::default(),
    |ctx| {
      let ls = letters();
      let mut wfs = vec![
        Wf::new("v", ctx.flip(), ctx.pick(&shapes).clone()).telling(),
        Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone()).telling(),
      ];
      wfs[0].matched = [None, Some(3)][ctx.choose(2)];
      let limit = ctx.choose(max) as u32;
      let logs: Vec<_> = (0 .. depth).map(|i| (ls[ctx.choose(2)].clone(), "s", i as i64)).collect();
      described(ctx, &wfs, &logs);
      in_tokio(go(ctx, &wfs, &logs, limit, true))
    },
  );
}

/// What the other files use.
pub fn flush_all(id: &str) -> Act {
  Act::Flush(id.to_string(), vec![], None)
}
pub fn field_tag(k: &'static str, f: &'static str) -> (&'static str, V) {
  (k, V::Field(f))
}
