//! C11: feature flags.

use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags};
use bd_runtime_config::loader::StatsCallbacks;
use mc::{check, fut, same, Ctx, Opts, Res, Run, Scratch};
use std::sync::Arc;

struct NoStats;
impl StatsCallbacks for NoStats {
  fn on_deserialize_success(&self) {}
  fn on_deserialize_failure(&self) {}
  fn on_io_failure(&self) {}
}

/// The `k`th of 10,000 random numbers of which each residue, and each equal part of the whole range,
/// has exactly one: however a number is drawn from it, each of 10,000 outcomes comes once.
pub fn spread(k: u64) -> u64 {
  let mut h = ((k << 32) + 9_999) / 10_000;
  h += (k + 10_000 - h % 10_000) % 10_000;
  let x = h << 32;
  x + (k + 10_000 - x % 10_000) % 10_000
}

fn flags(yaml: Option<&str>) -> (Scratch, tokio::runtime::Runtime, tokio::sync::watch::Receiver<Option<Arc<dyn FeatureFlags>>>) {
  let dir = Scratch::new();
  let f = dir.path().join("f.yaml");
  if let Some(y) = yaml {
    std::fs::write(&f, y).unwrap();
  }
  let rt = fut::runtime();
  let w = {
    let _in = rt.enter();
    new_memory_feature_flags_loader(dir.path(), f, NoStats).unwrap().snapshot_watch()
  };
  (dir, rt, w)
}

pub fn c11(r: &mut Run) {
  r.assume("random numbers are uniform: the draw is over 10,000 numbers that are spread evenly");
  let all: Vec<u64> = if r.thorough() {
    (0 ..= 10_050).collect()
  } else {
    (0 ..= 12).chain((100 .. 10_000).step_by(431)).chain(9_995 ..= 10_003).collect()
  };
  let mut all = all;
  all.extend([99_999, 1 << 32, (1 << 32) + 5, i64::MAX as u64, u64::MAX]);
  let all = &all;
  r.explore(
    "rollout",
    &format!("{} values of a flag, all 10,000 outcomes of the draw", all.len()),
    Opts::default(),
    |ctx| rollout(ctx, *ctx.pick(all)),
  );
  r.explore("values", "every file of one or two entries of 12 kinds of value, and malformed files, read as each type", Opts::default(), values);
  r.explore("reload", "flags in use while the file changes between 6 contents, 3 times", Opts::default(), reload);
}

fn rollout(ctx: &Ctx, i: u64) -> Res {
  let (_d, _rt, w) = flags(Some(&format!("values:\n  f: {i}\n  g: yes please\n")));
  ctx.step();
  ctx.state(i);
  ctx.say(|| format!("f: {i}"));
  let mut n = 0;
  for k in 0 .. 10_000 {
    mc_sync::set_raw_random(Some(Box::new(move || spread(k))));
    let on = w.feature_enabled("f", k % 2 == 0);
    n += u64::from(on);
    if k % 1000 == 0 {
      check!(w.feature_enabled("g", true) && !w.feature_enabled("g", false), "default", "a flag that is no integer");
      check!(w.feature_enabled("h", true) && !w.feature_enabled("h", false), "default", "a flag that is not there");
    }
  }
  same!("share", n, i.min(10_000), "of 10,000 draws, those with the feature on, for a flag of {i}");
  Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum V {
  B(bool),
  I(u64),
  S(&'static str),
  Bad,
}
const KINDS: [(&str, V); 12] = [
  ("true", V::B(true)),
  ("false", V::B(false)),
  ("0", V::I(0)),
  ("7", V::I(7)),
  ("10000", V::I(10_000)),
  ("18446744073709551615", V::I(u64::MAX)),
  ("hello", V::S("hello")),
  ("\"7\"", V::S("7")),
  ("\"\"", V::S("")),
  ("[1]", V::Bad),
  ("{a: 1}", V::Bad),
  ("-1", V::Bad),
];

fn judge(w: &dyn FeatureFlags, name: &str, v: &V) -> Res {
  let dflt = Arc::new("dflt".to_string());
  for b in [true, false] {
    same!("bool", w.get_bool(name, b), if let V::B(x) = v { *x } else { b }, "{name} ({v:?}) as a bool");
    match v {
      V::I(0) => check!(!w.feature_enabled(name, b), "zero", "a flag of 0 is on"),
      V::I(i) if *i >= 10_000 => check!(w.feature_enabled(name, b), "full", "a flag of {i} is off"),
      V::I(_) => {},
      _ => same!("default", w.feature_enabled(name, b), b, "{name} ({v:?}) as a feature"),
    }
  }
  for d in [0, 9, u64::MAX] {
    same!("integer", w.get_integer(name, d), if let V::I(x) = v { *x } else { d }, "{name} ({v:?}) as an integer");
  }
  let want = if let V::S(x) = v { (*x).to_string() } else { dflt.to_string() };
  same!("string", w.get_string(name, &dflt).to_string(), want, "{name} ({v:?}) as a string");
  Ok(())
}

fn values(ctx: &Ctx) -> Res {
  ctx.step();
  let n = ctx.choose(4);
  if n == 0 {
    let file = *ctx.pick(&[None, Some(""), Some("values:"), Some("values: 5"), Some("a: 1"), Some("values: {a: 1"), Some("- 1"), Some("\u{0}")]);
    ctx.say(|| format!("the file {file:?}"));
    ctx.state(file);
    let (_d, _rt, w) = flags(file);
    judge(&w, "a", &V::Bad)?;
    return judge(&w, "", &V::Bad);
  }
  let a = ctx.pick(&KINDS).clone();
  let b = if n == 2 { Some(ctx.pick(&KINDS).clone()) } else { None };
  let mut file = format!("values:\n  a: {}\n", a.0);
  if let Some(b) = &b {
    file += &format!("  b c: {}\n", b.0);
  }
  if n == 3 {
    file = format!("other: 1\n{file}");
  }
  ctx.say(|| format!("the file {file:?}"));
  ctx.state(&file);
  let (_d, _rt, w) = flags(Some(&file));
  // One value of no known kind spoils the file.
  let bad = a.1 == V::Bad || b.as_ref().is_some_and(|b| b.1 == V::Bad);
  judge(&w, "a", if bad { &V::Bad } else { &a.1 })?;
  judge(&w, "b c", if bad { &V::Bad } else { b.as_ref().map_or(&V::Bad, |b| &b.1) })?;
  judge(&w, "A", &V::Bad)
}

fn reload(ctx: &Ctx) -> Res {
  let (d, rt, w) = flags(Some("values: {a: 10000}"));
  let watched = notify::staged::take().pop().unwrap().upgrade().unwrap();
  let mut now = V::I(10_000);
  for _ in 0 .. 3 {
    judge(&w, "a", &now)?;
    ctx.step();
    let f = d.path().join("f.yaml");
    let (text, v) = ctx
      .pick(&[
        (Some("values: {a: 0}"), V::I(0)),
        (Some("values: {a: true}"), V::B(true)),
        (Some("values: {b: 1}"), V::Bad),
        (Some("values: {a: x}"), V::S("x")),
        (Some("{{"), V::Bad),
        (None, V::Bad),
      ])
      .clone();
    match text {
      Some(t) => std::fs::write(f, t).unwrap(),
      None => {
        let _ = std::fs::remove_file(f);
      },
    }
    use notify::event::{EventKind, ModifyKind, RenameMode};
    watched.emit(Ok(notify::Event::new(EventKind::Modify(ModifyKind::Name(RenameMode::Both)))));
    rt.block_on(fut::settle());
    now = v;
    ctx.state(text);
    judge(&w, "a", &now)?;
  }
  Ok(())
}
