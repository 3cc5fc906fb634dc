//! C08: updates of the app are noticed.

use crate::app_version::{AppVersion, AppVersionExtra, Repository};
use crate::disk::{Disk, Faults};
use mc::{check, same, Ctx, Opts, Res, Run};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum X {
  Code(i64),
  Build(&'static str),
}
type V = (&'static str, X);
const VERSIONS: [V; 8] = [
  ("1.0", X::Code(1)),
  ("1.0", X::Code(2)),
  ("1.1", X::Code(1)),
  ("1.0", X::Build("1")),
  ("1.0", X::Build("1.0")),
  ("1.0", X::Code(-1)),
  ("", X::Build("")),
  ("1.0 ", X::Code(i64::MAX)),
];
fn real(v: &V) -> AppVersion {
  AppVersion {
    app_version: v.0.to_string(),
    app_version_extra: match v.1 {
      X::Code(c) => AppVersionExtra::AppVersionCode(c),
      X::Build(b) => AppVersionExtra::BuildNumber(b.to_string()),
    },
  }
}

pub fn c08(r: &mut Run) {
  r.assume("the storage stores what it acknowledges; a failed write either happened in full or not at all");
  let depth = r.by_tier(4, 6);
  r.explore(
    "launches",
    &format!("every sequence of {depth} questions and updates with 8 versions, restarts and damage of what is stored"),
    Opts::default(),
    |ctx| launches(ctx, depth, VERSIONS.len(), false),
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "launches-full",
    &format!("every sequence of {depth} of these, whatever states they reach"),
    Opts::default().full(),
    |ctx| launches(ctx, depth, VERSIONS.len(), false),
  );
  let depth = r.by_tier(5, 7);
  r.explore(
    "faults",
    &format!("every sequence of {depth} questions and updates with 3 versions and restarts, with writes failing and processes killed before or after any access"),
    Opts::dev(r.by_tier(2, 3)).full(),
    |ctx| launches(ctx, depth, 3, true),
  );
  r.explore("names", "name and text of 8 versions", Opts::default(), |ctx| {
    let v = ctx.pick(&VERSIONS);
    ctx.step();
    ctx.state(v);
    let e = real(v).app_version_extra;
    match v.1 {
      X::Code(c) => same!("name", (e.name(), e.string_value()), ("app_version_code", c.to_string()), "field of {v:?}"),
      X::Build(b) => same!("name", (e.name(), e.string_value()), ("build_number", b.to_string()), "field of {v:?}"),
    }
    Ok(())
  });
}

/// What may be stored: with faults, either of two.
type Stored = Vec<Option<V>>;

fn launches(ctx: &Ctx, depth: u32, versions: usize, faulty: bool) -> Res {
  let disk = if faulty { Disk::faulty(ctx, Faults { write: true, ..Faults::default() }) } else { Disk::new() };
  let mut repo = Repository::new(disk.store());
  let mut stored: Stored = vec![None];
  for left in (0 .. depth).rev() {
    ctx.step();
    match ctx.choose(if faulty { 3 } else { 4 }) {
      0 => {
        let v = &VERSIONS[ctx.choose(versions)];
        let dies = faulty && ctx.fault();
        if dies {
          kill(ctx, &disk);
        }
        let got = repo.has_changed(&real(v));
        ctx.say(|| format!("changed to {v:?}? {got}"));
        if !dies {
          let may: Vec<bool> = stored.iter().map(|s| s.as_ref().is_some_and(|s| s != v)).collect();
          check!(may.contains(&got), "changed", "whether {v:?} is a change from {stored:?}: {got}");
          stored.retain(|s| s.as_ref().is_some_and(|s| s != v) == got);
        }
        // The first version ever seen is remembered.
        after(&disk, &mut stored, |s| s.clone().or(Some(v.clone())), faulty);
        if dies {
          repo = revive(&disk);
        }
      },
      1 => {
        let v = &VERSIONS[ctx.choose(versions)];
        let dies = faulty && ctx.fault();
        if dies {
          kill(ctx, &disk);
        }
        let got = repo.set(&real(v));
        ctx.say(|| format!("updated to {v:?}: was {got:?}"));
        if !dies {
          let told = |s: &Option<V>| s.as_ref().filter(|s| *s != v).map(real);
          check!(stored.iter().any(|s| told(s) == got), "previous", "version before {v:?}: got {got:?}, stored was {stored:?}");
          stored.retain(|s| told(s) == got);
        }
        after(&disk, &mut stored, |_| Some(v.clone()), faulty);
        if dies {
          repo = revive(&disk);
        }
      },
      2 => {
        ctx.say(|| "restart".into());
        repo = Repository::new(disk.store());
      },
      _ => {
        ctx.say(|| "the stored version is damaged".into());
        disk.put_raw("app_version.state.1", *ctx.pick(&["", "AQ==", "?"]));
        stored = vec![None];
      },
    }
    if ctx.known(format!("{stored:?}"), left) {
      break;
    }
  }
  Ok(())
}

fn kill(ctx: &Ctx, disk: &Disk) {
  let mut c = disk.c.lock().unwrap();
  c.dead_from = Some(c.ops + ctx.choose(2) as u32);
}
fn revive(disk: &Disk) -> Repository {
  disk.c.lock().unwrap().dead_from = None;
  Repository::new(disk.store())
}

fn after(disk: &Disk, stored: &mut Stored, f: impl Fn(&Option<V>) -> Option<V>, faulty: bool) {
  let new: Vec<_> = stored.iter().map(f).collect();
  if faulty {
    stored.extend(new);
    stored.dedup();
    // What it is can be read off the storage, but only as far as it is there.
    let there = disk.raw("app_version.state.1").is_some();
    stored.retain(|s| s.is_some() == there);
    let mut seen = vec![];
    stored.retain(|s| !seen.contains(s) && { seen.push(s.clone()); true });
  } else {
    *stored = new;
  }
}
