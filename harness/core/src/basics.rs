//! C16 to C18: the processors, panics, and what identifies a client.

use bd_log_primitives::{FieldsRef, LogField, LogFieldValue};
use bd_metadata::{Metadata, Platform};
use mc::{check, same, Ctx, Opts, Res, Run};
use std::collections::HashMap;
use std::process::{Command, Stdio};

//
// C16
//

pub fn c16(r: &mut Run) {
  // The environment is the process's.
  r.explore(
    "values",
    "NUM_CPUS unset, whole, fractional, zero, negative, huge, not a number, not normal, or not a number at all (42 values)",
    Opts::default().threads(1),
    cpus,
  );
}

fn cpus(ctx: &Ctx) -> Res {
  let host = std::thread::available_parallelism().map_or(1, |n| n.get());
  let cases: [(Option<&str>, Option<usize>); 42] = [
    (None, None),
    (Some("1"), Some(1)),
    (Some("2"), Some(2)),
    (Some("3"), Some(3)),
    (Some("8"), Some(8)),
    (Some("16"), Some(16)),
    (Some("64"), Some(64)),
    (Some("4096"), Some(4096)),
    (Some("0.1"), Some(1)),
    (Some("0.5"), Some(1)),
    (Some("0.999"), Some(1)),
    (Some("1.0"), Some(1)),
    (Some("2.0"), Some(2)),
    (Some("7.0"), Some(7)),
    (Some("+4"), Some(4)),
    (Some("4e0"), Some(4)),
    (Some("1e1"), Some(10)),
    (Some("1.6e1"), Some(16)),
    (Some(".5"), Some(1)),
    (Some("5."), Some(5)),
    (Some("-1"), Some(1)),
    (Some("-0.5"), Some(1)),
    (Some("-1e300"), Some(1)),
    (Some("1e-300"), Some(1)),
    // No processor at all, or no number: as if it were not there.
    (Some("0"), None),
    (Some("0.0"), None),
    (Some("-0"), None),
    (Some("1e-310"), None),
    (Some("5e-324"), None),
    (Some("NaN"), None),
    (Some("nan"), None),
    (Some("inf"), None),
    (Some("-inf"), None),
    (Some("infinity"), None),
    (Some("1e999"), None),
    (Some(""), None),
    (Some(" "), None),
    (Some("two"), None),
    (Some("2 "), None),
    (Some("0x10"), None),
    (Some("1,5"), None),
    (Some("2cpu"), None),
  ];
  let (env, want) = ctx.pick(&cases).clone();
  match env {
    Some(e) => std::env::set_var("NUM_CPUS", e),
    None => std::env::remove_var("NUM_CPUS"),
  }
  ctx.step();
  ctx.state(env);
  ctx.say(|| format!("NUM_CPUS={env:?}"));
  let got = bd_rt::num_cpus();
  std::env::remove_var("NUM_CPUS");
  same!("cpus", got, want.unwrap_or(host), "processors with NUM_CPUS={env:?} on a host with {host}");
  // A share in between is rounded one way or the other.
  for (s, lo, hi) in [("1.5", 1, 2), ("2.25", 2, 3), ("7.9", 7, 8), ("15.5", 15, 16)] {
    std::env::set_var("NUM_CPUS", s);
    let got = bd_rt::num_cpus();
    std::env::remove_var("NUM_CPUS");
    check!(got >= lo && got <= hi, "cpus", "{got} processors with NUM_CPUS={s}");
  }
  Ok(())
}

//
// C17
//

/// In a process started for it: panics in the way asked for, and lives on if it can.
pub fn panic_child() {
  let Ok(how) = std::env::var("MC_PANIC") else { return };
  let mut how = how.split(' ');
  let kind = how.next().unwrap_or("");
  let place = how.next().unwrap_or("");
  match kind {
    "abort" => bd_panic::default(bd_panic::PanicType::ForceAbort),
    "trace" => bd_panic::default(bd_panic::PanicType::BacktraceOnly),
    "abort-twice" => {
      bd_panic::default(bd_panic::PanicType::BacktraceOnly);
      bd_panic::default(bd_panic::PanicType::ForceAbort);
    },
    _ => {},
  }
  fn boom(n: u32) {
    match n {
      0 => panic!("plain"),
      1 => panic!("formatted {n}"),
      _ => std::panic::panic_any(n),
    }
  }
  let n = how.next().and_then(|n| n.parse().ok()).unwrap_or(0);
  match place {
    "thread" => drop(std::thread::spawn(move || boom(n)).join()),
    "caught" => drop(std::panic::catch_unwind(|| boom(n))),
    "task" => {
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
      rt.block_on(async { drop(tokio::spawn(async move { boom(n) }).await) });
    },
    "blocking" => {
      let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
      rt.block_on(async { drop(tokio::task::spawn_blocking(move || boom(n)).await) });
    },
    "drop" => {
      struct D(u32);
      impl Drop for D {
        fn drop(&mut self) {
          boom(self.0);
        }
      }
      drop(std::thread::spawn(move || drop(D(n))).join());
    },
    _ => {},
  }
  std::process::exit(42);
}

pub fn c17(r: &mut Run) {
  r.assume("a process of its own stands for each program; what it prints is not judged");
  r.explore(
    "panics",
    "3 ways to set up, 5 places of a panic or none, 3 payloads, LOG_PANIC set or not: one process each",
    Opts::default(),
    panics,
  );
}

fn panics(ctx: &Ctx) -> Res {
  let kind = *ctx.pick(&["abort", "trace", "abort-twice"]);
  let place = *ctx.pick(&["thread", "caught", "task", "blocking", "drop", "none"]);
  let n = ctx.choose(3);
  let log = ctx.flip();
  ctx.step();
  ctx.state((kind, place, n, log));
  ctx.say(|| format!("{kind}, panic in {place} with payload {n}, LOG_PANIC {log}"));
  let mut c = Command::new(std::env::current_exe().unwrap());
  c.env("MC_PANIC", format!("{kind} {place} {n}")).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
  c.env("RUST_BACKTRACE", "0");
  if log {
    c.env("LOG_PANIC", "1");
  } else {
    c.env_remove("LOG_PANIC");
  }
  let code = c.status().unwrap().code();
  let aborts = kind != "trace" && place != "none";
  same!("exit", code, Some(if aborts { 1 } else { 42 }), "exit code of a process ({kind}) with a panic in {place}");
  Ok(())
}

//
// C18
//

struct Meta {
  version: &'static str,
  platform: Platform,
  inner: HashMap<String, String>,
}
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    self.version
  }
  fn platform(&self) -> &Platform {
    &self.platform
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.inner.clone()
  }
}

pub fn c18(r: &mut Run) {
  r.explore("metadata", "4 platforms, 2 versions, every subset of 6 own entries, among them ones with the names of the common entries", Opts::default(), metadata);
  r.explore("fields", "every list of up to 1 captured and 3 matching fields of 3 names and text or bytes, each name looked up", Opts::default(), fields);
}

fn metadata(ctx: &Ctx) -> Res {
  let (platform, os, kind) = match ctx.choose(4) {
    0 => (Platform::Android, "android", "mobile"),
    1 => (Platform::Ios, "ios", "mobile"),
    2 => (Platform::Pulse, "pulse", "pulse"),
    _ => (Platform::Other("an os", "a kind"), "an os", "a kind"),
  };
  let version = *ctx.pick(&["1.2.3", ""]);
  let mut inner = HashMap::new();
  for k in ["device_id", "app_id", "os", "kind", "sdk_version", "config_version"] {
    if ctx.flip() {
      inner.insert(k.to_string(), format!("own {k}"));
    }
  }
  let mut want = inner.clone();
  let plain = Meta { version, platform: Platform::Ios, inner: HashMap::new() }.collect();
  let config = plain.get("config_version").cloned().unwrap_or_default();
  check!(config.parse::<u32>().is_ok(), "config-version", "the version of the configuration is {config:?}");
  for (k, v) in [("os", os), ("kind", kind), ("sdk_version", version), ("config_version", config.as_str())] {
    want.insert(k.to_string(), v.to_string());
  }
  ctx.step();
  let m = Meta { version, platform, inner };
  let got = m.collect();
  let mut s: Vec<_> = got.iter().collect();
  s.sort();
  ctx.state(&s);
  same!("metadata", got, want, "what identifies the client");
  Ok(())
}

fn fields(ctx: &Ctx) -> Res {
  let make = |max: usize| -> Vec<LogField> {
    (0 .. ctx.choose(max + 1))
      .enumerate()
      .map(|(i, _)| LogField {
        key: (*ctx.pick(&["a", "b", "ab"])).to_string(),
        value: if ctx.flip() { LogFieldValue::Bytes(vec![i as u8]) } else { LogFieldValue::String(format!("v{i}")) },
      })
      .collect()
  };
  let (matching, captured) = (make(3), make(1));
  ctx.step();
  ctx.state(format!("{matching:?}{captured:?}"));
  let f = FieldsRef::new(&captured, &matching);
  for k in ["a", "b", "ab", ""] {
    let want = matching.iter().find(|f| f.key == k).and_then(|f| match &f.value {
      LogFieldValue::String(s) => Some(s.as_str()),
      LogFieldValue::Bytes(_) => None,
    });
    same!("matching", f.matching_field_value(k), want, "matching field {k:?} of {matching:?}");
  }
  same!("captured", f.captured_fields, &captured, "captured fields");
  Ok(())
}
