//! C09: which fields a log gets.

use crate::metadata::MetadataCollector;
use bd_log_metadata::MetadataProvider;
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogFieldValue, LogFields, LogType};
use mc::{check, same, Ctx, Opts, Res, Run};
use std::collections::BTreeMap;
use std::sync::Arc;

const RESERVED: [&str; 11] = [
  "app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os", "os_version", "radio_type",
];
const TYPES: [LogType; 9] = [
  LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View, LogType::Device, LogType::UX, LogType::Span,
];

struct Provider {
  fields: AnnotatedLogFields,
  fail: u8,
}
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> {
    anyhow::ensure!(self.fail != 1, "no time");
    Ok(time::OffsetDateTime::UNIX_EPOCH)
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    anyhow::ensure!(self.fail != 2, "no fields");
    Ok(self.fields.clone())
  }
}

pub fn c09(r: &mut Run) {
  r.explore(
    "sources",
    "every subset of 3 names (ordinary, reserved, internal) in each of the 4 sources of fields and 3 of matching fields, all 9 types of log",
    Opts::default(),
    sources,
  );
  let n = r.by_tier(3, 4);
  r.explore(
    "order",
    &format!("provider and log fields: every list of up to {n} fields of 2 names and both kinds each, so that names repeat"),
    Opts::default(),
    |ctx| order(ctx, n),
  );
  let depth = r.by_tier(5, 7);
  r.explore(
    "global",
    &format!("every sequence of {depth} additions and removals of global fields of 5 names, with logs in between"),
    Opts::default(),
    |ctx| global(ctx, depth),
  );
  let depth = r.by_tier(3, 4);
  r.explore("global-full", &format!("every sequence of {depth} of these, whatever states they reach"), Opts::default().full(), |ctx| global(ctx, depth));
  r.explore("names", "each reserved name, names near them, and internal ones: as a global field, and as a custom or own field of a log or provider", Opts::default(), names);
  r.explore("failures", "the provider fails to tell the time or the fields", Opts::default(), failures);
}

fn reserved(k: &str) -> bool {
  RESERVED.contains(&k) || k.starts_with('_')
}
fn field(k: &str, v: &str) -> LogField {
  LogField { key: k.to_string(), value: LogFieldValue::String(v.to_string()) }
}
fn noted(k: &str, v: &str, kind: LogFieldKind) -> AnnotatedLogField {
  AnnotatedLogField { field: field(k, v), kind }
}

fn as_map(what: &str, f: &LogFields) -> Result<BTreeMap<String, String>, mc::Violation> {
  let mut m = BTreeMap::new();
  for f in f {
    if m.insert(f.key.clone(), f.value.as_str().unwrap_or("(bytes)").to_string()).is_some() {
      return Err(mc::Violation { key: "twice".into(), msg: format!("{} is twice among the {what}", f.key) });
    }
  }
  Ok(m)
}

/// The reference: sources in the order of their precedence.
fn expected(sources: &[(&AnnotatedLogFields, LogFieldKind)]) -> BTreeMap<String, String> {
  let mut m = BTreeMap::new();
  for (fs, kind) in sources {
    for f in fs.iter().filter(|f| f.kind == *kind) {
      if *kind == LogFieldKind::Custom && reserved(&f.field.key) {
        continue;
      }
      m.entry(f.field.key.clone()).or_insert_with(|| f.field.value.as_str().unwrap().to_string());
    }
  }
  m
}

fn judge(collector: &MetadataCollector, p: &AnnotatedLogFields, l: &AnnotatedLogFields, lm: &AnnotatedLogFields, g: &[(String, String)], t: LogType) -> Res {
  use LogFieldKind::{Custom, Ootb};
  let got = collector.normalized_metadata_with_extra_fields(l.clone(), lm.clone(), t);
  let got = match got {
    Ok(g) => g,
    Err(e) => mc::fail!("failed", "no metadata: {e}"),
  };
  let light = [LogType::Replay, LogType::Resource, LogType::InternalSDK].contains(&t);
  let none = vec![];
  let (pf, pm) = if light { (&none, p) } else { (p, &none) };
  let globals: AnnotatedLogFields = g.iter().map(|(k, v)| noted(k, v, Custom)).collect();
  let want = expected(&[(pf, Ootb), (l, Ootb), (l, Custom), (&globals, Custom), (pf, Custom)]);
  same!("fields", as_map("fields", &got.fields)?, want, "fields of a log of type {t:?}");
  let want = expected(&[(pm, Ootb), (lm, Ootb), (lm, Custom), (pm, Custom)]);
  same!("matching", as_map("matching fields", &got.matching_fields)?, want, "matching fields of a log of type {t:?}");
  same!("time", got.timestamp, time::OffsetDateTime::UNIX_EPOCH, "time");
  Ok(())
}

fn sources(ctx: &Ctx) -> Res {
  use LogFieldKind::{Custom, Ootb};
  let t = *ctx.pick(&TYPES);
  let light = [LogType::Replay, LogType::Resource, LogType::InternalSDK].contains(&t);
  let list = |name: &str, kind| -> AnnotatedLogFields {
    ["k", "os", "_i"].iter().filter(|_| ctx.flip()).map(|k| noted(k, &format!("{name} {k}"), kind)).collect()
  };
  let mut p = list("own of the provider", Ootb);
  p.extend(list("custom of the provider", Custom));
  let (mut l, mut lm) = (vec![], vec![]);
  // Provider fields go to one of the two only: the other needs no more than its own.
  if light {
    lm = list("own of the matching", Ootb);
    lm.extend(list("custom of the matching", Custom));
    if ctx.flip() {
      l = vec![noted("k", "own of the log", Ootb), noted("os", "custom of the log", Custom)];
    }
  } else {
    l = list("own of the log", Ootb);
    l.extend(list("custom of the log", Custom));
    if ctx.flip() {
      lm = vec![noted("k", "own of the matching", Ootb), noted("os", "custom of the matching", Custom)];
    }
  }
  let mut c = MetadataCollector::new(Arc::new(Provider { fields: p.clone(), fail: 0 }));
  let mut g = vec![];
  if ctx.flip() {
    c.add_field(field("k", "global k")).unwrap();
    g.push(("k".to_string(), "global k".to_string()));
  }
  ctx.step();
  ctx.state(format!("{t:?}{p:?}{l:?}{lm:?}{g:?}"));
  judge(&c, &p, &l, &lm, &g, t)
}

fn order(ctx: &Ctx, n: usize) -> Res {
  let list = |name: &str| -> AnnotatedLogFields {
    (0 .. ctx.choose(n + 1))
      .map(|i| noted(*ctx.pick(&["a", "b"]), &format!("{name} {i}"), if ctx.flip() { LogFieldKind::Custom } else { LogFieldKind::Ootb }))
      .collect()
  };
  let t = *ctx.pick(&[LogType::Normal, LogType::Resource]);
  let (p, l) = (list("provider"), list("log"));
  let mut c = MetadataCollector::new(Arc::new(Provider { fields: p.clone(), fail: 0 }));
  c.add_field(field("b", "global")).unwrap();
  ctx.step();
  ctx.state(format!("{t:?}{p:?}{l:?}"));
  let g = [("b".to_string(), "global".to_string())];
  judge(&c, &p, &l, &l, &g, t)
}

fn global(ctx: &Ctx, depth: u32) -> Res {
  let p = vec![noted("a", "provider", LogFieldKind::Custom)];
  let mut c = MetadataCollector::new(Arc::new(Provider { fields: p.clone(), fail: 0 }));
  let mut g: Vec<(String, String)> = vec![];
  for left in (0 .. depth).rev() {
    ctx.step();
    let k = *ctx.pick(&["a", "b", "A", "os", "_c"]);
    if ctx.flip() {
      ctx.say(|| format!("remove {k}"));
      c.remove_field(k);
      g.retain(|(x, _)| x != k);
    } else {
      let v = if ctx.flip() { "x" } else { "y" };
      ctx.say(|| format!("add {k} = {v}"));
      let r = c.add_field(field(k, v));
      same!("reserved", r.is_err(), reserved(k), "refusal of the global field {k}");
      if r.is_ok() {
        g.retain(|(x, _)| x != k);
        g.push((k.to_string(), v.to_string()));
      }
    }
    judge(&c, &p, &vec![], &vec![], &g, LogType::Normal)?;
    judge(&c, &p, &vec![noted("b", "log", LogFieldKind::Custom)], &vec![], &g, LogType::Replay)?;
    let mut sorted = g.clone();
    sorted.sort();
    if ctx.known(sorted, left) {
      break;
    }
  }
  Ok(())
}

fn names(ctx: &Ctx) -> Res {
  let mut all: Vec<String> = RESERVED.iter().map(|s| (*s).to_string()).collect();
  all.extend(["_", "__", "_a", "_message", "a_", "", "OS", "os ", "os_", "app", "log_types", "a", "\u{ff3f}a"].map(String::from));
  let k = ctx.pick(&all).clone();
  ctx.step();
  ctx.state(&k);
  let mut c = MetadataCollector::new(Arc::new(Provider { fields: vec![], fail: 0 }));
  same!("reserved", c.add_field(field(&k, "v")).is_err(), reserved(&k), "refusal of the global field {k:?}");
  for kind in [LogFieldKind::Ootb, LogFieldKind::Custom] {
    let f = vec![noted(&k, "v", kind), noted("other", "w", LogFieldKind::Custom)];
    for t in TYPES {
      let c = MetadataCollector::new(Arc::new(Provider { fields: f.clone(), fail: 0 }));
      judge(&c, &f, &vec![], &vec![], &[], t)?;
      let c = MetadataCollector::new(Arc::new(Provider { fields: vec![], fail: 0 }));
      judge(&c, &vec![], &f, &f, &[], t)?;
    }
  }
  Ok(())
}

fn failures(ctx: &Ctx) -> Res {
  let t = *ctx.pick(&TYPES);
  let fail = 1 + ctx.choose(2) as u8;
  ctx.step();
  ctx.state((t.0, fail));
  let c = MetadataCollector::new(Arc::new(Provider { fields: vec![], fail }));
  let r = c.normalized_metadata_with_extra_fields(vec![], vec![], t);
  check!(r.is_err(), "failure", "metadata in spite of a provider that fails");
  Ok(())
}
