//! C26: filter chains.

use crate::matcher::{bytes, field, finds, log, Op, L, M};
use bd_log_filter::FilterChain;
use bd_log_primitives::{Log, LogField, LogFields, LogType};
use bd_proto::protos::filter::filter::filter::transform::set_field::set_field_value::{ExistingField, Value};
use bd_proto::protos::filter::filter::filter::transform::set_field::{FieldType, SetFieldValue};
use bd_proto::protos::filter::filter::filter::transform::{self, Transform_type as P};
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use mc::{same, Ctx, Opts, Res, Run};

#[derive(Clone, Debug)]
enum T {
  Capture(&'static str),
  Set { name: &'static str, text: Option<&'static str>, from: &'static str, captured: bool, over: bool },
  Remove(&'static str),
  Sub(&'static str, &'static str, &'static str),
  // What no client understands.
  Bad(u8),
}

impl T {
  fn proto(&self) -> Transform {
    let t = match self {
      Self::Capture(n) => P::CaptureField(transform::CaptureField { name: (*n).to_string(), ..Default::default() }),
      Self::Remove(n) => P::RemoveField(transform::RemoveField { name: (*n).to_string(), ..Default::default() }),
      Self::Sub(n, p, s) => P::RegexMatchAndSubstituteField(transform::RegexMatchAndSubstituteField {
        name: (*n).to_string(),
        pattern: (*p).to_string(),
        substitution: (*s).to_string(),
        ..Default::default()
      }),
      Self::Set { name, text, from, captured, over } => P::SetField(transform::SetField {
        name: (*name).to_string(),
        value: Some(SetFieldValue {
          value: Some(match text {
            Some(t) => Value::StringValue((*t).to_string()),
            None => Value::ExistingField(ExistingField { name: (*from).to_string(), ..Default::default() }),
          }),
          ..Default::default()
        })
        .into(),
        field_type: if *captured { FieldType::CAPTURED } else { FieldType::MATCHING_ONLY }.into(),
        allow_override: *over,
        ..Default::default()
      }),
      Self::Bad(0) => return Transform::default(),
      Self::Bad(1) => P::SetField(transform::SetField { name: "a".into(), field_type: FieldType::CAPTURED.into(), ..Default::default() }),
      Self::Bad(2) => P::SetField(transform::SetField {
        name: "a".into(),
        value: Some(SetFieldValue::default()).into(),
        field_type: FieldType::CAPTURED.into(),
        ..Default::default()
      }),
      Self::Bad(3) => P::SetField(transform::SetField {
        name: "a".into(),
        value: Some(SetFieldValue { value: Some(Value::StringValue("x".into())), ..Default::default() }).into(),
        ..Default::default()
      }),
      Self::Bad(_) => return Self::Sub("a", "(", "x").proto(),
    };
    Transform { transform_type: Some(t), ..Default::default() }
  }

  fn apply(&self, l: &mut L) {
    let put = |fields: &mut LogFields, f: LogField| {
      fields.retain(|g| g.key != f.key);
      fields.push(f);
    };
    let there = |l: &L, n: &str| l.captured.iter().chain(&l.matching).any(|f| f.key == n);
    match self {
      Self::Bad(_) => unreachable!(),
      Self::Capture(n) => {
        if let Some(i) = l.matching.iter().position(|f| f.key == *n) {
          let f = l.matching.remove(i);
          put(&mut l.captured, f);
        }
      },
      Self::Remove(n) => {
        l.captured.retain(|f| f.key != *n);
        l.matching.retain(|f| f.key != *n);
      },
      Self::Set { name, text, from, captured, over } => {
        let exists = match *name {
          "_message" => l.message.as_str().is_some(),
          "log_level" | "log_type" => true,
          n => there(l, n),
        };
        if exists && !over {
          return;
        }
        let v = match text {
          Some(t) => Some((*t).to_string()),
          None => match *from {
            "_message" => l.message.as_str().map(str::to_string),
            "log_level" => Some(l.level.to_string()),
            "log_type" => Some(l.kind.to_string()),
            n => l.captured.iter().chain(&l.matching).find(|f| f.key == n).and_then(|f| f.value.as_str()).map(str::to_string),
          },
        };
        if let Some(v) = v {
          put(if *captured { &mut l.captured } else { &mut l.matching }, field(name, &v));
        }
      },
      Self::Sub(n, p, s) => {
        let f = if l.captured.iter().any(|f| f.key == *n) { &mut l.captured } else { &mut l.matching };
        for f in f.iter_mut().filter(|f| f.key == *n) {
          if let Some(v) = f.value.as_str() {
            f.value = replaced(p, s, v).into();
          }
        }
      },
    }
  }
}

/// What each of the substitutions in use makes of a text.
fn replaced(p: &str, s: &str, v: &str) -> String {
  match (p, s) {
    ("o", "0") => v.replace('o', "0"),
    ("^$", "none") => if v.is_empty() { "none".into() } else { v.into() },
    // The letters x and y swapped.
    ("(?<a>x)(?<b>y)", "$b$a") => v.replace("xy", "yx"),
    _ => panic!("{p} {s}"),
  }
}

fn matchers() -> Vec<M> {
  vec![
    M::And(vec![]),
    M::Msg(Op::Eq, "foo"),
    M::Set("a"),
    M::Tag("b", Op::Eq, "v"),
    M::Not(Box::new(M::TagRe("a", "o"))),
    M::Int("log_level", Op::Lt, 3),
    M::Int("log_type", Op::Eq, 3),
  ]
}

fn transforms() -> Vec<T> {
  let set = |name, text, captured, over| T::Set { name, text: Some(text), from: "", captured, over };
  let copy = |name, from, captured, over| T::Set { name, text: None, from, captured, over };
  vec![
    T::Capture("a"),
    T::Set { name: "a", text: Some("v"), from: "", captured: true, over: false },
    set("a", "foo", false, true),
    copy("b", "a", true, true),
    T::Remove("a"),
    T::Sub("a", "o", "0"),
    set("b", "v", false, false),
    copy("a", "_message", true, true),
    copy("a", "b", false, false),
    T::Capture("b"),
    T::Sub("a", "^$", "none"),
    T::Sub("b", "(?<a>x)(?<b>y)", "$b$a"),
    copy("b", "log_level", false, true),
    copy("b", "log_type", true, false),
    set("_message", "z", true, false),
    set("log_level", "z", true, false),
    T::Remove("b"),
    set("a", "", true, true),
  ]
}

fn logs() -> Vec<L> {
  let binary = |l: L, c: &[&str], m: &[&str]| {
    let mut l = l;
    l.captured.extend(c.iter().map(|k| bytes(k, b"\x01")));
    l.matching.extend(m.iter().map(|k| bytes(k, b"\x02")));
    l
  };
  vec![
    log("foo"),
    log("foo").f("a", "foo"),
    log("bar").m("a", "foo").level(4),
    log("foo").f("a", "xyo").m("a", "v").f("b", "v"),
    log("foo").m("a", "").m("b", "v").kind(3),
    log("xoxy").f("b", "axy xy").m("c", "foo").f("d", "1"),
    binary(log("foo"), &["a"], &[]),
    binary(log("foo").m("b", "v"), &[], &["a"]),
    L { message: bd_log_primitives::StringOrBytes::Bytes(b"foo".to_vec()), ..log("").f("c", "1").m("b", "o") },
  ]
}

fn sorted(mut f: LogFields) -> LogFields {
  f.sort_by(|a, b| (&a.key, format!("{:?}", a.value)).cmp(&(&b.key, format!("{:?}", b.value))));
  f
}

/// Filters of which some cannot be understood: those count as failures, and the others apply.
fn run(ctx: &Ctx, filters: &[(Option<M>, Vec<T>)], logs: &[L]) -> Res {
  ctx.say(|| format!("{filters:?}"));
  let config = FiltersConfiguration {
    filters: filters
      .iter()
      .map(|(m, ts)| Filter { matcher: m.as_ref().map(M::proto).into(), transforms: ts.iter().map(T::proto).collect(), ..Default::default() })
      .collect(),
    ..Default::default()
  };
  let (chain, failures) = FilterChain::new(config);
  let understood: Vec<_> = filters.iter().filter(|(m, ts)| m.is_some() && !ts.iter().any(|t| matches!(t, T::Bad(_)))).collect();
  same!("failures", failures, (filters.len() - understood.len()) as u64, "failures of {filters:?}");
  for before in logs {
    let mut l = Log {
      log_level: before.level,
      log_type: LogType(before.kind),
      message: before.message.clone(),
      fields: before.captured.clone(),
      matching_fields: before.matching.clone(),
      session_id: "s".into(),
      occurred_at: time::OffsetDateTime::UNIX_EPOCH,
    };
    chain.process(&mut l);
    let mut want = before.clone();
    for (m, ts) in &understood {
      if m.as_ref().unwrap().says(&want) {
        ts.iter().for_each(|t| t.apply(&mut want));
      }
    }
    ctx.step();
    ctx.state(format!("{want:?}"));
    same!("captured", sorted(l.fields), sorted(want.captured), "fields kept of {before:?} after {filters:?}");
    same!("matching", sorted(l.matching_fields), sorted(want.matching), "fields for matching of {before:?} after {filters:?}");
    same!(
      "rest",
      (l.log_level, l.log_type.0, l.message, l.session_id.as_str(), l.occurred_at),
      (before.level, before.kind, before.message.clone(), "s", time::OffsetDateTime::UNIX_EPOCH),
      "what filters never change, of {before:?}"
    );
  }
  Ok(())
}

pub fn c26(r: &mut Run) {
  assert!(finds("o", "foo"));
  let (ms, ts, ls) = (matchers(), transforms(), logs());
  r.explore(
    "one",
    &format!("one filter of up to 3 of {} transforms, on {} logs", ts.len(), ls.len()),
    Opts::default(),
    |ctx| {
      let n = ctx.choose(4);
      let t: Vec<T> = (0 .. n).map(|_| ctx.pick(&ts).clone()).collect();
      run(ctx, &[(Some(M::And(vec![])), t)], &ls)
    },
  );
  let second = r.by_tier(8, ts.len());
  r.explore(
    "two",
    &format!("two filters of {} matchers, up to 2 of {} transforms in the first, one of {second} in the second, on {} logs", ms.len(), ts.len(), ls.len()),
    Opts::default(),
    |ctx| {
      let a: Vec<T> = (0 ..= ctx.choose(2)).map(|_| ctx.pick(&ts).clone()).collect();
      let m = ctx.pick(&ms[.. 4]).clone();
      run(ctx, &[(Some(m), a), (Some(ctx.pick(&ms).clone()), vec![ctx.pick(&ts[.. second]).clone()])], &ls)
    },
  );
  r.explore("invalid", "3 filters, each valid, without a matcher, or with one of 5 transforms nobody understands", Opts::default(), |ctx| {
    let fs: Vec<(Option<M>, Vec<T>)> = (0u8 .. 3)
      .map(|i| {
        let t = ts[i as usize].clone();
        match ctx.choose(7) {
          0 => (Some(ms[0].clone()), vec![t]),
          1 => (None, vec![t]),
          k => (Some(ms[0].clone()), if i == 1 { vec![t, T::Bad(k as u8 - 2)] } else { vec![T::Bad(k as u8 - 2), t] }),
        }
      })
      .collect();
    run(ctx, &fs, &ls)
  });
}
