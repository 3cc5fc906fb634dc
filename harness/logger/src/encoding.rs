//! C47: what is encoded into a buffer is what is read out of it.

use bd_client_common::fb::{make_log, root_as_log};
use bd_log_primitives::{LogField, LogFieldValue, LogType};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::Log;
use flatbuffers::FlatBufferBuilder;
use mc::{check, same, Ctx, Opts, Res, Run};
use time::OffsetDateTime;

#[derive(Debug, Clone, PartialEq)]
struct One {
  level: u32,
  log_type: u32,
  message: LogFieldValue,
  fields: Vec<(String, LogFieldValue)>,
  session: String,
  at: (i64, i32),
  actions: Vec<String>,
  streams: Vec<String>,
}

fn s(x: &str) -> LogFieldValue {
  LogFieldValue::String(x.to_string())
}
fn b(x: &[u8]) -> LogFieldValue {
  LogFieldValue::Bytes(x.to_vec())
}

fn values() -> Vec<LogFieldValue> {
  vec![s("m"), s(""), s("a\0b é"), b(b""), b(&[0, 255, 7]), s(&"long ".repeat(200)), b(&[9; 1001])]
}
fn field_lists() -> Vec<Vec<(String, LogFieldValue)>> {
  let f = |k: &str, v: LogFieldValue| (k.to_string(), v);
  vec![
    vec![],
    vec![f("k", s("v"))],
    vec![f("", s(""))],
    vec![f("k", s("v")), f("k", s("w"))],
    vec![f("b", b(&[1, 2, 3])), f("a", s("v")), f("c", b(b""))],
    (0 .. 40).map(|i| f(&format!("key {i}"), if i % 3 == 0 { b(&[i; 3]) } else { s(&format!("value {i}")) })).collect(),
  ]
}
fn lists() -> Vec<Vec<String>> {
  vec![vec![], vec!["a".into()], vec!["".into()], vec!["z".into(), "a".into(), "z".into()]]
}
/// The extremes of what there is, and both sides of the epoch.
const TIMES: [(i64, i32); 6] =
  [(0, 0), (1_700_000_000, 123_456_789), (-1, 999_999_999), (-1_000, 1), (253_402_300_799, 999_999_999), (-377_705_116_800, 0)];
const LEVELS: [u32; 4] = [2, 0, 4, u32::MAX];
const TYPES: u32 = 9;

fn base() -> One {
  One {
    level: 2,
    log_type: 0,
    message: s("m"),
    fields: vec![("k".into(), s("v"))],
    session: "session".into(),
    at: TIMES[1],
    actions: vec![],
    streams: vec![],
  }
}

fn any(ctx: &Ctx) -> One {
  One {
    level: *ctx.pick(&LEVELS),
    log_type: ctx.choose(TYPES as usize) as u32,
    message: ctx.pick(&values()).clone(),
    fields: ctx.pick(&field_lists()).clone(),
    session: ctx.pick(&["session", "", "ü"]).to_string(),
    at: *ctx.pick(&TIMES),
    actions: ctx.pick(&lists()).clone(),
    streams: ctx.pick(&lists()).clone(),
  }
}

fn encode(builder: &mut FlatBufferBuilder<'_>, o: &One, mut to: impl FnMut(&[u8]) -> anyhow::Result<()>) -> anyhow::Result<()> {
  let fields = o.fields.iter().map(|(key, value)| LogField { key: key.clone(), value: value.clone() }).collect();
  let at = OffsetDateTime::from_unix_timestamp(o.at.0).unwrap() + time::Duration::nanoseconds(o.at.1.into());
  make_log(
    builder,
    o.level,
    LogType(o.log_type),
    &o.message,
    &fields,
    &o.session,
    at,
    o.actions.iter().map(String::as_str),
    o.streams.iter().map(String::as_str),
    |x| to(x),
  )
}

fn decode(l: &Log<'_>) -> Option<One> {
  Some(One {
    level: l.log_level(),
    log_type: l.log_type().0,
    message: match (l.message_as_string_data(), l.message_as_binary_data()) {
      (Some(x), None) => s(x.data()),
      (None, Some(x)) => b(x.data().bytes()),
      _ => return None,
    },
    fields: {
      let mut v = vec![];
      for f in l.fields().iter().flatten() {
        v.push((
          f.key().to_string(),
          match (f.value_as_string_data(), f.value_as_binary_data()) {
            (Some(x), None) => s(x.data()),
            (None, Some(x)) => b(x.data().bytes()),
            _ => return None,
          },
        ));
      }
      v
    },
    session: l.session_id()?.to_string(),
    at: (l.timestamp()?.seconds(), l.timestamp()?.nanos()),
    actions: l.workflow_action_ids().iter().flatten().map(str::to_string).collect(),
    streams: l.stream_ids().iter().flatten().map(str::to_string).collect(),
  })
}

fn is(bytes: &[u8], o: &One) -> Res {
  let l = root_as_log(bytes).map_err(|e| mc::Violation { key: "unread".into(), msg: format!("{o:?}: {e}") })?;
  let got = decode(&l);
  check!(got.as_ref() == Some(o), "changed", "{o:?} is read as {got:?}");
  Ok(())
}

fn every_log(ctx: &Ctx) -> Res {
  let o = any(ctx);
  let mut seen = 0;
  let mut r = Ok(());
  encode(&mut FlatBufferBuilder::new(), &o, |x| {
    seen += 1;
    r = is(x, &o);
    Ok(())
  })
  .map_err(|e| mc::Violation { key: "failed".into(), msg: format!("{o:?}: {e}") })?;
  r?;
  same!("written", seen, 1, "times {o:?} is written");
  ctx.step();
  ctx.state(format!("{o:?}"));
  Ok(())
}

/// One builder, which some of the writers of what it made failed.
fn one_builder(ctx: &Ctx, depth: usize) -> Res {
  let mut builder = FlatBufferBuilder::new();
  let mut kinds = vec![base()];
  for (i, v) in values().into_iter().enumerate() {
    let mut o = base();
    o.message = v;
    o.fields = field_lists()[i % 6].clone();
    o.actions = lists()[i % 4].clone();
    o.streams = lists()[(i + 1) % 4].clone();
    o.session = format!("session {i}");
    kinds.push(o);
  }
  let mut done = vec![];
  for _ in 0 .. depth {
    let k = ctx.choose(kinds.len());
    let fails = ctx.flip();
    let mut seen = 0;
    let mut r = Ok(());
    let mut alone = 0;
    let _ = encode(&mut FlatBufferBuilder::new(), &kinds[k], |x| {
      alone = x.len();
      Ok(())
    });
    let e = encode(&mut builder, &kinds[k], |x| {
      seen += 1;
      r = is(x, &kinds[k]);
      if r.is_ok() && x.len() > alone {
        r = Err(mc::Violation { key: "larger".into(), msg: format!("{} bytes, and {alone} alone, of {:?}", x.len(), kinds[k]) });
      }
      anyhow::ensure!(!fails, "no room");
      Ok(())
    });
    r?;
    same!("written", seen, 1, "times {:?} is written", kinds[k]);
    check!(e.is_err() == fails, "verdict", "writing it {} and {e:?} is told", if fails { "failed" } else { "did not fail" });
    ctx.step();
    done.push((k, fails));
    ctx.state(&done);
  }
  Ok(())
}

/// What was cut off or overwritten is refused or read, and nothing else happens.
fn damaged(ctx: &Ctx) -> Res {
  let mut o = base();
  o.fields.push(("bytes".into(), b(&[1, 2, 3])));
  o.actions = vec!["action".into()];
  o.streams = vec!["stream".into()];
  if ctx.flip() {
    o.message = b(&[4, 5]);
  }
  let mut bytes = vec![];
  encode(&mut FlatBufferBuilder::new(), &o, |x| {
    bytes = x.to_vec();
    Ok(())
  })
  .unwrap();
  let read = |x: &[u8]| {
    // It has to lie as it does in a buffer's record.
    let mut at = vec![0u64; x.len() / 8 + 1];
    let to = unsafe { std::slice::from_raw_parts_mut(at.as_mut_ptr().cast::<u8>(), x.len()) };
    to.copy_from_slice(x);
    root_as_log(to).ok().map(|l| decode(&l))
  };
  same!("unread", read(&bytes), Some(Some(o.clone())), "what is read");
  let at = ctx.choose(bytes.len());
  // Only of what does not matter may some be missing.
  let got = read(&bytes[.. at]);
  check!(got.is_none() || got == Some(Some(o.clone())), "accepted", "{at} of {} bytes of {o:?} are read as {got:?}", bytes.len());
  for v in 0 ..= 255 {
    let mut x = bytes.clone();
    x[at] = v;
    read(&x);
    if at + 1 < x.len() {
      x[at + 1] ^= 0xff;
      read(&x);
    }
    ctx.step();
  }
  ctx.state((at, bytes));
  Ok(())
}

pub fn c47(r: &mut Run) {
  let d = r.by_tier(3, 4);
  r.explore("every log", "every combination of 4 levels, 9 types, 7 messages, 6 lists of fields, 3 session ids, 6 times, 4 lists of action ids and 4 of stream ids", Opts::default(), every_log);
  r.explore("one builder", &format!("all sequences of {d} of 8 logs from one builder, each written or refused"), Opts::default(), move |ctx| one_builder(ctx, d));
  r.explore("damaged", "2 logs: every prefix, and every value of every byte, alone and with the next one inverted", Opts::default(), damaged);
}
