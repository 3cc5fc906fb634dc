//! C24: log matchers of workflows and filters. C25: buffer selection.

use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogField, LogFields, LogMessage, LogRef, LogType, StringOrBytes};
use bd_matcher::buffer_selector::BufferSelector;
use bd_matcher::FieldProvider;
use bd_proto::protos::config::v1::config as old;
use bd_proto::protos::log_matcher::log_matcher as new;
use mc::{check, same, Ctx, Opts, Res, Run};
use std::cmp::Ordering;
use std::collections::BTreeSet;

//
// Logs
//

#[derive(Clone, Debug)]
pub struct L {
  pub level: u32,
  pub kind: u32,
  pub message: LogMessage,
  pub captured: LogFields,
  pub matching: LogFields,
}

pub fn field(k: &str, v: &str) -> LogField {
  LogField { key: k.to_string(), value: StringOrBytes::String(v.to_string()) }
}

pub fn bytes(k: &str, v: &[u8]) -> LogField {
  LogField { key: k.to_string(), value: StringOrBytes::Bytes(v.to_vec()) }
}

pub fn log(message: &str) -> L {
  L { level: 2, kind: 0, message: message.into(), captured: vec![], matching: vec![] }
}

impl L {
  pub fn level(mut self, n: u32) -> Self {
    self.level = n;
    self
  }
  pub fn kind(mut self, n: u32) -> Self {
    self.kind = n;
    self
  }
  pub fn f(mut self, k: &str, v: &str) -> Self {
    self.captured.push(field(k, v));
    self
  }
  pub fn m(mut self, k: &str, v: &str) -> Self {
    self.matching.push(field(k, v));
    self
  }

  /// What matchers see under a name: what is kept with the log comes before what is only for
  /// matching, and binary values are as good as none.
  pub fn value(&self, key: &str) -> Option<String> {
    for fields in [&self.captured, &self.matching] {
      if let Some(v) = fields.iter().find(|f| f.key == key).and_then(|f| f.value.as_str()) {
        return Some(v.to_string());
      }
    }
    None
  }
}

//
// Matchers
//

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
  Lt,
  Le,
  Eq,
  Ge,
  Gt,
  Ne,
}
pub const OPS: [Op; 6] = [Op::Lt, Op::Le, Op::Eq, Op::Ge, Op::Gt, Op::Ne];

fn holds(op: Op, o: Ordering) -> bool {
  match op {
    Op::Lt => o == Ordering::Less,
    Op::Le => o != Ordering::Greater,
    Op::Eq => o == Ordering::Equal,
    Op::Ge => o != Ordering::Less,
    Op::Gt => o == Ordering::Greater,
    Op::Ne => o != Ordering::Equal,
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
  Msg(Op, &'static str),
  MsgRe(&'static str),
  Tag(&'static str, Op, &'static str),
  TagRe(&'static str, &'static str),
  Int(&'static str, Op, i32),
  Ver(&'static str, Op, &'static str),
  VerRe(&'static str, &'static str),
  Set(&'static str),
  And(Vec<M>),
  Or(Vec<M>),
  Not(Box<M>),
}

/// What each of the patterns in use finds.
pub fn finds(pattern: &str, s: &str) -> bool {
  match pattern {
    "^fo+$" => s.len() > 1 && s.starts_with('f') && s[1 ..].bytes().all(|b| b == b'o'),
    "b.r" => s.char_indices().any(|(i, c)| c == 'b' && { let mut r = s[i + 1 ..].chars(); r.next().is_some_and(|x| x != '\n') && r.next() == Some('r') }),
    "o" => s.contains('o'),
    "^1\\.(2|3)" => s.starts_with("1.2") || s.starts_with("1.3"),
    "" => true,
    "^$" => s.is_empty(),
    p => panic!("{p}"),
  }
}

/// The order of versions: by dot separated segments, of which those that are not there are 0, and by
/// number where both are numbers. What follows - or + does not count.
fn versions(a: &str, b: &str) -> Ordering {
  let cut = |s: &str| s.split(['-', '+']).next().unwrap().split('.').map(str::to_string).collect::<Vec<_>>();
  let (a, b) = (cut(a), cut(b));
  for i in 0 .. a.len().max(b.len()) {
    let zero = "0".to_string();
    let (x, y) = (a.get(i).unwrap_or(&zero), b.get(i).unwrap_or(&zero));
    let num = |s: &str| if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse::<u32>().ok() } else { None };
    let o = match (num(x), num(y)) {
      (Some(x), Some(y)) => x.cmp(&y),
      (nx, ny) => nx.map_or(x.clone(), |n| n.to_string()).cmp(&ny.map_or(y.clone(), |n| n.to_string())),
    };
    if o != Ordering::Equal {
      return o;
    }
  }
  Ordering::Equal
}

/// What number a text is: fractions are cut off, and what is out of range is the nearest that is not.
fn number(s: &str) -> Option<i32> {
  let (whole, rest) = s.split_once('.').unwrap_or((s, "0"));
  let n: i64 = whole.parse().ok()?;
  rest.bytes().all(|b| b.is_ascii_digit()).then(|| n.clamp(i32::MIN.into(), i32::MAX.into()) as i32)
}

impl M {
  pub fn says(&self, l: &L) -> bool {
    match self {
      Self::Msg(op, v) => l.message.as_str().is_some_and(|m| holds(*op, m.as_bytes().cmp(v.as_bytes()))),
      Self::MsgRe(p) => l.message.as_str().is_some_and(|m| finds(p, m)),
      Self::Tag(k, op, v) => l.value(k).is_some_and(|s| holds(*op, s.as_bytes().cmp(v.as_bytes()))),
      Self::TagRe(k, p) => l.value(k).is_some_and(|s| finds(p, &s)),
      Self::Int("log_level", op, v) => holds(*op, i64::from(l.level).cmp(&i64::from(*v))),
      Self::Int("log_type", _, v) => i64::from(l.kind) == i64::from(*v),
      Self::Int(k, op, v) => l.value(k).and_then(|s| number(&s)).is_some_and(|n| holds(*op, n.cmp(v))),
      Self::Ver(k, op, v) => l.value(k).is_some_and(|s| holds(*op, versions(&s, v))),
      Self::VerRe(k, p) => l.value(k).is_some_and(|s| finds(p, &s)),
      Self::Set(k) => l.value(k).is_some(),
      Self::And(ms) => !ms.iter().any(|m| !m.says(l)),
      Self::Or(ms) => ms.iter().any(|m| m.says(l)),
      Self::Not(m) => !m.says(l),
    }
  }

  pub fn proto(&self) -> new::LogMatcher {
    use new::log_matcher::base_log_matcher::tag_match::Value_match as V;
    use new::log_matcher::base_log_matcher::{IntValueMatch, IsSetMatch, Match_type, MessageMatch, Operator as O, SemVerValueMatch, StringValueMatch, TagMatch};
    use new::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
    let op = |o: Op| match o {
      Op::Lt => O::OPERATOR_LESS_THAN,
      Op::Le => O::OPERATOR_LESS_THAN_OR_EQUAL,
      Op::Eq => O::OPERATOR_EQUALS,
      Op::Ge => O::OPERATOR_GREATER_THAN_OR_EQUAL,
      Op::Gt => O::OPERATOR_GREATER_THAN,
      Op::Ne => O::OPERATOR_NOT_EQUALS,
    };
    let string = |o: O, v: &str| StringValueMatch { operator: o.into(), match_value: v.to_string(), ..Default::default() };
    let message = |s: StringValueMatch| Match_type::MessageMatch(MessageMatch { string_value_match: Some(s).into(), ..Default::default() });
    let tag = |k: &str, v: V| Match_type::TagMatch(TagMatch { tag_key: k.to_string(), value_match: Some(v), ..Default::default() });
    let ver = |o: O, v: &str| V::SemVerValueMatch(SemVerValueMatch { operator: o.into(), match_value: v.to_string(), ..Default::default() });
    let list = |ms: &[Self]| MatcherList { log_matchers: ms.iter().map(Self::proto).collect(), ..Default::default() };
    let base = match self {
      Self::Msg(o, v) => message(string(op(*o), v)),
      Self::MsgRe(p) => message(string(O::OPERATOR_REGEX, p)),
      Self::Tag(k, o, v) => tag(k, V::StringValueMatch(string(op(*o), v))),
      Self::TagRe(k, p) => tag(k, V::StringValueMatch(string(O::OPERATOR_REGEX, p))),
      Self::Int(k, o, v) => tag(k, V::IntValueMatch(IntValueMatch { operator: op(*o).into(), match_value: *v, ..Default::default() })),
      Self::Ver(k, o, v) => tag(k, ver(op(*o), v)),
      Self::VerRe(k, p) => tag(k, ver(O::OPERATOR_REGEX, p)),
      Self::Set(k) => tag(k, V::IsSetMatch(IsSetMatch::default())),
      Self::And(ms) => return new::LogMatcher { matcher: Some(Matcher::AndMatcher(list(ms))), ..Default::default() },
      Self::Or(ms) => return new::LogMatcher { matcher: Some(Matcher::OrMatcher(list(ms))), ..Default::default() },
      Self::Not(m) => return new::LogMatcher { matcher: Some(Matcher::NotMatcher(Box::new(m.proto()))), ..Default::default() },
    };
    new::LogMatcher { matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: Some(base), ..Default::default() })), ..Default::default() }
  }
}

fn matches(t: &Tree, l: &L) -> bool {
  let fields = FieldsRef::new(&l.captured, &l.matching);
  t.do_match(l.level, LogType(l.kind), &l.message, &fields)
}

fn compile(m: &M) -> Result<Tree, mc::Violation> {
  Tree::new(&m.proto()).map_err(|e| mc::Violation { key: "refused".into(), msg: format!("{m:?}: {e}") })
}

fn leaves() -> Vec<M> {
  let texts = ["foo", "fo", "fop", "FOO", "", "zé"];
  let mut v = vec![];
  for op in OPS {
    for t in texts {
      v.push(M::Msg(op, t));
      v.push(M::Tag("k", op, t));
    }
    v.push(M::Tag("", op, "foo"));
    v.push(M::Tag("log_level", op, "foo"));
    for n in [0, 1, 2, 4, -1] {
      v.push(M::Int("log_level", op, n));
    }
    for n in [0, 1, -3, 13, i32::MAX, i32::MIN] {
      v.push(M::Int("k", op, n));
    }
    for n in ["1.2.3", "1.2", "1.10", "1.2.10a", "2", "1.2.3-a.4", "1.2.3+7", "1.02", "", "1..2", "4294967295.1", "b.1"] {
      v.push(M::Ver("k", op, n));
    }
  }
  for n in [0, 1, 2, 7] {
    v.push(M::Int("log_type", Op::Eq, n));
  }
  for p in ["^fo+$", "b.r", "o", "^1\\.(2|3)", "", "^$"] {
    v.extend([M::MsgRe(p), M::TagRe("k", p), M::VerRe("k", p)]);
  }
  v.extend([M::Set("k"), M::Set("j"), M::Set("")]);
  v
}

fn logs() -> Vec<L> {
  let mut v = vec![];
  for m in ["foo", "fo", "FOO", "", "foob\nr", "a bar", "zé", "z", "f"] {
    for level in [0, 2, 4] {
      v.push(log(m).level(level).kind(level));
    }
  }
  v.push(L { message: LogMessage::Bytes(b"foo".to_vec()), ..log("") });
  v.push(log("foo").level(1).kind(7));
  v.push(log("x").level(2_147_483_647).kind(u32::MAX));
  for t in [
    "foo", "fo", "", "FOO", "zé", "0", "1", "-3", "13", "13.9", "-3.9", "1x", "2147483647", "-2147483648", "0.5", "1.2.3", "1.2", "1.2.0", "1.2.10",
    "1.10.0", "1.2.10a", "1.2.3-b", "1.2.3+b-c", "1.02.3", "2", "1", "4294967295", "4294967295.1.0", "a.2", "b", "bar", ".",
  ] {
    v.push(log("a").f("k", t));
    v.push(log("foo").m("k", t));
    v.push(log("foo").f("k", t).m("k", "foo"));
    v.push(log("a").f("j", t).f("k", "2"));
  }
  v.push(log("a").f("k", "foo").f("k", "zzz"));
  v.push(L { captured: vec![bytes("k", b"foo")], ..log("a") });
  v.push(L { captured: vec![bytes("k", b"foo")], ..log("a").m("k", "13") });
  v.push(L { matching: vec![bytes("k", b"13")], ..log("a") });
  v.push(log("a").f("", "foo").f("log_level", "foo").f("log_type", "7"));
  v
}

fn trees(base: &[M], deep: bool) -> Vec<M> {
  let mut one = vec![M::And(vec![]), M::Or(vec![])];
  for a in base {
    one.push(a.clone());
    one.push(M::Not(Box::new(a.clone())));
    one.push(M::And(vec![a.clone()]));
    one.push(M::Or(vec![a.clone()]));
    for b in base {
      one.push(M::And(vec![a.clone(), b.clone()]));
      one.push(M::Or(vec![a.clone(), b.clone()]));
      if deep {
        for c in base {
          one.push(M::And(vec![a.clone(), b.clone(), c.clone()]));
          one.push(M::Or(vec![a.clone(), b.clone(), c.clone()]));
        }
      }
    }
  }
  let mut two = vec![];
  for a in &one {
    two.push(M::Not(Box::new(a.clone())));
    for b in &one {
      two.push(M::And(vec![a.clone(), b.clone()]));
      two.push(M::Or(vec![a.clone(), b.clone()]));
    }
  }
  one.extend(two);
  one
}

pub fn c24(r: &mut Run) {
  let logs = logs();
  let leaves = leaves();
  r.explore(
    "leaves",
    &format!("each of {} conditions on each of {} logs", leaves.len(), logs.len()),
    Opts::default(),
    |ctx| {
      let m = ctx.pick(&leaves);
      let t = compile(m)?;
      for l in &logs {
        ctx.step();
        ctx.state((format!("{m:?}"), format!("{l:?}")));
        same!("leaf", matches(&t, l), m.says(l), "{m:?} on {l:?}");
      }
      Ok(())
    },
  );
  let base = [M::Msg(Op::Eq, "foo"), M::Set("k"), M::Int("log_level", Op::Ge, 2), M::Tag("k", Op::Ne, "v")];
  let few: Vec<L> = {
    let mut v = vec![];
    for msg in ["foo", "bar"] {
      for level in [1, 3] {
        v.push(log(msg).level(level));
        v.push(log(msg).level(level).f("k", "v"));
        v.push(log(msg).level(level).m("k", "w"));
      }
    }
    v
  };
  let all = trees(&base[.. if r.thorough() { 4 } else { 3 }], r.thorough());
  r.explore(
    "trees",
    &format!("all {} and/or/not trees of depth 2 over {} conditions, on {} logs", all.len(), base.len(), few.len()),
    Opts::default(),
    |ctx| {
      let m = ctx.pick(&all);
      let t = compile(m)?;
      for l in &few {
        ctx.step();
        same!("tree", matches(&t, l), m.says(l), "{m:?} on {l:?}");
      }
      ctx.state(few.iter().map(|l| m.says(l)).collect::<Vec<_>>());
      Ok(())
    },
  );
  let mut some: Vec<M> = leaves.clone();
  some.extend(trees(&base[.. 2], false));
  r.explore(
    "equality",
    &format!("{} matchers compared with each other", some.len()),
    Opts::default(),
    |ctx| {
      let a = ctx.pick(&some);
      let t = compile(a)?;
      check!(t == compile(a)?, "unequal", "{a:?} is not equal to itself");
      for b in &some {
        ctx.step();
        if t == compile(b)? {
          for l in &logs {
            same!("equal", a.says(l), b.says(l), "{a:?} and {b:?} are said to be equal, but differ on {l:?}");
          }
        }
      }
      ctx.state(format!("{a:?}"));
      Ok(())
    },
  );
  r.explore("malformed", "each way to leave a part of a matcher out, at each of 5 places of a tree", Opts::default(), malformed);
}

fn malformed(ctx: &Ctx) -> Res {
  use new::log_matcher::base_log_matcher::tag_match::Value_match as V;
  use new::log_matcher::base_log_matcher::{IntValueMatch, Match_type, MessageMatch, Operator as O, SemVerValueMatch, StringValueMatch, TagMatch};
  use new::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
  let string = |o: O, v: &str| StringValueMatch { operator: o.into(), match_value: v.to_string(), ..Default::default() };
  let tag = |v| Match_type::TagMatch(TagMatch { tag_key: "k".to_string(), value_match: v, ..Default::default() });
  let base = |b| Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: b, ..Default::default() }));
  let unknown = StringValueMatch { operator: protobuf::EnumOrUnknown::from_i32(99), match_value: "x".into(), ..Default::default() };
  let msg = |s: Option<StringValueMatch>| base(Some(Match_type::MessageMatch(MessageMatch { string_value_match: s.into(), ..Default::default() })));
  let bad: Vec<(&str, Option<Matcher>)> = vec![
    ("no matcher", None),
    ("no match type", base(None)),
    ("no operator", msg(Some(string(O::OPERATOR_UNSPECIFIED, "x")))),
    ("no string match", msg(None)),
    ("unknown operator", msg(Some(unknown.clone()))),
    ("bad pattern", msg(Some(string(O::OPERATOR_REGEX, "(")))),
    ("no value match", base(Some(tag(None)))),
    ("no operator of a tag", base(Some(tag(Some(V::StringValueMatch(string(O::OPERATOR_UNSPECIFIED, "x"))))))),
    ("unknown operator of a tag", base(Some(tag(Some(V::StringValueMatch(unknown)))))),
    ("bad pattern of a tag", base(Some(tag(Some(V::StringValueMatch(string(O::OPERATOR_REGEX, "[")))))) ),
    ("pattern for a number", base(Some(tag(Some(V::IntValueMatch(IntValueMatch { operator: O::OPERATOR_REGEX.into(), match_value: 1, ..Default::default() }))))) ),
    ("no operator of a version", base(Some(tag(Some(V::SemVerValueMatch(SemVerValueMatch { operator: O::OPERATOR_UNSPECIFIED.into(), match_value: "1".into(), ..Default::default() }))))) ),
    ("bad pattern of a version", base(Some(tag(Some(V::SemVerValueMatch(SemVerValueMatch { operator: O::OPERATOR_REGEX.into(), match_value: "*".into(), ..Default::default() }))))) ),
    ("negative log type", M::Int("log_type", Op::Eq, -1).proto().matcher),
  ];
  let (what, m) = ctx.pick(&bad).clone();
  let m = new::LogMatcher { matcher: m, ..Default::default() };
  let good = M::Set("k").proto();
  let list = |v: Vec<new::LogMatcher>| MatcherList { log_matchers: v, ..Default::default() };
  let wrap = |x| new::LogMatcher { matcher: Some(x), ..Default::default() };
  let at = ctx.choose(5);
  let m = match at {
    0 => m,
    1 => wrap(Matcher::NotMatcher(Box::new(m))),
    2 => wrap(Matcher::OrMatcher(list(vec![good, m]))),
    3 => wrap(Matcher::AndMatcher(list(vec![m, good]))),
    _ => wrap(Matcher::OrMatcher(list(vec![good, wrap(Matcher::NotMatcher(Box::new(wrap(Matcher::AndMatcher(list(vec![m]))))))]))),
  };
  ctx.step();
  ctx.state((what, at));
  check!(Tree::new(&m).is_err(), "accepted", "a matcher with {what} at place {at}");
  Ok(())
}

//
// Buffers
//

#[derive(Clone, Debug)]
enum B {
  Level(Op, i32),
  Exact(Option<&'static str>, &'static str),
  Prefix(Option<&'static str>, &'static str),
  Re(Option<&'static str>, &'static str),
  Any,
  Type(u32),
  And(Vec<B>),
  Or(Vec<B>),
  Not(Box<B>),
}

impl B {
  /// `special`: whether the names log_level and log_type stand for what is no field of the log.
  fn says(&self, l: &L, special: bool) -> bool {
    let get = |k: &Option<&str>| match k {
      None => l.message.as_str().map(str::to_string),
      Some("log_level") if special => Some(l.level.to_string()),
      Some("log_type") if special => Some(l.kind.to_string()),
      Some(k) => l.value(k),
    };
    match self {
      Self::Level(op, v) => holds(*op, i64::from(l.level).cmp(&i64::from(*v))),
      Self::Exact(k, v) => get(k).is_some_and(|s| s == *v),
      Self::Prefix(k, v) => get(k).is_some_and(|s| s.len() >= v.len() && s.as_bytes()[.. v.len()] == *v.as_bytes()),
      Self::Re(k, p) => get(k).is_some_and(|s| finds(p, &s)),
      Self::Any => true,
      Self::Type(t) => l.kind == *t,
      Self::And(ms) => !ms.iter().any(|m| !m.says(l, special)),
      Self::Or(ms) => ms.iter().any(|m| m.says(l, special)),
      Self::Not(m) => !m.says(l, special),
    }
  }

  fn proto(&self) -> old::LogMatcher {
    use old::log_matcher::base_log_matcher::log_level_match::{ComparisonOperator as C, LogLevel};
    use old::log_matcher::base_log_matcher::{AnyMatch, LogLevelMatch, Match_type as T, MessageMatch, StringMatchType as S, TagMatch, TypeMatch};
    use old::log_matcher::{BaseLogMatcher, MatcherList, Match_type};
    use protobuf::Enum;
    let text = |k: &Option<&str>, t: S, v: &str| match k {
      None => T::MessageMatch(MessageMatch { match_type: t.into(), match_value: v.to_string(), ..Default::default() }),
      Some(k) => T::TagMatch(TagMatch { match_type: t.into(), tag_key: k.to_string(), match_value: v.to_string(), ..Default::default() }),
    };
    let list = |ms: &[Self]| MatcherList { matcher: ms.iter().map(Self::proto).collect(), ..Default::default() };
    let base = match self {
      Self::Level(op, v) => T::LogLevelMatch(LogLevelMatch {
        operator: match op {
          Op::Lt => C::LESS_THAN,
          Op::Le => C::LESS_THAN_OR_EQUAL,
          Op::Eq => C::EQUALS,
          Op::Gt => C::GREATER_THAN,
          Op::Ge => C::GREATER_THAN_OR_EQUAL,
          Op::Ne => unreachable!(),
        }
        .into(),
        log_level: LogLevel::from_i32(*v).unwrap().into(),
        ..Default::default()
      }),
      Self::Exact(k, v) => text(k, S::EXACT, v),
      Self::Prefix(k, v) => text(k, S::PREFIX, v),
      Self::Re(k, v) => text(k, S::REGEX, v),
      Self::Any => T::AnyMatch(AnyMatch::default()),
      Self::Type(t) => T::TypeMatch(TypeMatch { type_: *t, ..Default::default() }),
      Self::And(ms) => return old::LogMatcher { match_type: Some(Match_type::AndMatcher(list(ms))), ..Default::default() },
      Self::Or(ms) => return old::LogMatcher { match_type: Some(Match_type::OrMatcher(list(ms))), ..Default::default() },
      Self::Not(m) => return old::LogMatcher { match_type: Some(Match_type::NotMatcher(Box::new(m.proto()))), ..Default::default() },
    };
    old::LogMatcher { match_type: Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(base), ..Default::default() })), ..Default::default() }
  }
}

/// Buffers by name, each with its filters, of which some say nothing.
type Buffers = Vec<(&'static str, Vec<Option<B>>)>;

fn buffers_proto(bs: &Buffers) -> old::BufferConfigList {
  old::BufferConfigList {
    buffer_config: bs
      .iter()
      .map(|(id, filters)| old::BufferConfig {
        id: (*id).to_string(),
        name: "n".to_string(),
        filters: filters
          .iter()
          .map(|f| old::buffer_config::BufferFilter { id: "f".to_string(), filter: f.as_ref().map(B::proto).into(), ..Default::default() })
          .collect(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}

fn selects(ctx: &Ctx, bs: &Buffers, logs: &[L]) -> Res {
  let s = BufferSelector::new(&buffers_proto(bs)).map_err(|e| mc::Violation { key: "refused".into(), msg: format!("{bs:?}: {e}") })?;
  for l in logs {
    for special in [false, true] {
      let fields = FieldsRef::new(&l.captured, &l.matching);
      let r = LogRef { log_type: LogType(l.kind), log_level: l.level, message: &l.message, fields: &fields, session_id: "s", occurred_at: time::OffsetDateTime::UNIX_EPOCH };
      let got = if special { s.buffers(LogType(l.kind), l.level, &l.message, &r) } else { s.buffers(LogType(l.kind), l.level, &l.message, &fields) };
      let got: BTreeSet<String> = got.into_iter().map(std::borrow::Cow::into_owned).collect();
      let want: BTreeSet<String> =
        bs.iter().filter(|(_, fs)| fs.iter().flatten().any(|f| f.says(l, special))).map(|(id, _)| (*id).to_string()).collect();
      ctx.step();
      ctx.state(&want);
      same!("buffers", got, want, "{bs:?} for {l:?}");
      for k in ["k", "j", "", "log_level", "log_type"] {
        let want = match k {
          "log_level" if special => Some(l.level.to_string()),
          "log_type" if special => Some(l.kind.to_string()),
          k => l.value(k),
        };
        let got = if special { r.field_value(k) } else { fields.field_value(k) };
        same!("field", got.map(|v| v.into_owned()), want, "field {k:?} of {l:?}");
      }
    }
  }
  Ok(())
}

pub fn c25(r: &mut Run) {
  let logs = logs();
  let mut leaves = vec![B::Any];
  for v in 0 .. 6 {
    for op in [Op::Lt, Op::Le, Op::Eq, Op::Gt, Op::Ge] {
      leaves.push(B::Level(op, v));
    }
  }
  for k in [None, Some("k"), Some("log_level"), Some("log_type"), Some("")] {
    for t in ["foo", "fo", "f", "", "FOO", "2", "foob\nr", "z", "zé"] {
      leaves.push(B::Exact(k, t));
      leaves.push(B::Prefix(k, t));
    }
    for p in ["^fo+$", "b.r", "o", "", "^$"] {
      leaves.push(B::Re(k, p));
    }
  }
  leaves.extend([0, 1, 2, 7, u32::MAX].map(B::Type));
  r.explore("leaves", &format!("each of {} conditions on each of {} logs", leaves.len(), logs.len()), Opts::default(), |ctx| {
    let b = ctx.pick(&leaves);
    selects(ctx, &vec![("b", vec![Some(b.clone())])], &logs)
  });
  let few: Vec<L> = ["foo", "bar"].iter().flat_map(|m| [log(m).level(1).kind(1), log(m).level(3), log(m).f("k", "v"), log(m).m("k", "w")]).collect();
  let base = [B::Exact(None, "foo"), B::Level(Op::Gt, 1), B::Prefix(Some("k"), "v")];
  let mut filters: Vec<B> = base.to_vec();
  for a in &base {
    filters.push(B::Not(Box::new(a.clone())));
    for b in &base {
      filters.push(B::And(vec![a.clone(), b.clone()]));
      filters.push(B::Or(vec![B::Not(Box::new(a.clone())), b.clone()]));
    }
  }
  filters.extend([B::And(vec![]), B::Or(vec![]), B::And(vec![base[0].clone(), B::Or(vec![base[1].clone(), base[2].clone()]), B::Any])]);
  let n = r.by_tier(2, 3);
  r.explore(
    "selection",
    &format!("1 to {n} buffers, of which two may have the same name, with up to 2 filters of {} kinds, on {} logs", filters.len(), few.len()),
    Opts::default(),
    |ctx| {
      let mut bs: Buffers = vec![];
      for i in 0 ..= ctx.choose(n) {
        let name = ["a", "b", "a"][i];
        let mut fs = vec![];
        for _ in 0 .. ctx.choose(if i == 0 { 3 } else { 2 }) {
          let of = if i < 2 && fs.is_empty() { filters.len() } else { 4 };
          fs.push(match ctx.choose(of + 1) {
            0 => None,
            k => Some(filters[k - 1].clone()),
          });
        }
        bs.push((name, fs));
      }
      ctx.say(|| format!("{bs:?}"));
      selects(ctx, &bs, &few)
    },
  );
  r.explore("malformed", "each way to leave a part of a filter out, at each place of a tree", Opts::default(), malformed_buffers);
}

fn malformed_buffers(ctx: &Ctx) -> Res {
  use old::log_matcher::base_log_matcher::{LogLevelMatch, Match_type as T, MessageMatch, TagMatch};
  use old::log_matcher::{BaseLogMatcher, MatcherList, Match_type};
  use protobuf::EnumOrUnknown as E;
  let base = |b| Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: b, ..Default::default() }));
  let bad = [
    ("no matcher", None),
    ("no match type", base(None)),
    ("unknown comparison", base(Some(T::LogLevelMatch(LogLevelMatch { operator: E::from_i32(9), ..Default::default() })))),
    ("unknown kind of string match", base(Some(T::MessageMatch(MessageMatch { match_type: E::from_i32(9), ..Default::default() })))),
    ("unknown kind of tag match", base(Some(T::TagMatch(TagMatch { match_type: E::from_i32(9), ..Default::default() })))),
    ("bad pattern", B::Re(None, "(").proto().match_type),
    ("bad pattern of a tag", B::Re(Some("k"), "(").proto().match_type),
  ];
  let (what, m) = ctx.pick(&bad).clone();
  let m = old::LogMatcher { match_type: m, ..Default::default() };
  let list = |v: Vec<old::LogMatcher>| MatcherList { matcher: v, ..Default::default() };
  let wrap = |x| old::LogMatcher { match_type: Some(x), ..Default::default() };
  let at = ctx.choose(4);
  let m = match at {
    0 => m,
    1 => wrap(Match_type::NotMatcher(Box::new(m))),
    2 => wrap(Match_type::OrMatcher(list(vec![B::Any.proto(), m]))),
    _ => wrap(Match_type::AndMatcher(list(vec![m, B::Any.proto()]))),
  };
  let mut c = buffers_proto(&vec![("a", vec![Some(B::Any), None]), ("b", vec![])]);
  let b = ctx.choose(2);
  c.buffer_config[b].filters.push(old::buffer_config::BufferFilter { filter: Some(m).into(), ..Default::default() });
  ctx.step();
  ctx.state((what, at, b));
  check!(BufferSelector::new(&c).is_err(), "accepted", "a filter with {what} at place {at}");
  Ok(())
}
