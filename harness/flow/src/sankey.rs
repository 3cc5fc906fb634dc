//! C31: paths through workflows that diagrams are made of, and how they are reported.

use crate::flows::{in_tokio, on};
use crate::matcher::{log, L};
use crate::wf::{config, Act, Model, Path, Rig, Take, Tr, Wf, V};
use bd_api::upload::{IntentDecision, IntentResponse, Tracked, UploadResponse};
use bd_api::DataUpload;
use bd_proto::protos::client::api::{SankeyIntentRequest, SankeyPathUploadRequest};
use mc::{check, fail, same, Ctx, Opts, Res, Run, Scratch};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Mutex;

fn fixed(sankey: &'static str, s: &'static str, counts: bool) -> Take {
  Take { sankey, value: V::Fixed(s), counts }
}

fn taken(sankey: &'static str, f: &'static str, counts: bool) -> Take {
  Take { sankey, value: V::Field(f), counts }
}

fn tr(to: usize, s: &'static str, count: u32, takes: Vec<Take>, acts: Vec<Act>) -> Tr {
  Tr { to, on: on(s), count, acts, takes }
}

fn emit(id: &str, limit: u32, tags: Vec<(&'static str, V)>) -> Act {
  Act::Sankey(id.to_string(), limit, tags)
}

fn workflows() -> Vec<Vec<Vec<Tr>>> {
  let tags = || vec![("t", V::Fixed("v")), ("k", V::Field("k")), ("l", V::Field("log_level"))];
  vec![
    // Where it began, and a field that may not be there.
    vec![vec![tr(1, "a", 1, vec![fixed("s", "in", false)], vec![])], vec![tr(2, "b", 1, vec![taken("s", "k", true)], vec![emit("s", 2, tags())])], vec![]],
    // Too long, with nodes that count and one that does not.
    vec![
      vec![tr(1, "ab", 1, vec![fixed("s", "1", true), taken("s", "k", false)], vec![])],
      vec![tr(2, "ab", 1, vec![fixed("s", "2", true)], vec![])],
      vec![tr(3, "a", 1, vec![taken("s", "k", true), fixed("s", "3", true)], vec![emit("s", 2, vec![])]), tr(3, "b", 1, vec![], vec![emit("s", 2, vec![])])],
      vec![],
    ],
    // Paths that part and meet.
    vec![
      vec![tr(1, "a", 1, vec![fixed("s", "left", true)], vec![]), tr(2, "ab", 1, vec![fixed("s", "right", true), taken("s", "k", true)], vec![])],
      vec![tr(3, "b", 1, vec![taken("s", "log_type", true)], vec![emit("s", 9, tags())])],
      vec![tr(3, "*", 1, vec![], vec![emit("s", 9, tags())])],
      vec![],
    ],
    // Two diagrams, one of them in two parts, and no room at all for the other.
    vec![
      vec![tr(1, "a", 1, vec![fixed("s", "x", true), taken("z", "k", true), fixed("z", "y", true)], vec![emit("s", 1, vec![])])],
      vec![tr(2, "a", 2, vec![taken("s", "k", true), fixed("s", "log_level", false), taken("s", "log_level", false)], vec![emit("z", 0, vec![]), emit("s", 1, vec![])])],
      vec![],
    ],
    // The same again from different places, and never reported.
    vec![
      vec![tr(1, "a", 1, vec![fixed("s", "x", true), taken("gone", "k", true)], vec![]), tr(2, "b", 1, vec![fixed("s", "x", true)], vec![])],
      vec![tr(3, "b", 1, vec![], vec![emit("s", 3, vec![])])],
      vec![tr(3, "a", 1, vec![], vec![emit("s", 3, vec![])]), tr(4, "b", 1, vec![fixed("gone", "g", true)], vec![])],
      vec![],
      vec![tr(3, "z", 1, vec![], vec![emit("gone", 3, vec![])])],
    ],
  ]
}

fn logs() -> Vec<L> {
  vec![log("a"), log("a").f("k", "x"), log("b").m("k", "y").level(3), log("b").kind(1), log("c").f("k", "z")]
}

/// Each path has one name, wherever and whenever, which no other has.
fn named(nodes: &[String], id: &str) -> Res {
  static NAMES: Mutex<(BTreeMap<String, String>, BTreeMap<String, String>)> = Mutex::new((BTreeMap::new(), BTreeMap::new()));
  let mut n = NAMES.lock().unwrap();
  // The code names paths by their nodes put together.
  let whole = nodes.concat();
  let known = n.0.entry(whole.clone()).or_insert_with(|| id.to_string()).clone();
  same!("name", id, known, "name of path {nodes:?}, compared to elsewhere");
  let of = n.1.entry(id.to_string()).or_insert_with(|| whole.clone()).clone();
  same!("name", whole, of, "path that is named {id}");
  Ok(())
}

type Tags = BTreeMap<String, String>;

fn counted(a: &Act, p: &Path, l: &L) -> (Tags, Vec<String>) {
  let Act::Sankey(id, _, tags) = a else { unreachable!() };
  let mut t: Tags = tags.iter().filter_map(|(k, v)| v.of(l).map(|v| (k.to_string(), v))).collect();
  t.insert("_id".to_string(), id.clone());
  (t, p.names())
}

async fn paths(ctx: &Ctx, wfs: &[Wf], depth: u32, restart: u32) -> Res {
  let ls = logs();
  let dir = Scratch::new();
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(config(wfs, &[], &[]));
  let mut m = Model::new(wfs, 1000);
  let mut counts: BTreeMap<(Tags, Vec<String>), u64> = BTreeMap::new();
  let mut done = BTreeSet::new();
  for n in 0 .. depth {
    if n > 0 && n == restart {
      ctx.say(|| "restart".to_string());
      rig.engine.maybe_persist(true).await;
      drop(rig);
      rig = Rig::new(dir.path(), None);
      rig.engine.start(config(wfs, &[], &[]));
      counts.clear();
      done.clear();
    }
    let l = ctx.pick(&ls);
    ctx.say(|| format!("{l:?}"));
    ctx.step();
    rig.log(l, "s", i64::from(n), &[]);
    m.log(wfs, l, "s", i64::from(n));
    ctx.state((&m.runs, &done));
    let mut want = BTreeSet::new();
    let mut once: Vec<(Act, Path)> = vec![];
    for e in &m.emitted {
      if !once.contains(e) {
        once.push(e.clone());
        *counts.entry(counted(&e.0, &e.1, l)).or_default() += 1;
        let Act::Sankey(id, ..) = &e.0 else { unreachable!() };
        let p = (id.clone(), e.1.names());
        if done.insert((p.0.clone(), p.1.concat())) {
          want.insert(p);
        }
      }
    }
    let mut got = BTreeSet::new();
    loop {
      rig.turns().await;
      let Ok(DataUpload::SankeyPathUploadIntentRequest(i)) = rig.uploads.try_recv() else { break };
      same!("intent", i.payload.intent_uuid, i.uuid, "id of the question");
      let about = (i.payload.sankey_diagram_id.clone(), i.payload.path_id.clone());
      let _ = i.response_tx.send(IntentResponse { uuid: i.uuid, decision: IntentDecision::UploadImmediately });
      rig.turns().await;
      let Ok(DataUpload::SankeyPathUpload(u)) = rig.uploads.try_recv() else { fail!("upload", "no upload of a path that the server asked for") };
      same!("upload", (u.payload.id.clone(), u.payload.path_id.clone()), about, "path that is uploaded");
      same!("upload", u.payload.upload_uuid, u.uuid, "id of the upload");
      let nodes: Vec<String> = u.payload.nodes.iter().map(|n| n.extracted_value.clone()).collect();
      named(&nodes, &u.payload.path_id)?;
      check!(got.insert((u.payload.id.clone(), nodes.clone())), "twice", "path {nodes:?} is uploaded again");
      let _ = u.response_tx.send(UploadResponse { success: true, uuid: u.uuid });
    }
    same!("paths", got, want, "paths that are uploaded after log {n}, {l:?}");
    let mut made = BTreeMap::new();
    for (mut tags, v) in rig.made("workflows_dyn:action") {
      let Some(id) = tags.remove("_path_id") else { fail!("counter", "a counter of a diagram without a path: {tags:?}") };
      let Ok(v) = v else { fail!("counter", "a histogram for a diagram") };
      made.insert((tags, id), v);
    }
    let mut expected = BTreeMap::new();
    for ((tags, nodes), n) in &counts {
      let id = made.keys().find(|(t, id)| t == tags && named(nodes, id).is_ok()).map(|k| k.1.clone());
      let Some(id) = id else { fail!("counter", "no counter for path {nodes:?} with {tags:?}, but {made:?}") };
      *expected.entry((tags.clone(), id)).or_insert(0) += n;
    }
    same!("counter", made, expected, "counters of paths after log {n}");
  }
  Ok(())
}

//
// The server
//

enum Asked {
  None,
  Intent(Tracked<SankeyIntentRequest, IntentResponse>),
  Upload(Tracked<SankeyPathUploadRequest, UploadResponse>),
}

/// Every log with a field k is reported as a path of its own.
fn reporter() -> Wf {
  Wf::new("w", false, vec![vec![tr(1, "p", 1, vec![fixed("s", "-", false), taken("s", "k", true)], vec![emit("s", 5, vec![])])], vec![]])
}

#[derive(Clone, Debug, Default, Hash)]
struct Server {
  waiting: VecDeque<String>,
  /// What is asked about, and whether it is uploaded already.
  now: Option<(String, bool)>,
  /// The paths that are through, the latest one last.
  done: VecDeque<String>,
  count: [u64; 7],
}

const MANY: usize = 100;

impl Server {
  fn remember(&mut self, p: String) {
    self.done.retain(|d| *d != p);
    self.done.push_back(p);
    if self.done.len() > MANY {
      self.done.pop_front();
    }
  }
  fn next(&mut self) {
    while self.now.is_none() {
      let Some(p) = self.waiting.pop_front() else { return };
      self.count[0] += 1;
      if self.done.contains(&p) {
        self.count[1] += 1;
        self.remember(p);
      } else {
        self.now = Some((p, false));
      }
    }
  }
}

struct World {
  rig: Rig,
  m: Server,
  asked: Asked,
  ids: BTreeMap<String, String>,
}

impl World {
  fn new(dir: &Scratch) -> Self {
    let mut rig = Rig::new(dir.path(), None);
    rig.engine.start(config(&[reporter()], &[], &[]));
    Self { rig, m: Server::default(), asked: Asked::None, ids: BTreeMap::new() }
  }

  fn path(&mut self, k: &str) {
    self.rig.log(&log("p").f("k", k), "s", 0, &[]);
    self.m.waiting.push_back(k.to_string());
  }

  async fn look(&mut self) -> Res {
    self.rig.turns().await;
    self.m.next();
    if matches!(self.asked, Asked::None) {
      match self.rig.uploads.try_recv() {
        Ok(DataUpload::SankeyPathUploadIntentRequest(i)) => self.asked = Asked::Intent(i),
        Ok(DataUpload::SankeyPathUpload(u)) => self.asked = Asked::Upload(u),
        Ok(u) => fail!("upload", "unexpected {u:?}"),
        Err(_) => {},
      }
    }
    check!(self.rig.uploads.try_recv().is_err(), "upload", "more than one request at a time");
    match (&self.asked, &self.m.now) {
      (Asked::None, None) => {},
      (Asked::Intent(i), Some((p, false))) => {
        let id = self.ids.entry(p.clone()).or_insert_with(|| i.payload.path_id.clone());
        same!("intent", &i.payload.path_id, &*id, "path that the server is asked about: it should be {p}");
      },
      (Asked::Upload(u), Some((p, true))) => {
        same!("upload", u.payload.nodes.iter().map(|n| n.extracted_value.as_str()).collect::<Vec<_>>(), vec!["-", p.as_str()], "nodes of the path that is uploaded");
        same!("upload", &u.payload.path_id, &self.ids[p], "name of the path that is uploaded");
      },
      (Asked::None, Some(p)) => fail!("nothing", "no request about {p:?}"),
      (Asked::Intent(i), now) => fail!("intent", "asks about {}, where {now:?} is due", i.payload.path_id),
      (Asked::Upload(u), now) => fail!("upload", "uploads {:?}, where {now:?} is due", u.payload.nodes),
    }
    let done = |s| self.rig.stat("workflows:actions:sankeys:intent_completions_total", &[("result", s)]);
    let up = |s| self.rig.stat("workflows:actions:sankeys:upload_completions_total", &[("result", s)]);
    let got = [
      self.rig.stat("workflows:actions:sankeys:intent_initiations_total", &[]),
      done("already_processed"),
      done("upload"),
      done("drop"),
      self.rig.stat("workflows:actions:sankeys:intent_request_failures_total", &[]),
      up("success"),
      up("failure"),
    ];
    same!("stats", got, self.m.count, "counts of intents: begun, known, upload, drop, failed; uploads done, failed");
    Ok(())
  }

  /// The server's answer, or the lack of it.
  fn answer(&mut self, yes: Option<bool>) {
    let Some((p, uploading)) = self.m.now.take() else { unreachable!() };
    match std::mem::replace(&mut self.asked, Asked::None) {
      Asked::Intent(i) => {
        assert!(!uploading);
        match yes {
          Some(true) => {
            self.m.count[2] += 1;
            self.m.now = Some((p, true));
          },
          Some(false) => {
            self.m.count[3] += 1;
            self.m.remember(p);
          },
          None => self.m.count[4] += 1,
        }
        if let Some(y) = yes {
          let decision = if y { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
          let _ = i.response_tx.send(IntentResponse { uuid: i.uuid.clone(), decision });
        }
      },
      Asked::Upload(u) => {
        if yes == Some(true) {
          self.m.count[5] += 1;
          self.m.remember(p);
        } else {
          self.m.count[6] += 1;
        }
        if let Some(success) = yes {
          let _ = u.response_tx.send(UploadResponse { success, uuid: u.uuid.clone() });
        }
      },
      Asked::None => unreachable!(),
    }
  }
}

async fn server(ctx: &Ctx, depth: u32) -> Res {
  let dir = Scratch::new();
  let mut w = World::new(&dir);
  for left in (1 ..= depth).rev() {
    if ctx.known(&w.m, left) {
      return Ok(());
    }
    ctx.state(&w.m);
    ctx.step();
    let mut ops = vec!["x", "y", "z"];
    if w.m.now.is_some() {
      ops.extend(["yes", "no", "gone"]);
    }
    let op = *ctx.pick(&ops);
    ctx.say(|| op.to_string());
    match op {
      "yes" => w.answer(Some(true)),
      "no" => w.answer(Some(false)),
      "gone" => w.answer(None),
      k => w.path(k),
    }
    w.look().await?;
  }
  Ok(())
}

/// A number of paths at once, and the server's answers to them.
async fn burst(ctx: &Ctx, most: usize) -> Res {
  let dir = Scratch::new();
  let mut w = World::new(&dir);
  w.path("first");
  w.look().await?;
  for i in 0 .. 1 + ctx.choose(most) {
    w.path(&format!("{}", if i % 4 == 3 { i - 1 } else { i }));
  }
  w.look().await?;
  let how = ctx.choose(4);
  for n in 0 .. {
    ctx.step();
    ctx.state(&w.m);
    if w.m.now.is_none() {
      break;
    }
    w.answer([Some(true), Some(false), None, Some(n % 3 > 0)][how]);
    w.look().await?;
  }
  Ok(())
}

/// About as many paths as are remembered, and then some more.
async fn many(ctx: &Ctx, depth: u32) -> Res {
  let dir = Scratch::new();
  let mut w = World::new(&dir);
  let n = [MANY - 1, MANY, MANY + 1][ctx.choose(3)];
  for i in 0 .. n {
    w.path(&format!("{i}"));
    w.look().await?;
    let up = i % 2 == 0;
    w.answer(Some(up));
    w.look().await?;
    if up {
      w.answer(Some(true));
      w.look().await?;
    }
  }
  let old = ["0", "1", "2", "99", "x"];
  for _ in 0 .. depth {
    let k = *ctx.pick(&old);
    ctx.say(|| format!("after {n}: {k}"));
    ctx.step();
    ctx.state((&w.m.done, k));
    w.path(k);
    w.look().await?;
    if w.m.now.is_some() {
      w.answer(Some(false));
      w.look().await?;
    }
  }
  Ok(())
}

pub fn c31(r: &mut Run) {
  let shapes = workflows();
  let depth = r.by_tier(5, 6);
  r.explore(
    "paths",
    &format!("{} workflows that take values for diagrams, with limits, forks and several diagrams, parallel or exclusive, {depth} of 5 logs", shapes.len()),
    Opts::default(),
    |ctx| {
      let w = Wf::new("w", ctx.flip(), ctx.pick(&shapes).clone());
      in_tokio(paths(ctx, &[w], depth, 0))
    },
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "together",
    &format!("two of {} workflows at a time, {depth} of 5 logs, with a restart before any of them", shapes.len()),
    Opts::default(),
    |ctx| {
      let (i, j) = (ctx.choose(shapes.len()), ctx.choose(shapes.len()));
      let wfs = [Wf::new("v", false, shapes[i].clone()), Wf::new("w", true, shapes[j].clone())];
      in_tokio(paths(ctx, &wfs, depth, ctx.choose(depth as usize) as u32))
    },
  );
  let depth = r.by_tier(8, 10);
  r.explore("server", &format!("{depth} of: one of 3 paths is reported; the server says yes, no, or nothing"), Opts::default(), |ctx| in_tokio(server(ctx, depth)));
  r.explore("burst", "1 to 10 paths while the server is asked about one, and 4 kinds of answers", Opts::default(), |ctx| in_tokio(burst(ctx, 10)));
  let depth = r.by_tier(2, 3);
  r.explore("many", &format!("after 99 to 101 paths, {depth} of 5 old and new ones"), Opts::default(), |ctx| in_tokio(many(ctx, depth)));
}
