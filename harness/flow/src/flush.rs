//! C30: flushes that workflows ask for: what the server is asked, what is flushed, what is streamed.

use crate::flows::{in_tokio, on};
use crate::flushing::{Flush, Kept, Model, Set};
use crate::matcher::log;
use crate::wf::{config, Act, Rig, Tr, Wf};
use bd_api::upload::{IntentDecision, IntentResponse, Intent_type, Tracked};
use bd_api::DataUpload;
use bd_proto::protos::client::api::LogUploadIntentRequest;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use mc::{check, fail, same, Ctx, Opts, Res, Run, Scratch};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const FLUSHES: [Flush; 3] = [
  Flush { id: "f1", buffers: &["t1", "t2"], stream: Some((&["c1", "gone"], Some(2))) },
  Flush { id: "f2", buffers: &[], stream: Some((&[], None)) },
  Flush { id: "f3", buffers: &["t2", "gone"], stream: None },
];

fn workflows() -> Vec<Wf> {
  FLUSHES
    .iter()
    .map(|f| {
      let act = Act::Flush(f.id.to_string(), f.buffers.to_vec(), f.stream.map(|(to, n)| (to.to_vec(), n)));
      Wf::new(f.id, true, vec![vec![Tr { to: 1, on: on(f.id), count: 1, acts: vec![act], takes: vec![] }], vec![]])
    })
    .collect()
}

struct World {
  rig: Rig,
  m: Model,
  intent: Option<Tracked<LogUploadIntentRequest, IntentResponse>>,
  flushes: VecDeque<(&'static str, BuffersToFlush)>,
}

fn strs(s: &BTreeSet<String>) -> BTreeSet<&str> {
  s.iter().map(String::as_str).collect()
}

impl World {
  /// What came of the last step, other than its result.
  async fn look(&mut self, flush: Option<(&'static str, Set)>) -> Res {
    self.rig.turns().await;
    self.m.skip();
    match (self.rig.flushes.try_recv(), flush) {
      (Ok(b), Some((id, want))) => {
        same!("flushed", b.buffer_ids.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>(), want.iter().map(|s| s.to_string()).collect(), "buffers of the flush that {id} leads to");
        self.flushes.push_back((id, b));
      },
      (Err(_), None) => {},
      (Ok(b), None) => fail!("flushed", "flush of {:?} that nothing asked for", b.buffer_ids),
      (Err(_), Some(f)) => fail!("no flush", "no flush for {f:?}"),
    }
    check!(self.rig.flushes.try_recv().is_err(), "flushed", "one flush too many");
    if self.intent.is_none() {
      match self.rig.uploads.try_recv() {
        Ok(DataUpload::LogsUploadIntentRequest(i)) => self.intent = Some(i),
        Ok(u) => fail!("upload", "unexpected {u:?}"),
        Err(_) => {},
      }
    }
    check!(self.rig.uploads.try_recv().is_err(), "upload", "more than one question at a time");
    match (&self.intent, self.m.asking.front()) {
      (None, None) => Ok(()),
      (Some(i), Some((id, p))) => {
        let Some(Intent_type::WorkflowActionUpload(w)) = &i.payload.intent_type else { fail!("upload", "a question about {:?}", i.payload.intent_type) };
        same!("asked", w.workflow_action_ids, vec![id.to_string()], "action that the server is asked about");
        same!("asked", i.payload.buffer_id, p.buffers.iter().next().unwrap().to_string(), "buffer that the server is asked about");
        same!("asked", i.payload.intent_uuid, i.uuid, "id of the question");
        Ok(())
      },
      (None, Some((id, _))) => fail!("not asked", "the server is not asked about {id}"),
      (Some(i), None) => fail!("asked", "the server is asked again: {:?}", i.payload),
    }
  }
}

async fn histories(ctx: &Ctx, depth: u32, prune: bool) -> Res {
  let wfs = workflows();
  let dir = Scratch::new();
  let set = |x: &[&'static str]| x.iter().copied().collect::<Set>();
  let m = Model {
    flushes: &FLUSHES,
    now: Kept::default(),
    disk: None,
    trigger: set(&["t1", "t2"]),
    continuous: set(&["c1", "c2"]),
    asking: VecDeque::new(),
    rejected: Set::new(),
    flushing: BTreeMap::new(),
  };
  let conf = |m: &Model| config(&wfs, &m.trigger.iter().copied().collect::<Vec<_>>(), &m.continuous.iter().copied().collect::<Vec<_>>());
  let mut rig = Rig::new(dir.path(), None);
  rig.engine.start(conf(&m));
  let mut w = World { rig, m, intent: None, flushes: VecDeque::new() };
  let mut session = "s";
  let reduced: [(&[&'static str], &[&'static str]); 3] = [(&["t1"], &["c1", "c2"]), (&["t1", "t2"], &["c2"]), (&["t2"], &[])];
  let mut updated = false;
  for left in (1 ..= depth).rev() {
    let ended: Vec<_> = w.flushes.iter().map(|(id, _)| *id).collect();
    let key = (&w.m, session, updated, w.intent.is_some(), ended);
    if prune && ctx.known(&key, left) {
      return Ok(());
    }
    ctx.state(&key);
    ctx.step();
    let mut ops: Vec<&str> = vec!["f1", "f2", "f3", "x1", "x2", "x12c", "y1", "persist", "restart"];
    if w.intent.is_some() {
      ops.extend(["yes", "no", "fail"]);
    }
    if !w.flushes.is_empty() {
      ops.extend(["flushed", "dropped"]);
    }
    if !updated {
      ops.extend(["update 0", "update 1", "update 2"]);
    }
    let op = *ctx.pick(&ops);
    ctx.say(|| op.to_string());
    let mut flush = None;
    match op {
      "f1" | "f2" | "f3" | "x1" | "x2" | "x12c" | "y1" => {
        let to: &[&'static str] = match op {
          "f1" | "x1" | "y1" => &["t1"],
          "f2" | "x2" => &["t2"],
          "f3" => &["c2", "t2", "gone"],
          _ => &["c1", "t1", "t2"],
        };
        if op == "y1" {
          session = if session == "s" { "t" } else { "s" };
        }
        let got = w.rig.log(&log(op), session, 0, to);
        let (triggered, flushed, goes) = w.m.log(op, session, &set(to));
        same!("triggered", strs(&got.actions), triggered, "actions that log {op} triggers");
        same!("flushing", strs(&got.flushed), flushed, "buffers that log {op} is about to flush");
        same!("goes", strs(&got.goes_to), goes, "buffers that log {op} for {to:?} goes to");
      },
      "yes" | "no" => {
        let i = w.intent.take().unwrap();
        let decision = if op == "yes" { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
        let _ = i.response_tx.send(IntentResponse { uuid: i.uuid.clone(), decision });
        flush = w.m.answer(op == "yes");
      },
      // The same question comes again.
      "fail" => drop(w.intent.take()),
      "flushed" => {
        let (id, b) = w.flushes.pop_front().unwrap();
        let _ = b.response_tx.send(());
        w.m.flushing.insert(id, false);
      },
      "dropped" => {
        let (id, _) = w.flushes.pop_front().unwrap();
        w.m.flushing.insert(id, false);
      },
      "persist" => {
        w.rig.engine.maybe_persist(true).await;
        w.m.disk = Some(w.m.now.clone());
      },
      "restart" => {
        // The flushes that are under way go with the process.
        w.flushes.clear();
        w.intent = None;
        w.rig = Rig::new(dir.path(), None);
        w.rig.engine.start(conf(&w.m));
        w.m.restart();
      },
      op => {
        let k: usize = op[7 ..].parse().unwrap();
        w.m.trigger = set(reduced[k].0);
        w.m.continuous = set(reduced[k].1);
        w.rig.engine.update(conf(&w.m));
        w.m.standardize();
        updated = true;
      },
    }
    w.look(flush).await?;
  }
  Ok(())
}

pub fn c30(r: &mut Run) {
  let what = "steps of: logs that trigger one of 3 flushes (with limited, unlimited or no streaming), other logs to several buffers and in another session, the server's yes, no and failure to answer, ends of flushes, persist, restart, one update to one of 3 other sets of buffers";
  let depth = r.by_tier(6, 8);
  r.explore("histories", &format!("{depth} {what}"), Opts::default(), |ctx| in_tokio(histories(ctx, depth, true)));
  let depth = r.by_tier(4, 5);
  r.explore("histories-full", &format!("{depth} {what}"), Opts::default().full(), |ctx| in_tokio(histories(ctx, depth, false)));
}
