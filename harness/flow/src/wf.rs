//! The workflows engine, and the workflows it runs as this harness describes them.

use crate::matcher::{L, M};
use bd_api::DataUpload;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{FieldsRef, LogRef, LogType};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::workflow::workflow as p;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use mc::{same, Res};
use p::workflow::action::{action_emit_metric, action_flush_buffers, tag, Action_type, Tag};
use p::workflow::action::action_emit_metric::Value_extractor_type;
use p::workflow::transition_extension::{sankey_diagram_value_extraction::Value_type, Extension_type, SankeyDiagramValueExtraction};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as Dir;
use std::sync::Arc;
use tokio::sync::mpsc::{channel, Receiver};

//
// Workflows
//

/// What a tag, a metric or a node of a diagram is made of.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum V {
  Fixed(&'static str),
  Field(&'static str),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Act {
  /// With the buffers (none: all), and where to stream to up to how many logs (none: forever).
  Flush(String, Vec<&'static str>, Option<(Vec<&'static str>, Option<u64>)>),
  /// By how much, and whether it is a histogram.
  Metric(String, Result<u32, &'static str>, Vec<(&'static str, V)>, bool),
  Shot(String),
  Sankey(String, u32, Vec<(&'static str, V)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Take {
  pub sankey: &'static str,
  pub value: V,
  pub counts: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tr {
  pub to: usize,
  pub on: M,
  pub count: u32,
  pub acts: Vec<Act>,
  pub takes: Vec<Take>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Wf {
  pub id: String,
  pub exclusive: bool,
  pub states: Vec<Vec<Tr>>,
  pub matched: Option<u32>,
  pub duration: Option<u64>,
}

fn tags(ts: &[(&'static str, V)]) -> Vec<Tag> {
  let kind = |v: &V| match v {
    V::Fixed(s) => tag::Tag_type::FixedValue(s.to_string()),
    V::Field(f) => tag::Tag_type::FieldExtracted(p::workflow::FieldExtracted { field_name: f.to_string(), ..Default::default() }),
  };
  ts.iter().map(|(k, v)| Tag { name: k.to_string(), tag_type: Some(kind(v)), ..Default::default() }).collect()
}

impl V {
  pub fn of(&self, l: &L) -> Option<String> {
    match self {
      Self::Fixed(s) => Some(s.to_string()),
      Self::Field("log_level") => Some(l.level.to_string()),
      Self::Field("log_type") => Some(l.kind.to_string()),
      Self::Field(f) => l.value(f),
    }
  }
}

impl Tr {
  /// What becomes of the paths under way when a log makes a traversal follow this.
  fn follow(&self, w: &Wf, l: &L, mut paths: Paths, emitted: &mut Vec<(Act, Path)>) -> Paths {
    for k in &self.takes {
      let Some(v) = k.value.of(l) else { continue };
      let p = paths.entry(k.sankey).or_default();
      p.nodes.push((v, k.counts));
      let counted = p.nodes.iter().filter(|n| n.1).count();
      if k.counts && counted > w.limit_of(k.sankey) {
        p.nodes.remove(p.nodes.iter().position(|n| n.1).unwrap());
        p.trimmed = true;
      }
    }
    for a in &self.acts {
      if let Act::Sankey(id, ..) = a {
        if let Some(p) = paths.remove(id.as_str()) {
          emitted.push((a.clone(), p));
        }
      }
    }
    paths
  }
}

impl Act {
  fn proto(&self) -> p::workflow::Action {
    let action_type = match self {
      Self::Flush(id, buffers, stream) => Action_type::ActionFlushBuffers(p::workflow::action::ActionFlushBuffers {
        id: id.clone(),
        buffer_ids: buffers.iter().map(|s| s.to_string()).collect(),
        streaming: stream
          .as_ref()
          .map(|(to, limit)| action_flush_buffers::Streaming {
            destination_streaming_buffer_ids: to.iter().map(|s| s.to_string()).collect(),
            termination_criteria: limit
              .iter()
              .map(|n| action_flush_buffers::streaming::TerminationCriterion {
                type_: Some(action_flush_buffers::streaming::termination_criterion::Type::LogsCount(
                  action_flush_buffers::streaming::termination_criterion::LogsCount { max_logs_count: *n, ..Default::default() },
                )),
                ..Default::default()
              })
              .collect(),
            ..Default::default()
          })
          .into(),
        ..Default::default()
      }),
      Self::Metric(id, by, ts, histogram) => Action_type::ActionEmitMetric(p::workflow::action::ActionEmitMetric {
        id: id.clone(),
        tags: tags(ts),
        metric_type: Some(if *histogram {
          action_emit_metric::Metric_type::Histogram(Default::default())
        } else {
          action_emit_metric::Metric_type::Counter(Default::default())
        }),
        value_extractor_type: Some(match by {
          Ok(n) => Value_extractor_type::Fixed(*n),
          Err(f) => Value_extractor_type::FieldExtracted(p::workflow::FieldExtracted { field_name: f.to_string(), ..Default::default() }),
        }),
        ..Default::default()
      }),
      Self::Shot(id) => Action_type::ActionTakeScreenshot(p::workflow::action::ActionTakeScreenshot { id: id.clone(), ..Default::default() }),
      Self::Sankey(id, limit, ts) => Action_type::ActionEmitSankeyDiagram(p::workflow::action::ActionEmitSankeyDiagram {
        id: id.clone(),
        limit: *limit,
        tags: tags(ts),
        ..Default::default()
      }),
    };
    p::workflow::Action { action_type: Some(action_type), ..Default::default() }
  }
}

impl Wf {
  pub fn new(id: &str, exclusive: bool, states: Vec<Vec<Tr>>) -> Self {
    Self { id: id.to_string(), exclusive, states, matched: None, duration: None }
  }

  fn limit_of(&self, sankey: &str) -> usize {
    let acts = self.states.iter().flatten().flat_map(|t| &t.acts);
    acts.filter_map(|a| if let Act::Sankey(id, n, _) = a { (id == sankey).then_some(*n as usize) } else { None }).next().unwrap_or(0)
  }

  /// Every transition flushes buffers under a name that tells where it is.
  pub fn telling(mut self) -> Self {
    for (s, trs) in self.states.iter_mut().enumerate() {
      for (t, tr) in trs.iter_mut().enumerate() {
        tr.acts = vec![Act::Flush(told(&self.id, s, t), vec![], None)];
      }
    }
    self
  }

  pub fn proto(&self) -> p::Workflow {
    use p::workflow::execution::Execution_type as E;
    p::Workflow {
      id: self.id.clone(),
      states: self
        .states
        .iter()
        .enumerate()
        .map(|(i, trs)| p::workflow::State {
          id: format!("s{i}"),
          transitions: trs
            .iter()
            .map(|t| p::workflow::Transition {
              target_state_id: format!("s{}", t.to),
              rule: Some(p::workflow::Rule {
                rule_type: Some(p::workflow::rule::Rule_type::RuleLogMatch(p::workflow::RuleLogMatch {
                  log_matcher: Some(t.on.proto()).into(),
                  count: t.count,
                  ..Default::default()
                })),
                ..Default::default()
              })
              .into(),
              actions: t.acts.iter().map(Act::proto).collect(),
              extensions: t
                .takes
                .iter()
                .map(|k| p::workflow::TransitionExtension {
                  extension_type: Some(Extension_type::SankeyDiagramValueExtraction(SankeyDiagramValueExtraction {
                    sankey_diagram_id: k.sankey.to_string(),
                    counts_toward_sankey_extraction_limit: k.counts,
                    value_type: Some(match &k.value {
                      V::Fixed(s) => Value_type::Fixed(s.to_string()),
                      V::Field(f) => Value_type::FieldExtracted(p::workflow::FieldExtracted { field_name: f.to_string(), ..Default::default() }),
                    }),
                    ..Default::default()
                  })),
                  ..Default::default()
                })
                .collect(),
              ..Default::default()
            })
            .collect(),
          ..Default::default()
        })
        .collect(),
      execution: Some(p::workflow::Execution {
        execution_type: Some(if self.exclusive { E::ExecutionExclusive(Default::default()) } else { E::ExecutionParallel(Default::default()) }),
        ..Default::default()
      })
      .into(),
      limit_matched_logs_count: self.matched.map(|count| p::workflow::LimitMatchedLogsCount { count, ..Default::default() }).into(),
      limit_duration: self.duration.map(|duration_ms| p::workflow::LimitDuration { duration_ms, ..Default::default() }).into(),
      ..Default::default()
    }
  }
}

pub fn told(id: &str, s: usize, t: usize) -> String {
  format!("{id}.{s}.{t}")
}

pub fn config(wfs: &[Wf], trigger: &[&'static str], continuous: &[&'static str]) -> WorkflowsEngineConfig {
  let set = |x: &[&'static str]| x.iter().map(|s| Cow::Borrowed(*s)).collect::<BTreeSet<_>>();
  WorkflowsEngineConfig::new(
    WorkflowsConfiguration::new(&p::WorkflowsConfiguration { workflows: wfs.iter().map(Wf::proto).collect(), ..Default::default() }),
    set(trigger),
    set(continuous),
  )
}

//
// The engine
//

pub struct Rig {
  pub engine: WorkflowsEngine,
  pub collector: Collector,
  pub dynamic: Arc<DynamicStats>,
  pub flushes: Receiver<BuffersToFlush>,
  pub uploads: Receiver<DataUpload>,
  _runtime: Arc<ConfigLoader>,
}

/// What came of a log.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Out {
  pub actions: BTreeSet<String>,
  pub flushed: BTreeSet<String>,
  pub goes_to: BTreeSet<String>,
  pub shot: bool,
}

impl Rig {
  /// Not started yet; within a tokio runtime.
  pub fn new(dir: &Dir, limit: Option<u32>) -> Self {
    Self::with(dir, &limit.map(|n| ("workflows.traversals_global_count_limit", n)).into_iter().collect::<Vec<_>>())
  }

  pub fn with(dir: &Dir, flags: &[(&str, u32)]) -> Self {
    let runtime = ConfigLoader::new(dir);
    if !flags.is_empty() {
      runtime.update_snapshot(&RuntimeUpdate {
        version_nonce: "1".to_string(),
        runtime: Some(Runtime {
          values: flags.iter().map(|(k, n)| (k.to_string(), Value { type_: Some(value::Type::UintValue(*n)), ..Default::default() })).collect(),
          ..Default::default()
        })
        .into(),
        ..Default::default()
      });
    }
    let collector = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&collector.scope(""), &runtime));
    let (tx, uploads) = channel(64);
    let (engine, flushes) = WorkflowsEngine::new(&collector.scope(""), dir, &runtime, tx, dynamic.clone());
    Self { engine, collector, dynamic, flushes, uploads, _runtime: runtime }
  }

  pub fn log(&mut self, l: &L, session: &str, at_ms: i64, to: &[&'static str]) -> Out {
    let to: BTreeSet<Cow<'_, str>> = to.iter().map(|s| Cow::Borrowed(*s)).collect();
    let fields = FieldsRef::new(&l.captured, &l.matching);
    let r = self.engine.process_log(
      &LogRef {
        log_type: LogType(l.kind),
        log_level: l.level,
        message: &l.message,
        fields: &fields,
        session_id: session,
        occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::milliseconds(at_ms),
      },
      &to,
    );
    Out {
      actions: r.triggered_flush_buffers_action_ids.iter().map(|s| s.to_string()).collect(),
      flushed: r.triggered_flushes_buffer_ids.iter().map(|s| s.to_string()).collect(),
      goes_to: r.log_destination_buffer_ids.iter().map(|s| s.to_string()).collect(),
      shot: r.capture_screenshot,
    }
  }

  pub fn stat(&self, name: &str, label: &[(&str, &str)]) -> u64 {
    let labels = label.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>();
    self.collector.inner().find_counter(name, labels).map_or(u64::MAX, |c| c.get())
  }

  pub fn counted(&self, name: &str, label: &[(&str, &str)]) -> Option<u64> {
    let labels = label.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>();
    self.dynamic.collector_for_test().find_counter(name, labels).map(|c| c.get())
  }

  /// All metrics with this name that workflows made: counts, or the values of histograms.
  pub fn made(&self, name: &str) -> BTreeMap<BTreeMap<String, String>, Result<u64, Vec<f64>>> {
    let mut all = BTreeMap::new();
    self.dynamic.collector_for_test().retain(|id, m| {
      if id.name == name {
        let v = match m {
          MetricData::Counter(c) => Ok(c.get()),
          MetricData::Histogram(_) => Err(match m.to_proto() {
            Data::InlineHistogramValues(v) => v.values,
            _ => vec![],
          }),
        };
        all.insert(id.labels.clone(), v);
      }
      true
    });
    all
  }

  /// Lets the engine and its tasks go on until there is nothing left for them to do.
  pub async fn turns(&mut self) {
    tokio::select! {
      biased;
      () = mc::fut::settle() => {},
      () = self.engine.run() => {},
    }
  }
}

//
// What workflows do
//

/// The nodes of a path and whether each counts, and whether some are gone.
#[derive(Clone, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Path {
  pub nodes: Vec<(String, bool)>,
  pub trimmed: bool,
}

impl Path {
  pub fn names(&self) -> Vec<String> {
    self.nodes.iter().map(|n| n.0.clone()).collect()
  }
}

pub type Paths = BTreeMap<&'static str, Path>;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct One {
  /// Where, how many logs each of the transitions from there has seen, and what paths are under way.
  pub at: Vec<(usize, Vec<u32>, Paths)>,
  pub matched: u32,
  pub first: Option<i64>,
}

#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
pub struct Stats {
  pub run_starts: u64,
  pub run_advances: u64,
  pub run_completions: u64,
  pub run_stops: u64,
  pub starts: u64,
  pub advances: u64,
  pub completions: u64,
  pub stops: u64,
  pub matched: u64,
  pub resets: u64,
  pub limits: u64,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Model {
  pub runs: Vec<Vec<One>>,
  pub stats: Stats,
  pub session: String,
  pub limit: u32,
  /// The diagrams that the latest log led to.
  pub emitted: Vec<(Act, Path)>,
}

impl One {
  fn fresh(w: &Wf) -> Self {
    let n = w.states[0].len();
    Self { at: if n == 0 { vec![] } else { vec![(0, vec![0; n], Paths::new())] }, matched: 0, first: None }
  }
  pub fn initial(&self) -> bool {
    self.at.iter().all(|(s, c, _)| *s == 0 && c.iter().all(|n| *n == 0))
  }

  /// Every position sees the log; the one that came last goes first. Returns whether the run goes
  /// on, whether the log mattered, and which transitions were followed.
  fn see(&mut self, w: &Wf, l: &L, at: i64, st: &mut Stats) -> (bool, bool, Vec<(usize, usize)>, Vec<(Act, Path)>) {
    let mut followed = vec![];
    let mut emitted = vec![];
    let mut mattered = false;
    for i in (0 .. self.at.len()).rev() {
      let s = self.at[i].0;
      let mut next = vec![];
      let (mut hits, mut left) = (0, 0);
      for (t, tr) in w.states[s].iter().enumerate() {
        if tr.on.says(l) {
          hits += 1;
          self.at[i].1[t] += 1;
          if self.at[i].1[t] == tr.count {
            left += 1;
            followed.push((s, t));
            let paths = tr.follow(w, l, self.at[i].2.clone(), &mut emitted);
            let n = w.states[tr.to].len();
            if n > 0 {
              next.push((tr.to, vec![0; n], paths));
            }
          }
        }
      }
      self.matched += hits;
      st.matched += u64::from(hits);
      mattered |= hits > 0;
      let too_many = w.matched.is_some_and(|n| self.matched > n);
      let too_late = w.duration.is_some_and(|d| self.first.is_some_and(|f| at - f > d as i64));
      if too_many || too_late {
        return (false, mattered, vec![], vec![]);
      }
      if hits > 0 && self.first.is_none() {
        self.first = Some(at);
      }
      if left > 0 {
        st.advances += 1;
        if next.is_empty() {
          st.completions += 1;
        } else {
          st.starts += next.len() as u64 - 1;
        }
        self.at.splice(i ..= i, next);
      }
    }
    (true, mattered, followed, emitted)
  }
}

impl Model {
  pub fn new(wfs: &[Wf], limit: u32) -> Self {
    Self { runs: vec![vec![]; wfs.len()], stats: Stats::default(), session: String::new(), limit, emitted: vec![] }
  }

  pub fn alive(&self) -> u32 {
    self.runs.iter().flatten().map(|r| r.at.len() as u32).sum()
  }

  /// The transitions that are followed, by workflow.
  pub fn log(&mut self, wfs: &[Wf], l: &L, session: &str, at: i64) -> Vec<(usize, usize, usize)> {
    if self.session != session {
      if !self.session.is_empty() {
        self.runs.iter_mut().for_each(Vec::clear);
      }
      self.session = session.to_string();
    }
    let mut out = vec![];
    self.emitted.clear();
    for (k, w) in wfs.iter().enumerate() {
      let f = self.one(k, w, l, at);
      out.extend(f.into_iter().map(|(s, t)| (k, s, t)));
    }
    out
  }

  fn one(&mut self, k: usize, w: &Wf, l: &L, at: i64) -> Vec<(usize, usize)> {
    let mut total = self.alive();
    if !self.runs[k].iter().any(One::initial) {
      let run = One::fresh(w);
      let n = run.at.len() as u32;
      if total + n <= self.limit {
        self.stats.run_starts += 1;
        self.stats.starts += u64::from(n);
        total += n;
        if w.exclusive {
          self.runs[k].insert(0, run);
        } else {
          self.runs[k].push(run);
        }
      } else {
        self.stats.limits += 1;
      }
    }
    let runs = &mut self.runs[k];
    let st = &mut self.stats;
    let mut out = vec![];
    let mut mattered = false;
    for i in (0 .. runs.len()).rev() {
      let before = runs[i].at.len() as u32;
      let advances = st.advances;
      let (goes_on, m, followed, emitted) = runs[i].see(w, l, at, st);
      let after = runs[i].at.len() as u32;
      total = total + after - before;
      out.extend(followed);
      self.emitted.extend(emitted);
      if !goes_on || total > self.limit {
        st.run_stops += 1;
        st.stops += u64::from(after);
        st.limits += u64::from(total > self.limit);
        total -= after;
        runs.remove(i);
      } else if after == 0 {
        mattered = true;
        st.run_advances += 1;
        st.run_completions += 1;
        runs.remove(i);
      } else {
        mattered |= m;
        st.run_advances += u64::from(st.advances > advances);
      }
      if w.exclusive && runs.len() > 1 && mattered {
        if i > 0 {
          break;
        }
        let old = runs.remove(1);
        total -= old.at.len() as u32;
        st.run_stops += 1;
        st.stops += old.at.len() as u64;
        st.resets += 1;
      }
    }
    out
  }
}

/// That what the engine counted is what happened.
pub fn same_stats(rig: &Rig, want: Stats) -> Res {
  let op = |name: &str, op: &str| rig.stat(name, &[("operation", op)]);
  let got = Stats {
    run_starts: op("workflows:runs_total", "start"),
    run_advances: op("workflows:runs_total", "advance"),
    run_completions: op("workflows:runs_total", "completion"),
    run_stops: op("workflows:runs_total", "stop"),
    starts: op("workflows:traversals_total", "start"),
    advances: op("workflows:traversals_total", "advance"),
    completions: op("workflows:traversals_total", "completion"),
    stops: op("workflows:traversals_total", "stop"),
    matched: rig.stat("workflows:matched_logs_total", &[]),
    resets: rig.stat("workflows:workflow_resets_total", &[("type", "exclusive")]),
    limits: rig.stat("workflows:traversals_count_limit_hit_total", &[]),
  };
  same!("stats", got, want, "what the engine counted");
  Ok(())
}
