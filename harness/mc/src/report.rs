use crate::{explore, replay, Ctx, Opts, Outcome, Progress, Res};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

pub fn json(s: &str) -> String {
  let mut out = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      c if (c as u32) < 0x20 => {
        let _ = write!(out, "\\u{:04x}", c as u32);
      },
      c => out.push(c),
    }
  }
  out.push('"');
  out
}

struct Scenario {
  name: String,
  bounds: String,
  out: Outcome,
  secs: f64,
}

/// One check of one property: scenarios explored one after another, and their account.
pub struct Run {
  pub prop: String,
  thorough: bool,
  seed: u64,
  verif: PathBuf,
  known: HashSet<String>,
  start: Instant,
  scenarios: Vec<Scenario>,
  assumptions: Vec<String>,
  pub(crate) progress: Box<dyn Progress>,
  pub(crate) only: Option<(String, Vec<u16>)>,
  pub(crate) replayed: Option<(Res, Vec<String>)>,
  violated: bool,
  deadline: f64,
}

impl Run {
  pub(crate) fn new(prop: &str, progress: Box<dyn Progress>) -> Self {
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = std::fs::read_to_string(verif.join("known_findings.txt"))
      .unwrap_or_default()
      .lines()
      .filter_map(|l| l.strip_prefix("finding: property="))
      .filter_map(|l| l.split_once(' '))
      .filter(|(p, _)| *p == prop)
      .filter_map(|(_, r)| r.strip_prefix("key=").and_then(|r| r.split_once(' ').map(|x| x.0.to_string())))
      .collect();
    Self {
      prop: prop.to_string(),
      thorough,
      seed,
      verif,
      known,
      start: Instant::now(),
      scenarios: vec![],
      assumptions: vec![],
      progress,
      only: None,
      replayed: None,
      violated: false,
      deadline: if thorough { 6.0 * 3600.0 } else { 400.0 },
    }
  }

  #[must_use]
  pub fn thorough(&self) -> bool {
    self.thorough
  }

  /// `quick` or `thorough`, as the tier is.
  pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough { thorough } else { quick }
  }

  pub fn assume(&mut self, s: &str) {
    self.assumptions.push(s.to_string());
  }

  pub fn explore(&mut self, name: &str, bounds: &str, mut opts: Opts, f: impl Fn(&Ctx) -> Res + Sync) {
    if let Some((only, choices)) = &self.only {
      if only == name {
        self.progress.at(0, name, choices);
        self.replayed = Some(replay(&f, choices.clone()));
      }
      return;
    }
    if self.violated {
      return;
    }
    if let Ok(t) = std::env::var("MC_SCENARIO") {
      if !name.contains(&t) {
        return;
      }
    }
    let left = self.deadline - self.start.elapsed().as_secs_f64();
    opts.max_secs = opts.max_secs.min(left.max(1.0) as u64);
    let t = Instant::now();
    let out = explore(name, &opts, &self.known, &*self.progress, &f);
    let secs = t.elapsed().as_secs_f64();
    println!(
      "{} {name}: {} executions, {} states, {} transitions, {} choices deep{}{} in {secs:.1} s",
      self.prop,
      out.executions,
      out.states,
      out.transitions,
      out.max_choices,
      if out.complete { ", complete within bounds" } else { ", NOT complete" },
      if out.diverged > 0 { format!(", {} diverged", out.diverged) } else { String::new() },
    );
    if let Some((v, choices, says)) = &out.violation {
      self.violated = true;
      let (v, choices, says) = (v.clone(), choices.clone(), says.clone());
      violation(&self.verif, &self.prop, name, &v.key, &v.msg, &choices, &says);
    }
    let bounds = format!("{bounds}; deviations <= {}", opts.deviations);
    self.scenarios.push(Scenario { name: name.to_string(), bounds, out, secs });
  }

  /// Writes the evidence; the exit code.
  pub(crate) fn finish(&self) -> i32 {
    let mut known = BTreeMap::new();
    for s in &self.scenarios {
      for (k, (m, n)) in &s.out.known {
        let e = known.entry(k.clone()).or_insert((m.clone(), 0));
        e.1 += n;
      }
    }
    for (k, (m, n)) in &known {
      println!("KNOWN-FINDING: property={} {k}: {m} ({n} executions)", self.prop);
    }
    let sum = |f: &dyn Fn(&Outcome) -> u64| self.scenarios.iter().map(|s| f(&s.out)).sum::<u64>();
    let mut samples: Vec<String> = vec![];
    for s in &self.scenarios {
      samples.extend(s.out.sample.iter().take(3).map(|x| json(x)));
    }
    samples.truncate(40);
    let scenarios: Vec<String> = self
      .scenarios
      .iter()
      .map(|s| {
        format!(
          "{{\"name\": {}, \"bounds\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"longest_choice_sequence\": {}, \"complete\": {}, \"unexplored_prefixes\": {}, \"diverged\": {}, \"wall_s\": {:.2}}}",
          json(&s.name), json(&s.bounds), s.out.executions, s.out.states, s.out.transitions, s.out.max_choices,
          s.out.complete, s.out.stack_left, s.out.diverged, s.secs
        )
      })
      .collect();
    let text = format!(
      "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"executions\": {},\n    \"exhaustive\": {},\n    \"rule\": \"every execution ran the code of the current tree itself; states are distinct abstract states of the reference model or observation that the scenarios name, transitions are operations or scheduled steps performed, and an execution that reached its end without disagreement is a validated trace\",\n    \"scenarios\": [\n      {}\n    ],\n    \"known_findings_hit\": [{}],\n    \"samples\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"violations\": {},\n  \"wall_s\": {:.2}\n}}\n",
      json(&self.prop),
      if self.thorough { "thorough" } else { "quick" },
      self.seed,
      sum(&|o| o.states),
      sum(&|o| o.transitions),
      sum(&|o| o.executions) - sum(&|o| o.known.values().map(|k| k.1).sum::<u64>()) - u64::from(self.violated),
      sum(&|o| o.executions),
      self.scenarios.iter().all(|s| s.out.complete) && !self.violated,
      scenarios.join(",\n      "),
      known.iter().map(|(k, (m, n))| json(&format!("{k}: {m} ({n})"))).collect::<Vec<_>>().join(", "),
      samples.join(",\n      "),
      self.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
      u32::from(self.violated),
      self.start.elapsed().as_secs_f64(),
    );
    let dir = self.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", self.prop)), text).unwrap();
    i32::from(self.violated)
  }
}

pub(crate) fn violation(verif: &std::path::Path, prop: &str, scenario: &str, key: &str, msg: &str, choices: &[u16], says: &[String]) {
  let dir = verif.join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let path = dir.join(format!("{prop}-{:016x}.txt", crate::hash_of((scenario, choices))));
  let mut t = format!(
    "property: {prop}\nscenario: {scenario}\nchoices: {}\nkey: {key}\nviolation: {msg}\n# ./check.sh {prop} --replay {} runs this again\n",
    choices.iter().map(ToString::to_string).collect::<Vec<_>>().join(" "),
    path.display()
  );
  for s in says {
    let _ = writeln!(t, "  {s}");
  }
  let _ = std::fs::write(&path, &t);
  println!("{scenario}: [{key}] {msg}");
  for s in says.iter().take(60) {
    println!("    {s}");
  }
  println!("VIOLATION property={prop} replay={}", path.display());
}
