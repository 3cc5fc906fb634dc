//! C14: server metrics.

use bd_server_stats::stats::{
  AutoGauge, Collector, CounterWrapper, GatherMetrics, LateInitializedCounter, LateInitializedGauge, LateInitializedHistogram, StackAutoGauge,
};
use mc::{check, same, th, Ctx, Opts, Res, Run};
use prometheus::proto::{MetricFamily, MetricType};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Labels = BTreeMap<String, String>;

pub fn c14(r: &mut Run) {
  r.assume("the prometheus library keeps what is registered with it");
  let depth = r.by_tier(3, 4);
  r.explore(
    "scopes",
    &format!("every sequence of {depth} operations: sub-scopes (2 names, the empty one, 3 sets of labels) and counters, gauges, histograms with own labels or not, each used"),
    Opts::default(),
    |ctx| scopes(ctx, depth),
  );
  let depth = r.by_tier(5, 6);
  r.explore(
    "labels",
    &format!("every sequence of {depth} first uses of labeled metrics of 3 types with 2 x 3 label values, and limits of 0 to 6"),
    Opts::default(),
    |ctx| labels(ctx, depth),
  );
  let depth = r.by_tier(3, 4);
  r.explore("labels-full", &format!("every sequence of {depth} of these, whatever states they reach"), Opts::default().full(), |ctx| labels(ctx, depth));
  r.explore(
    "concurrent-metrics",
    "3 threads that make and increment one counter, gauge or histogram, two counters that differ in labels or name, while metrics are gathered: every interleaving",
    Opts::dev(r.by_tier(2, 4)),
    concurrent,
  );
  r.explore(
    "concurrent-labels",
    "3 threads that use labeled metrics for the first time, the same labels or different ones, limits around their number: every interleaving",
    Opts::dev(r.by_tier(3, 5)),
    concurrent_labels,
  );
  r.explore("gather", "0 to 3 callbacks, 0 to 2 chained collectors, each of which has metrics or none; 2 gathers", Opts::default(), gather);
  r.explore("auto-gauges", "every nesting of up to 4 gauges that count what is alive, in 2 threads", Opts::dev(r.by_tier(2, 4)), auto);
}

fn flat(fs: &[MetricFamily]) -> BTreeMap<(String, Labels), (MetricType, f64)> {
  let mut out = BTreeMap::new();
  for f in fs {
    for m in f.get_metric() {
      let labels = m.get_label().iter().map(|l| (l.get_name().to_string(), l.get_value().to_string())).collect();
      let v = match f.get_field_type() {
        MetricType::COUNTER => m.get_counter().get_value(),
        MetricType::GAUGE => m.get_gauge().get_value(),
        _ => m.get_histogram().get_sample_count() as f64,
      };
      let old = out.insert((f.get_name().to_string(), labels), (f.get_field_type(), v));
      assert!(old.is_none(), "a metric is there twice: {}", f.get_name());
    }
  }
  out
}

fn lbl(i: usize) -> HashMap<String, String> {
  match i {
    0 => HashMap::new(),
    1 => [("a".to_string(), "1".to_string())].into(),
    2 => [("a".to_string(), "2".to_string()), ("b".to_string(), "3".to_string())].into(),
    _ => [("b".to_string(), "4".to_string())].into(),
  }
}

fn scopes(ctx: &Ctx, depth: u32) -> Res {
  let c = Collector::default();
  let root = *ctx.pick(&["", "top"]);
  let mut at = vec![(c.scope(root), root.to_string(), Labels::new())];
  let mut want: BTreeMap<(String, Labels), (MetricType, f64)> = BTreeMap::new();
  let full = |scope: &str, name: &str| if scope.is_empty() { name.to_string() } else { format!("{scope}:{name}") };
  let mut handles = vec![];
  for _ in 0 .. depth {
    let here = ctx.choose(at.len());
    let (scope, name, labels) = at[here].clone();
    ctx.step();
    match ctx.choose(4) {
      0 => {
        let (ext, l) = (*ctx.pick(&["x", "y", ""]), ctx.choose(4));
        ctx.say(|| format!("sub-scope {ext:?} of {name:?} with {:?}", lbl(l)));
        let s = if l == 0 && ctx.flip() { scope.scope(ext) } else { scope.scope_with_labels(ext, lbl(l)) };
        let mut labels = labels.clone();
        labels.extend(lbl(l));
        at.push((s, if ext.is_empty() { name.clone() } else { full(&name, ext) }, labels));
      },
      k => {
        let m = *ctx.pick(&["m", "n"]);
        // The same name means the same type here.
        let metric = format!("{m}{k}");
        let id = full(&name, &metric);
        ctx.say(|| format!("metric {metric} of {name:?} with {labels:?}"));
        let mut l = labels.clone();
        let own = if k == 1 { ctx.choose(4) } else { 0 };
        l.extend(lbl(own));
        // prometheus has one set of label names for all of one name: others cannot be registered.
        let names = |l: &Labels| l.keys().cloned().collect::<BTreeSet<_>>();
        if want.keys().any(|(n, x)| *n == id && names(x) != names(&l)) {
          return Ok(());
        }
        let t = match k {
          1 => {
            let counter = if own == 0 { scope.counter(&metric) } else { scope.counter_with_labels(&metric, lbl(own)) };
            counter.inc();
            CounterWrapper::make_dyn(counter.clone()).inc_by(2);
            CounterWrapper::make_dyn(counter).inc();
            MetricType::COUNTER
          },
          2 => {
            scope.gauge(&metric).add(4);
            MetricType::GAUGE
          },
          _ => {
            let h = if ctx.flip() { scope.histogram(&metric) } else { scope.histogram_with_buckets(&metric, &[1.0, 2.0]) };
            for _ in 0 .. 4 {
              h.observe(1.5);
            }
            MetricType::HISTOGRAM
          },
        };
        want.entry((id, l)).or_insert((t, 0.0)).1 += 4.0;
        handles.push(());
      },
    }
    let mut got = flat(&c.gather());
    got.retain(|(n, _), _| !n.starts_with("stats:label_tracker"));
    ctx.state(format!("{got:?}"));
    same!("metrics", got, want, "metrics gathered");
  }
  // The text form has every metric by its name.
  let text = String::from_utf8(c.prometheus_output()).unwrap();
  for (n, _) in want.keys() {
    check!(text.contains(n.as_str()), "text", "{n} is not in the text: {text}");
  }
  Ok(())
}

const NAMES: [&str; 2] = ["p", "q"];

fn labels(ctx: &Ctx, depth: u32) -> Res {
  let limit = *ctx.pick(&[2u64, 0, 1, 3, 4, 6]);
  let c = Collector::new_with_label_limit(limit);
  let b = c.scope("s").labeled_metric_builder(&NAMES);
  let (lc, lg, lh) = (b.build_counter("c"), b.build_gauge("g"), b.build_histogram("h"));
  let mut known: BTreeSet<(usize, &str)> = BTreeSet::new();
  let mut want: BTreeMap<(String, Labels), (MetricType, f64)> = BTreeMap::new();
  let mut overflow = 0.0;
  for left in (0 .. depth).rev() {
    ctx.step();
    let (kind, p, q) = (ctx.choose(3), *ctx.pick(&["1", "2"]), *ctx.pick(&["1", "2", "3"]));
    ctx.say(|| format!("first use of {kind} with {p}, {q}"));
    let vals = vec![p, q];
    let other = vec!["other", "1"];
    // Labels are fixed on first use.
    let (name, t) = match kind {
      0 => {
        let mut m: LateInitializedCounter = lc.new_metric();
        m.get(&vals).inc();
        m.get(&other).inc();
        ("s:c", MetricType::COUNTER)
      },
      1 => {
        let mut m: LateInitializedGauge = lg.new_metric();
        m.get(&vals).inc();
        m.get(&other).inc();
        ("s:g", MetricType::GAUGE)
      },
      _ => {
        let mut m: LateInitializedHistogram = lh.new_metric();
        m.get(&vals).observe(1.0);
        m.get(&other).observe(1.0);
        ("s:h", MetricType::HISTOGRAM)
      },
    };
    let mut over = false;
    for (i, v) in vals.iter().enumerate() {
      if !known.contains(&(i, *v)) {
        if (known.len() as u64) < limit {
          known.insert((i, *v));
        } else {
          over = true;
          break;
        }
      }
    }
    let l: Labels = NAMES.iter().zip(&vals).map(|(n, v)| ((*n).to_string(), if over { "label_overflow".to_string() } else { (*v).to_string() })).collect();
    want.entry((name.to_string(), l)).or_insert((t, 0.0)).1 += 2.0;
    if over {
      overflow += 1.0;
    }
    let mut got = flat(&c.gather());
    let o = got.remove(&("stats:label_tracker:label_overflow".to_string(), Labels::new())).map(|x| x.1);
    same!("labeled", got, want, "labeled metrics with a limit of {limit}");
    same!("overflows", o, Some(overflow), "label overflows counted");
    if ctx.known((limit, &known), left) {
      break;
    }
  }
  Ok(())
}

fn concurrent(ctx: &Ctx) -> Res {
  let kind = ctx.choose(6);
  let gathers = ctx.flip();
  ctx.state((kind, gathers));
  ctx.say(|| format!("3 threads, {kind}"));
  ctx.under(move || {
    let c = Collector::default();
    let ts: Vec<_> = (0 .. 3)
      .map(|i| {
        let c = c.clone();
        th::spawn(move || {
          let s = c.scope("s");
          if gathers && i == 2 {
            let got = flat(&c.gather());
            let n: f64 = got.iter().filter(|(k, _)| k.0.starts_with("s:")).map(|(_, v)| v.1).sum();
            assert!(n <= 2.0);
            return;
          }
          match kind {
            0 => s.counter("x").inc(),
            1 => s.gauge("x").inc(),
            2 => s.histogram("x").observe(0.1),
            3 => s.counter_with_labels("x", [("l".to_string(), (i % 2).to_string())].into()).inc(),
            4 => s.counter(&format!("x{i}")).inc(),
            _ => s.scope_with_labels("t", [("l".to_string(), (i % 2).to_string())].into()).histogram_with_buckets("x", &[1.0]).observe(0.1),
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let mut want = 3.0;
    if gathers {
      want = 2.0;
    }
    let got = flat(&c.gather());
    let n: f64 = got.iter().filter(|(k, _)| k.0.starts_with("s:")).map(|(_, v)| v.1).sum();
    same!("lost", n, want, "all increments, in {got:?}");
    Ok(())
  })
}

fn concurrent_labels(ctx: &Ctx) -> Res {
  let limit = *ctx.pick(&[2u64, 1, 3, 6, 0]);
  let same_labels = ctx.flip();
  ctx.state((limit, same_labels));
  ctx.under(move || {
    let c = Collector::new_with_label_limit(limit);
    let m = c.scope("s").labeled_metric_builder(&["p"]).build_counter("c");
    let ts: Vec<_> = (0 .. 3)
      .map(|i| {
        let m = m.clone();
        th::spawn(move || {
          let mut x: LateInitializedCounter = m.new_metric();
          let v = if same_labels { "v".to_string() } else { format!("v{i}") };
          x.get(&v).inc();
          x.get(&v).inc();
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let got = flat(&c.gather());
    let series: Vec<_> = got.iter().filter(|(k, _)| k.0 == "s:c").collect();
    let n: f64 = series.iter().map(|(_, v)| v.1).sum();
    same!("lost", n, 6.0, "all increments, in {got:?}");
    // The limit is not exact: as many more as there are others at the same point.
    let own = series.iter().filter(|(k, _)| k.1.get("p").is_some_and(|v| v != "label_overflow")).count() as u64;
    let overs: f64 = got.iter().filter(|(k, _)| k.0 == "stats:label_tracker:label_overflow").map(|(_, v)| v.1).sum();
    let all = if same_labels { 1 } else { 3 };
    check!(own <= (limit + 2).min(all) && (limit > 0 || own == 0), "limit", "{own} label values with a limit of {limit}");
    check!(own >= limit.min(all), "limit", "only {own} label values with a limit of {limit}");
    if limit >= 3 {
      same!("overflows", overs, 0.0, "overflows with a limit that is not reached");
    }
    if !same_labels {
      same!("overflows", overs, (3 - own) as f64, "overflows counted, with {own} of 3 label values kept");
    }
    Ok(())
  })
}

struct Fixed(Collector, Arc<AtomicUsize>);
impl GatherMetrics for Fixed {
  fn gather(&self) -> Vec<MetricFamily> {
    self.1.fetch_add(1, SeqCst);
    self.0.gather()
  }
}

fn gather(ctx: &Ctx) -> Res {
  let c = Collector::default();
  let order = Arc::new(Mutex::new(vec![]));
  let (callbacks, chained) = (ctx.choose(4), ctx.choose(3));
  ctx.state((callbacks, chained));
  ctx.step();
  let g = c.scope("own").gauge("seen");
  for i in 0 .. callbacks {
    let (o, g) = (order.clone(), g.clone());
    c.add_gather_callback(move || {
      o.lock().unwrap().push(i);
      g.inc();
    });
  }
  let asked = Arc::new(AtomicUsize::new(0));
  for i in 0 .. chained {
    let other = Collector::default();
    if ctx.flip() {
      other.scope("chained").counter(&format!("c{i}")).inc();
    }
    c.chain(Arc::new(Fixed(other, asked.clone())));
  }
  for n in 1 .. 3 {
    let out = if n == 1 { c.gather() } else { c.gather() };
    let count = |name: &str| out.iter().filter(|f| f.get_name() == name).count();
    same!("callbacks", order.lock().unwrap().len(), n * callbacks, "calls of the callbacks after {n} gathers");
    same!("chained", asked.load(SeqCst), n * chained, "questions to the chained collectors after {n} gathers");
    same!("chained", count("stats:label_tracker:label_overflow"), 1 + chained, "the metric that each collector has");
    // What the callbacks update is what is gathered.
    let seen = out.iter().find(|f| f.get_name() == "own:seen").map(|f| f.get_metric()[0].get_gauge().get_value());
    same!("stale", seen, Some((n * callbacks) as f64), "gauge that the callbacks update");
  }
  let text = c.prometheus_output();
  same!("callbacks", order.lock().unwrap().len(), 3 * callbacks, "calls of the callbacks by the text form");
  check!(!text.is_empty(), "text", "no text");
  Ok(())
}

fn auto(ctx: &Ctx) -> Res {
  let shape = [ctx.choose(3), ctx.choose(3)];
  ctx.state(shape);
  ctx.under(move || {
    let g = Collector::default().scope("s").gauge("live");
    let live = Arc::new(AtomicUsize::new(0));
    let ts: Vec<_> = shape
      .into_iter()
      .map(|n| {
        let (g, live) = (g.clone(), live.clone());
        th::spawn(move || {
          let mut owned = vec![];
          for i in 0 .. n {
            let a = StackAutoGauge::new(&g);
            live.fetch_add(2, SeqCst);
            owned.push(AutoGauge::new(g.clone()));
            th::point();
            assert_eq!(g.get() as usize, live.load(SeqCst), "gauge of what is alive");
            drop(a);
            live.fetch_sub(1, SeqCst);
            if i == 1 {
              owned.pop();
              live.fetch_sub(1, SeqCst);
            }
          }
          th::point();
          live.fetch_sub(owned.len(), SeqCst);
          drop(owned);
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    same!("gauge", g.get(), 0, "gauge when nothing is alive");
    Ok(())
  })
}
