//! C35: what is recorded while others record and the flusher collects.

use crate::disk::{add, runtime, Disk, Flight, Process, Sum, Told, Val};
use bd_client_stats::file_manager::FileManager;
use bd_client_stats::stats::Flusher;
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{Collector, Counter, Histogram, MetricData};
use bd_time::TestTimeProvider;
use mc::fut::block_on;
use mc::{check, fail, same, th, Ctx, Opts, Res, Run};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use time::OffsetDateTime;
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
  /// A counter that is looked up for every increment.
  Looked,
  /// One that is held.
  Held,
  Histogram,
  HeldHistogram,
}

const TAGS: [(&str, &str); 1] = [("k", "v")];
fn tags() -> BTreeMap<String, String> {
  TAGS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// All collectors hold one metric, such that no order of a hash map matters.
fn recording(ctx: &Ctx, ways: &'static [(Way, u64)], flushes: usize) -> Res {
  ctx.state((ways, flushes));
  ctx.step();
  let ctx2 = ctx.clone();
  ctx.under(move || {
    let time = TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1000).unwrap());
    let runtime = runtime(Path::new("/nonexistent"), &[]);
    let (collector, other) = (Collector::default(), Collector::default());
    let dynamic = Arc::new(DynamicStats::new(&other.scope(""), &runtime));
    let shutdown = bd_shutdown::ComponentShutdownTrigger::default();
    let (flush, flush_rx) = mpsc::channel(4);
    let (upload, upload_rx) = mpsc::channel(4);
    let (tx, uploads) = mpsc::channel(8);
    let (trigger, trigger_rx) = FlushTrigger::new();
    let flusher = Flusher::new(
      Stats::new(collector.clone(), dynamic.clone()),
      shutdown.make_shutdown(),
      Told::new(flush_rx),
      trigger_rx,
      other.scope("stats").histogram("flush_time"),
      Told::new(upload_rx),
      tx,
      Arc::new(FileManager::new(Box::new(Disk::new(&ctx2, false)), Arc::new(time), &runtime).unwrap()),
    );
    let mut want = Sum::new();
    for (i, (way, n)) in ways.iter().enumerate() {
      for j in 0 .. *n {
        let v = (i as u64) * 10 + j + 1;
        match way {
          Way::Looked => add(&mut want, "c{\"k\": \"v\"}", &Val::Count(v)),
          Way::Held => add(&mut want, "s:c", &Val::Count(1)),
          Way::Histogram => add(&mut want, "h{\"k\": \"v\"}", &Val::Values(vec![v])),
          Way::HeldHistogram => add(&mut want, "s:h", &Val::Values(vec![v])),
        }
      }
    }
    for _ in 0 .. flushes {
      flush.try_send(()).unwrap();
    }
    let t = th::named("flusher", move || block_on(flusher.periodic_flush()));
    let recorders: Vec<_> = ways
      .iter()
      .enumerate()
      .map(|(i, (way, n))| {
        let (collector, dynamic) = (collector.clone(), dynamic.clone());
        th::named("recorder", move || {
          let held: Option<Counter> = (*way == Way::Held).then(|| collector.scope("s").counter("c"));
          let histogram: Option<Histogram> = (*way == Way::HeldHistogram).then(|| collector.scope("s").histogram("h"));
          for j in 0 .. *n {
            let v = (i as u64) * 10 + j + 1;
            match way {
              Way::Looked => dynamic.record_dynamic_counter("c", tags(), v),
              Way::Held => held.as_ref().unwrap().inc(),
              Way::Histogram => dynamic.record_dynamic_histogram("h", tags(), v as f64),
              Way::HeldHistogram => histogram.as_ref().unwrap().observe(v as f64),
            }
          }
        })
      })
      .collect();
    for r in recorders {
      r.join().unwrap();
    }
    let (tx, rx) = bd_completion::Sender::new();
    block_on(trigger.flush(Some(tx))).unwrap();
    let Ok(()) = block_on(rx.recv()) else { fail!("completion", "the flush does not say that it is done") };
    block_on(upload.send(())).unwrap();
    let mut uploads = uploads;
    let Some(bd_api::DataUpload::StatsUploadRequest(u)) = block_on(uploads.recv()) else { fail!("upload", "no upload") };
    same!("sum", crate::disk::read(&u.payload)?.sum, want, "stats that are uploaded of those that were recorded");
    block_on(shutdown.shutdown());
    t.join().unwrap();
    Ok(())
  })
}

/// What is kept is never more than the limit allows, and what is not kept is counted.
fn limit(ctx: &Ctx) -> Res {
  let limit = ctx.choose(3) as u32;
  let kinds: [usize; 3] = [ctx.choose(2), ctx.choose(2), ctx.choose(2)];
  ctx.state((limit, kinds));
  ctx.step();
  ctx.under(move || {
    let runtime = runtime(Path::new("/nonexistent"), &[("stats.max_dynamic_stats", limit)]);
    let other = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&other.scope(""), &runtime));
    let ts: Vec<_> = kinds
      .iter()
      .map(|k| {
        let (k, dynamic) = (*k, dynamic.clone());
        th::spawn(move || {
          for _ in 0 .. 2 {
            dynamic.record_dynamic_counter(["a", "b"][k], tags(), 1);
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let mut kept = BTreeMap::new();
    dynamic.collector_for_test().retain(|id, m| {
      if let MetricData::Counter(c) = m {
        kept.insert(id.name.clone(), c.get());
      }
      true
    });
    let all: std::collections::BTreeSet<_> = kinds.iter().collect();
    same!("limit", kept.len(), all.len().min(limit as usize), "metrics that are kept with a limit of {limit}, of {}", all.len());
    let over = other.scope("stats").counter("dynamic_stats_overflow").get();
    same!("overflow", kept.values().sum::<u64>() + over, 6, "recordings in {kept:?}, and {over} that overflowed");
    for (k, n) in &kept {
      let of = kinds.iter().filter(|i| ["a", "b"][**i] == k.as_str()).count() as u64 * 2;
      check!(*n == of || of > *n && limit > 0 && *n > 0, "kept", "{n} of {of} recordings of {k}");
      if all.len() <= limit as usize {
        same!("kept", *n, of, "recordings of {k}");
      }
    }
    Ok(())
  })
}

//
// One after another
//

const NAMES: [&str; 3] = ["a", "b", "c"];

#[derive(Clone, Debug, Hash, Default)]
struct Kept {
  /// Value since the last flush, and how often it is held.
  counters: BTreeMap<usize, (u64, usize)>,
  over: u64,
  limit: usize,
}

/// Which metrics are kept: those in use, and those recorded since the last flush.
fn kept(ctx: &Ctx, depth: u32) -> Res {
  let limits = [1usize, 2, 0];
  mc::fut::runtime().block_on(async {
    let disk = Disk::new(ctx, false);
    let time = TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1000).unwrap());
    let flags = |n: usize| vec![("stats.max_dynamic_stats", n as u32)];
    let mut p = Process::new(Box::new(disk), &time, &flags(limits[0]));
    let scope = p.dynamic.collector_for_test().scope("d");
    let mut m = Kept { limit: limits[0], ..Kept::default() };
    let mut held: Vec<(usize, Counter)> = vec![];
    let mut total: BTreeMap<usize, u64> = BTreeMap::new();
    for left in (1 ..= depth).rev() {
      if ctx.known(&(&m, held.iter().map(|h| h.0).collect::<Vec<_>>()), left) {
        return Ok(());
      }
      ctx.state(&m);
      ctx.step();
      let mut ops: Vec<(&str, usize)> = vec![("flush", 0)];
      for i in 0 .. NAMES.len() {
        ops.push(("record", i));
        if held.len() < 2 {
          ops.push(("hold", i));
        }
      }
      for i in 0 .. held.len() {
        ops.extend([("inc", i), ("drop", i)]);
      }
      ops.extend((0 .. limits.len()).filter(|i| limits[*i] != m.limit).map(|i| ("limit", i)));
      let (op, i) = *ctx.pick(&ops);
      ctx.say(|| format!("{op} {}", NAMES[i]));
      let room = |m: &Kept, i: usize| m.counters.contains_key(&i) || m.counters.len() < m.limit;
      match op {
        "flush" => {
          p.flush.try_send(()).unwrap();
          m.counters.retain(|i, (n, held)| {
            *total.entry(*i).or_default() += *n;
            let keep = *n > 0 || *held > 0;
            *n = 0;
            keep
          });
        },
        "record" => {
          p.dynamic.record_dynamic_counter(&format!("d:{}", NAMES[i]), BTreeMap::new(), 2);
          if room(&m, i) {
            m.counters.entry(i).or_default().0 += 2;
          } else {
            m.over += 1;
          }
        },
        "hold" => match scope.counter(NAMES[i]) {
          Ok(c) => {
            check!(room(&m, i), "limit", "{} is one more than {}", NAMES[i], m.limit);
            m.counters.entry(i).or_default().1 += 1;
            held.push((i, c));
          },
          Err(e) => check!(!room(&m, i), "limit", "{} is refused: {e}, with {:?}", NAMES[i], m),
        },
        "inc" => {
          held[i].1.inc();
          m.counters.get_mut(&held[i].0).unwrap().0 += 1;
        },
        "drop" => {
          let (i, _) = held.remove(i);
          m.counters.get_mut(&i).unwrap().1 -= 1;
        },
        _ => {
          m.limit = limits[i];
          p.set_flags(&flags(m.limit));
        },
      }
      p.settle().await?;
      for (i, name) in NAMES.iter().enumerate() {
        let got = p.dynamic.collector_for_test().find_counter(&format!("d:{name}"), BTreeMap::new()).map(|c| c.get());
        same!("kept", got, m.counters.get(&i).map(|c| c.0), "value of {name} since the last flush");
      }
    }
    // All that was recorded is uploaded.
    p.flush.try_send(()).unwrap();
    p.settle().await?;
    p.flush.try_send(()).unwrap();
    p.settle().await?;
    p.upload.try_send(()).unwrap();
    p.settle().await?;
    let Some(f) = Flight::take(&mut p)? else { fail!("upload", "no upload") };
    for (i, name) in NAMES.iter().enumerate() {
      let want = total.get(&i).copied().unwrap_or_default() + m.counters.get(&i).map_or(0, |c| c.0);
      let got = f.sent.sum.get(&format!("d:{name}")).cloned();
      same!("sum", got, (want > 0).then_some(Val::Count(want)), "what is uploaded of {name}");
    }
    let over = f.sent.sum.get("stats:dynamic_stats_overflow").cloned();
    same!("overflow", over, (m.over > 0).then_some(Val::Count(m.over)), "recordings that overflowed");
    Ok(())
  })
}

pub fn c35(r: &mut Run) {
  crate::disk::silent();
  let pre = r.by_tier(2, 3);
  use Way::*;
  let shapes: &'static [&'static [(Way, u64)]] = &[
    &[(Looked, 2)],
    &[(Looked, 1), (Looked, 2)],
    &[(Held, 2), (Held, 1)],
    &[(Histogram, 2), (Histogram, 1)],
    &[(HeldHistogram, 4), (HeldHistogram, 3)],
    &[(Held, 2), (Looked, 2)],
    &[(HeldHistogram, 2), (Histogram, 2)],
  ];
  r.explore(
    "recording",
    &format!("recorders of 7 kinds (counters and histograms that are held or looked up) against a flusher that flushes 2 times meanwhile; all schedules of {pre} preemptions"),
    Opts::dev(pre).threads(4),
    |ctx| {
      let ways = *ctx.pick(shapes);
      recording(ctx, ways, 2)
    },
  );
  r.explore(
    "limit",
    &format!("3 recorders of 2 metrics, limits of 0 to 2; all schedules of {pre} preemptions"),
    Opts::dev(pre).threads(4),
    limit,
  );
  let depth = r.by_tier(6, 8);
  r.explore(
    "kept",
    &format!("{depth} steps of: record, hold, increment or drop a counter of 3, flush, another limit (of 0, 1, 2)"),
    Opts::default(),
    |ctx| kept(ctx, depth),
  );
}
