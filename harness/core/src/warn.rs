//! C15: rate-limited warnings. The module is compiled here, so that its lock is under control.

#[allow(dead_code, unused)]
#[path = "../../../bd-log/src/rate_limit_log.rs"]
mod rate_limit_log;

use mc::{check, fut, same, th, Ctx, Opts, Res, Run};
use rate_limit_log::WarnTracker;
use std::sync::{Arc, Mutex};

pub fn c15(r: &mut Run) {
  let depth = r.by_tier(6, 8);
  r.explore("times", &format!("every sequence of {depth} warnings after pauses of 0, 1, 499, 500, 501, 999, 1000, 1001 and 5000 ms, with an interval of 1 s, 0 s or 100 days"), Opts::default(), |ctx| times(ctx, depth));
  let depth = r.by_tier(4, 5);
  r.explore("times-full", &format!("every sequence of {depth} of these, whatever states they reach"), Opts::default().full(), |ctx| times(ctx, depth));
  r.explore("concurrent", "3 threads, 2 warnings each, in one interval: every interleaving", Opts::dev(r.by_tier(3, 6)), concurrent);
}

fn times(ctx: &Ctx, depth: u32) -> Res {
  let rt = fut::runtime();
  let limit: i64 = *ctx.pick(&[1000, 0, 100 * 86_400_000]);
  rt.block_on(async {
    let t = WarnTracker::default();
    let mut since: Option<i64> = None;
    for left in (0 .. depth).rev() {
      let pause = *ctx.pick(&[0, 1, 499, 500, 501, 999, 1000, 1001, 5000]);
      ctx.step();
      tokio::time::advance(std::time::Duration::from_millis(pause as u64)).await;
      since = since.map(|s| s + pause);
      let got = t.should_warn(time::Duration::milliseconds(limit));
      ctx.say(|| format!("after {pause} ms: {got}"));
      let want = since.map_or(true, |s| s > limit);
      same!("rate", got, want, "whether to warn, {since:?} ms after the last, with an interval of {limit} ms");
      if want {
        since = Some(0);
      }
      if ctx.known((limit, since), left) {
        break;
      }
    }
    Ok(())
  })
}

fn concurrent(ctx: &Ctx) -> Res {
  ctx.under(|| {
    let t = Arc::new(WarnTracker::default());
    let n = Arc::new(Mutex::new(0));
    let ts: Vec<_> = (0 .. 3)
      .map(|_| {
        let (t, n) = (t.clone(), n.clone());
        th::spawn(move || {
          for _ in 0 .. 2 {
            th::point();
            if t.should_warn(time::Duration::days(10)) {
              *n.lock().unwrap() += 1;
            }
          }
        })
      })
      .collect();
    for t in ts {
      t.join().unwrap();
    }
    let n = *n.lock().unwrap();
    check!(n == 1, "rate", "{n} warnings in one interval");
    Ok(())
  })
}
