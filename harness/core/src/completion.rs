//! C13: completion signals.

use bd_completion::Sender;
use mc::{check, fut, same, th, Ctx, Opts, Res, Run};

pub fn c13(r: &mut Run) {
  r.explore(
    "signals",
    "a sender and a receiver in two threads; sent or dropped, received by blocking or by awaiting (or given up), any order",
    Opts::dev(r.by_tier(3, 6)),
    signals,
  );
}

fn signals(ctx: &Ctx) -> Res {
  let (send, how, drop_late) = (ctx.choose(3), ctx.choose(3), ctx.flip());
  ctx.say(|| format!("sender {}, receiver {}", ["sends", "drops", "sends from yet another thread"][send], ["blocks", "awaits", "gives up"][how]));
  ctx.state((send, how, drop_late));
  ctx.under(move || {
    let (tx, rx) = Sender::<u32>::new();
    let t = th::named("sender", move || {
      th::point();
      if drop_late {
        th::yield_now();
      }
      match send {
        0 => tx.send(7),
        1 => drop(tx),
        _ => {
          // The value travels even when its sender is in a hurry.
          th::spawn(move || tx.send(7)).join().unwrap();
        },
      }
    });
    th::point();
    let got = match how {
      0 => Some(rx.blocking_recv()),
      1 => Some(fut::block_on(rx.recv())),
      _ => {
        drop(rx);
        None
      },
    };
    if let Some(got) = got {
      if send == 1 {
        check!(got.is_err(), "made-up", "received {got:?}, which nobody sent");
      } else {
        same!("lost", got.ok(), Some(7), "what was received");
      }
    }
    t.join().unwrap();
    Ok(())
  })
}
