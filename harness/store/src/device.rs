//! C02: the device id.

use crate::disk::{Disk, Faults};
use bd_device::Device;
use mc::{check, same, th, Ctx, Opts, Res, Run};
use std::sync::Arc;

pub fn c02(r: &mut Run) {
  let (processes, calls) = r.by_tier((3, 3), (4, 4));
  r.explore(
    "restarts",
    &format!("{processes} processes of 1 to {calls} reads each, storage calls failing or the process dying before any of them"),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| restarts(ctx, processes, calls),
  );
  let n = r.by_tier(3, 4);
  r.explore(
    "concurrent",
    &format!("{n} threads of 2 reads each, every interleaving of their lock and storage operations, then a restart"),
    Opts::dev(r.by_tier(3, 4)),
    |ctx| concurrent(ctx, n),
  );
  r.explore("damaged", "stored ids that cannot be read", Opts::default(), |ctx| {
    let disk = Disk::new();
    disk.put_raw("device.state", *ctx.pick(&["", "A", "AQAAAAAAAAD/", "//////////8="]));
    let d = Device::new(disk.store());
    let id = d.id();
    check!(!id.is_empty(), "empty", "an empty device id");
    same!("stable", d.id(), id, "second read");
    same!("restart", Device::new(disk.store()).id(), id, "after a restart");
    ctx.step();
    ctx.state(1);
    Ok(())
  });
}

fn restarts(ctx: &Ctx, processes: usize, calls: usize) -> Res {
  let disk = Disk::faulty(ctx, Faults { read: true, write: true, delete: true });
  let mut last: Option<String> = None;
  let mut ids: Vec<String> = vec![];
  let mut fault_free = true;
  for _ in 0 .. processes {
    // The process may die before any of its storage calls.
    let dies = ctx.deviate(4);
    {
      let mut c = disk.c.lock().unwrap();
      c.dead_from = (dies > 0).then(|| c.ops + dies as u32 - 1);
    }
    let device = Device::new(disk.store());
    let n = 1 + ctx.choose(calls);
    let (writes, faults) = (disk.all_writes(), disk.faults_on("device.state"));
    let mut mine: Option<String> = None;
    for i in 0 .. n {
      let id = device.id();
      ctx.step();
      ctx.say(|| format!("read {i}: {id}"));
      check!(!id.is_empty(), "empty", "an empty device id");
      if let Some(m) = &mine {
        same!("stable", &id, m, "device id within a process");
      }
      mine = Some(id);
    }
    let clean = dies == 0 && disk.faults_on("device.state") == faults;
    let writes = disk.all_writes() - writes;
    check!(writes <= 1, "writes", "{writes} writes in one process");
    if clean {
      if fault_free {
        if let Some(l) = &last {
          same!("restart", mine.as_ref(), Some(l), "device id after a restart");
          same!("writes", writes, 0, "writes in a process that found the id");
        }
      }
      // What this process has, the storage has now.
      last.clone_from(&mine);
      fault_free = true;
    } else {
      fault_free = false;
    }
    ids.extend(mine);
    ctx.state((ids.iter().map(|i| ids.iter().position(|j| i == j)).collect::<Vec<_>>(), clean, disk.raw("device.state").is_some()));
  }
  Ok(())
}

fn concurrent(ctx: &Ctx, n: usize) -> Res {
  let c = ctx.clone();
  ctx.under(move || {
    let disk = Disk::with_points();
    let device = Arc::new(Device::new(disk.store()));
    let ts: Vec<_> = (0 .. n)
      .map(|i| {
        let d = device.clone();
        th::named(&format!("reader {i}"), move || [d.id(), d.id()])
      })
      .collect();
    let ids: Vec<String> = ts.into_iter().flat_map(|t| t.join().unwrap()).collect();
    c.say(|| format!("{ids:?}"));
    for id in &ids {
      same!("concurrent", id, &ids[0], "device ids of concurrent readers");
    }
    same!("writes", disk.all_writes(), 1, "writes");
    same!("restart", Device::new(disk.store()).id(), ids[0], "device id after a restart");
    Ok(())
  })
}
