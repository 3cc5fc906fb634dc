//! C10: configuration that is reloaded when its directory is renamed into place.

use bd_runtime_config::loader::{ConfigPtr, Loader, StatsCallbacks, WatchedFileLoader};
use mc::{check, fut, same, th, Ctx, Opts, Res, Run, Scratch};
use notify::event::{AccessKind, CreateKind, DataChange, ModifyKind, RemoveKind, RenameMode};
use notify::{staged, Event, EventKind};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, Weak};

#[derive(serde::Deserialize)]
struct Cfg {
  v: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum On {
  Valid(u32),
  Broken,
  WrongType,
  Empty,
  NotText,
  Missing,
}
impl On {
  fn means(self) -> Option<u32> {
    if let On::Valid(v) = self { Some(v) } else { None }
  }
}

#[derive(Default, Clone, Debug, PartialEq, Eq)]
struct Counts {
  success: u32,
  failure: u32,
  io: u32,
}
#[derive(Clone, Default)]
struct Stats(Arc<Mutex<Counts>>);
impl StatsCallbacks for Stats {
  fn on_deserialize_success(&self) {
    self.0.lock().unwrap().success += 1;
  }
  fn on_deserialize_failure(&self) {
    self.0.lock().unwrap().failure += 1;
  }
  fn on_io_failure(&self) {
    self.0.lock().unwrap().io += 1;
  }
}

fn put(dir: &Path, c: On) {
  let f = dir.join("foo.yaml");
  let tmp = dir.join("tmp");
  match c {
    On::Valid(v) => std::fs::write(&tmp, format!("v: {v}\n")).unwrap(),
    On::Broken => std::fs::write(&tmp, "v: [1\n").unwrap(),
    On::WrongType => std::fs::write(&tmp, "v: -1\n").unwrap(),
    On::Empty => std::fs::write(&tmp, "").unwrap(),
    On::NotText => std::fs::write(&tmp, [b'v', b':', 0xff, 0xfe]).unwrap(),
    On::Missing => {
      let _ = std::fs::remove_file(&f);
      return;
    },
  }
  std::fs::rename(tmp, f).unwrap();
}

fn renamed() -> Event {
  Event::new(EventKind::Modify(ModifyKind::Name(RenameMode::Both)))
}
fn junk(i: usize) -> Event {
  Event::new(
    [
      EventKind::Modify(ModifyKind::Data(DataChange::Any)),
      EventKind::Create(CreateKind::File),
      EventKind::Modify(ModifyKind::Name(RenameMode::From)),
      EventKind::Modify(ModifyKind::Name(RenameMode::To)),
      EventKind::Remove(RemoveKind::File),
      EventKind::Access(AccessKind::Any),
      EventKind::Any,
      EventKind::Other,
    ][i],
  )
}

struct World {
  on: On,
  next: u32,
  was: Vec<Option<u32>>,
  // Swaps whose events are still to come.
  owed: u32,
  kinds: Counts,
  watched: Option<Weak<staged::Watched>>,
}

pub fn c10(r: &mut Run) {
  r.assume("the watcher reports every rename after it happened, and nothing else is assumed of it; events are made in its place");
  let depth = r.by_tier(3, 5);
  r.explore(
    "swaps",
    &format!("every sequence of {depth} swaps (6 contents), partial writes, unrelated events (8 kinds), watcher errors and pauses, with further swaps around the start of the watch and in the middle of a load"),
    Opts::dev(r.by_tier(1, 2)),
    |ctx| swaps(ctx, depth),
  );
  r.explore(
    "burst",
    "20 swaps, each with its event, while the loader loads: every interleaving of the watcher's thread with the loader's",
    Opts::dev(r.by_tier(1, 2)),
    |ctx| burst(ctx, 20),
  );
  r.explore(
    "few-swaps",
    "3 swaps, each with its event, while the loader loads: every interleaving of the watcher's thread with the loader's",
    Opts::dev(r.by_tier(3, 5)),
    |ctx| burst(ctx, 3),
  );
  r.explore("shutdown", "shutdown once, twice in a row or at once, with 0 to 3 events pending, and a late reader", Opts::default(), shutdown);
}

fn start(dir: &Path, world: Arc<Mutex<World>>, stats: Stats, mid: impl Fn(&mut World) + Send + 'static) -> Arc<dyn Loader<u32>> {
  WatchedFileLoader::<u32>::new_loader(
    dir,
    dir.join("foo.yaml"),
    move |c: Option<Cfg>| -> ConfigPtr<u32> {
      th::point();
      let mut w = world.lock().unwrap();
      let got = c.map(|c| c.v);
      match w.on {
        On::Valid(_) => w.kinds.success += 1,
        On::Broken | On::WrongType | On::Empty => w.kinds.failure += 1,
        On::NotText | On::Missing => w.kinds.io += 1,
      }
      mid(&mut w);
      got.map(Arc::new)
    },
    stats,
  )
  .unwrap()
}

fn swap(ctx: &Ctx, dir: &Path, w: &mut World, why: &str) {
  let c = match ctx.choose(6) {
    0 => {
      w.next += 1;
      On::Valid(w.next)
    },
    1 => On::Missing,
    2 => On::Broken,
    3 => On::WrongType,
    4 => On::Empty,
    _ => On::NotText,
  };
  ctx.say(|| format!("{why}: the file becomes {c:?}"));
  put(dir, c);
  w.on = c;
  w.was.push(c.means());
}

fn swaps(ctx: &Ctx, depth: u32) -> Res {
  let scratch = Scratch::new();
  let dir: PathBuf = scratch.path().to_path_buf();
  let world = Arc::new(Mutex::new(World { on: On::Missing, next: 0, was: vec![None], owed: 0, kinds: Counts::default(), watched: None }));
  if ctx.flip() {
    put(&dir, On::Valid(0));
    let mut w = world.lock().unwrap();
    w.on = On::Valid(0);
    w.was.push(Some(0));
  }
  let stats = Stats::default();
  let rt = fut::runtime();
  let _in = rt.enter();
  // Swaps before the watch is there are seen by the first load; later ones make an event.
  let (c2, w2, d2) = (ctx.clone(), world.clone(), dir.clone());
  staged::take();
  staged::on_watch(Some(Box::new(move |_, after| {
    if c2.fault() {
      let mut w = w2.lock().unwrap();
      swap(&c2, &d2, &mut w, if after { "just after the watch began" } else { "just before the watch began" });
      if after {
        w.owed += 1;
      }
    }
  })));
  let (c2, d2) = (ctx.clone(), dir.clone());
  let loader = start(&dir, world.clone(), stats.clone(), move |w| {
    if c2.fault() {
      swap(&c2, &d2, w, "in the middle of a load");
      let watched = w.watched.as_ref().and_then(Weak::upgrade);
      if watched.is_some() && c2.flip() {
        c2.say(|| "its event comes while the load still goes on".into());
        // The watcher has a thread of its own.
        std::thread::spawn(move || watched.unwrap().emit(Ok(renamed()))).join().unwrap();
      } else {
        w.owed += 1;
      }
    }
  });
  staged::on_watch(None);
  let watched: Weak<staged::Watched> = staged::take().pop().expect("a watcher");
  world.lock().unwrap().watched = Some(watched.clone());
  let emit = |e: notify::Result<Event>| watched.upgrade().map(|w| w.emit(e));
  if let Some(w) = watched.upgrade() {
    let paths = w.paths.lock().unwrap();
    check!(paths.iter().any(|(p, _)| *p == dir), "not-watched", "the directory is not watched: {paths:?}");
  }
  let reader = loader.snapshot_watch();
  let mut settled = true;
  let mut wild = false;
  for left in (0 .. depth).rev() {
    ctx.step();
    match ctx.choose(5) {
      0 => {
        swap(ctx, &dir, &mut world.lock().unwrap(), "swap");
        let _ = emit(Ok(renamed()));
        settled = false;
      },
      1 => {
        ctx.say(|| "the loader runs".into());
        rt.block_on(fut::settle());
        settled = true;
      },
      2 => {
        let k = ctx.choose(if left + 3 > depth { 8 } else { 2 });
        ctx.say(|| format!("unrelated event {:?}", junk(k)));
        let _ = emit(Ok(junk(k)));
      },
      3 => {
        ctx.say(|| "the watcher reports an error".into());
        let _ = emit(Err(notify::Error::generic("transient")));
      },
      _ => {
        // Somebody writes in place; no rename: what is there half written must not be taken up.
        if settled && world.lock().unwrap().owed == 0 {
          ctx.say(|| "a partial write in place".into());
          let before = reader.borrow().clone();
          let on = world.lock().unwrap().on;
          std::fs::write(dir.join("foo.yaml"), "v: 9999999").unwrap();
          let _ = emit(Ok(junk(0)));
          rt.block_on(fut::settle());
          same!("partial", reader.borrow().clone(), before, "snapshot after a write that was not completed by a rename");
          put(&dir, on);
        } else {
          wild = true;
        }
      },
    }
    if wild {
      return Ok(());
    }
    let owed = std::mem::take(&mut world.lock().unwrap().owed);
    for _ in 0 .. owed {
      ctx.say(|| "the event of that swap".into());
      let _ = emit(Ok(renamed()));
      settled = false;
    }
    let w = world.lock().unwrap();
    let now = reader.borrow().as_deref().copied();
    ctx.state((w.on, now, settled));
    check!(w.was.contains(&now), "made-up", "the snapshot {now:?} was never on disk: {:?}", w.was);
    if settled {
      same!("stale", now, w.on.means(), "snapshot once the loader has seen all events");
    }
  }
  // In the end what is on disk is the snapshot, however it got there.
  for _ in 0 .. 4 {
    rt.block_on(fut::settle());
    let owed = std::mem::take(&mut world.lock().unwrap().owed);
    for _ in 0 .. owed {
      let _ = emit(Ok(renamed()));
    }
  }
  let w = world.lock().unwrap();
  same!("stale", reader.borrow().as_deref().copied(), w.on.means(), "final snapshot");
  let s = stats.0.lock().unwrap().clone();
  same!("stats", s, w.kinds, "loads counted by their outcome");
  drop(w);
  rt.block_on(loader.shutdown());
  check!(watched.upgrade().is_none(), "watcher-kept", "the watch goes on after a shutdown");
  Ok(())
}

fn burst(ctx: &Ctx, n: u32) -> Res {
  let scratch = Scratch::new();
  let dir: PathBuf = scratch.path().to_path_buf();
  ctx.under(move || {
    let world = Arc::new(Mutex::new(World { on: On::Missing, next: 0, was: vec![None], owed: 0, kinds: Counts::default(), watched: None }));
    let rt = fut::runtime();
    rt.block_on(async {
      staged::take();
      let loader = start(&dir, world.clone(), Stats::default(), |_| {});
      let watched = staged::take().pop().expect("a watcher");
      let reader = loader.snapshot_watch();
      let (done_tx, done_rx) = tokio::sync::oneshot::channel();
      let t = th::named("watcher", move || {
        for i in 1 ..= n {
          put(&dir, On::Valid(i));
          th::point();
          world.lock().unwrap().on = On::Valid(i);
          if let Some(w) = watched.upgrade() {
            w.emit(Ok(renamed()));
          }
        }
        let _ = done_tx.send(());
      });
      let mut seen = reader.clone();
      let watch = tokio::spawn(async move {
        let mut last = None;
        while seen.changed().await.is_ok() {
          let now = seen.borrow_and_update().as_deref().copied();
          assert!(now >= last, "the snapshot went from {last:?} back to {now:?}");
          last = now;
          if now == Some(n) {
            break;
          }
        }
      });
      let _ = done_rx.await;
      t.join().unwrap();
      fut::settle().await;
      same!("stale", reader.borrow().as_deref().copied(), Some(n), "snapshot after the last event");
      watch.await.unwrap();
      loader.shutdown().await;
      Ok(())
    })
  })
}

fn shutdown(ctx: &Ctx) -> Res {
  let scratch = Scratch::new();
  let dir = scratch.path();
  put(dir, On::Valid(1));
  let world = Arc::new(Mutex::new(World { on: On::Valid(1), next: 1, was: vec![Some(1)], owed: 0, kinds: Counts::default(), watched: None }));
  let rt = fut::runtime();
  let _in = rt.enter();
  staged::take();
  let loader = start(dir, world.clone(), Stats::default(), |_| {});
  let watched = staged::take().pop().unwrap();
  if ctx.flip() {
    rt.block_on(fut::settle());
  }
  for _ in 0 .. ctx.choose(4) {
    watched.upgrade().unwrap().emit(Ok(renamed()));
  }
  let how = ctx.choose(4);
  ctx.step();
  ctx.state(how);
  let ended = rt.block_on(async {
    let limit = std::time::Duration::from_secs(5);
    match how {
      0 => tokio::time::timeout(limit, loader.shutdown()).await.is_ok(),
      1 => tokio::time::timeout(limit, async { loader.shutdown().await; loader.shutdown().await; loader.shutdown().await }).await.is_ok(),
      2 => tokio::time::timeout(limit, async { tokio::join!(loader.shutdown(), loader.shutdown()) }).await.is_ok(),
      _ => {
        let l2 = loader.clone();
        let t = tokio::spawn(async move { l2.shutdown().await });
        tokio::task::yield_now().await;
        tokio::time::timeout(limit, async { loader.shutdown().await; t.await.unwrap() }).await.is_ok()
      },
    }
  });
  check!(ended, "shutdown-hangs", "shutdown does not end");
  check!(watched.upgrade().is_none(), "watcher-kept", "the watch goes on after a shutdown");
  same!("after-shutdown", loader.snapshot_watch().borrow().as_deref().copied(), Some(1), "snapshot after the shutdown");
  Ok(())
}
