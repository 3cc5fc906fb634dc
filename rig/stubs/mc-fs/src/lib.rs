//! What code does to files by path, which an exploration may let fail or end the process at.
//!
//! Copies of /repo's sources use `mc_fs::fs` instead of `std::fs`, and `mc_fs::tokio::fs` instead
//! of `tokio::fs`. As long as nobody on the thread has asked otherwise, all is as it is there (but
//! that tokio's functions do what they do at once, and not on another thread).

use std::cell::RefCell;
use std::io;
use std::path::{Path, PathBuf};

/// What becomes of an operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fate {
  Go,
  Error,
  /// The process ends before it, after it, or when some of it is done: the parts of 4 that are given.
  EndBefore,
  EndAmid(usize),
  EndAfter,
}

/// What a process ends with.
pub struct End;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
  pub what: &'static str,
  pub path: PathBuf,
  /// Whether it changes something.
  pub changes: bool,
  pub size: usize,
}

type Hook = Box<dyn FnMut(&Op) -> Fate>;

thread_local! {
  static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

thread_local! {
  static GAPS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// From now on, other tasks of this thread run before and after each of tokio's functions.
pub fn set_gaps(on: bool) {
  GAPS.with(|g| g.set(on));
}

/// From now on, this thread's operations are subject to `hook`.
pub fn set(hook: Option<Hook>) {
  HOOK.with(|h| *h.borrow_mut() = hook);
}

fn fate(what: &'static str, path: &Path, changes: bool, size: usize) -> Fate {
  HOOK.with(|h| {
    let Ok(mut h) = h.try_borrow_mut() else { return Fate::Go };
    h.as_mut().map_or(Fate::Go, |h| h(&Op { what, path: path.to_path_buf(), changes, size }))
  })
}

fn end() -> ! {
  std::panic::resume_unwind(Box::new(End))
}

fn op<T>(what: &'static str, path: &Path, changes: bool, size: usize, part: impl FnOnce(usize), all: impl FnOnce() -> io::Result<T>) -> io::Result<T> {
  match fate(what, path, changes, size) {
    Fate::Go => all(),
    Fate::Error => Err(io::Error::other("the disk fails")),
    Fate::EndBefore => end(),
    Fate::EndAmid(n) => {
      part(n);
      end()
    },
    Fate::EndAfter => {
      let _ = all();
      end()
    },
  }
}

fn some_of_dir(path: &Path, n: usize) {
  let Ok(entries) = std::fs::read_dir(path) else { return };
  let mut entries: Vec<_> = entries.flatten().map(|e| e.path()).collect();
  entries.sort();
  // Any half of it: the first ones, or the last.
  let (from, to) = if n % 2 == 0 { (0, entries.len() / 2) } else { (entries.len() / 2, entries.len()) };
  for e in &entries[from .. to] {
    let _ = if e.is_dir() { std::fs::remove_dir_all(e) } else { std::fs::remove_file(e) };
  }
}

pub mod fs {
  use super::{op, some_of_dir};
  use std::io;
  use std::path::Path;

  pub use std::fs::*;

  pub fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    let p = p.as_ref();
    op("read", p, false, 0, |_| (), || std::fs::read(p))
  }
  pub fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
    let p = p.as_ref();
    op("read", p, false, 0, |_| (), || std::fs::read_to_string(p))
  }
  pub fn write(p: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
    let (p, data) = (p.as_ref(), data.as_ref());
    let part = |n: usize| {
      let n = data.len() * n / 4;
      let _ = std::fs::write(p, &data[.. n]);
    };
    op("write", p, true, data.len(), part, || std::fs::write(p, data))
  }
  pub fn remove_file(p: impl AsRef<Path>) -> io::Result<()> {
    let p = p.as_ref();
    op("remove", p, true, 0, |_| (), || std::fs::remove_file(p))
  }
  pub fn remove_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
    let p = p.as_ref();
    op("remove directory", p, true, 0, |n| some_of_dir(p, n), || std::fs::remove_dir_all(p))
  }
  pub fn create_dir(p: impl AsRef<Path>) -> io::Result<()> {
    let p = p.as_ref();
    op("create directory", p, true, 0, |_| (), || std::fs::create_dir(p))
  }
  pub fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
    let p = p.as_ref();
    op("create directory", p, true, 0, |_| (), || std::fs::create_dir_all(p))
  }
  pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    let (a, b) = (a.as_ref(), b.as_ref());
    op("rename", b, true, 0, |_| (), || std::fs::rename(a, b))
  }
}

pub mod tokio {
  pub mod fs {
    use crate::fs as now;
    use std::io;
    use std::path::Path;

    pub use ::tokio::fs::*;

    // Others may run while it is done on another thread.
    async fn gap() {
      if crate::GAPS.with(std::cell::Cell::get) {
        ::tokio::task::yield_now().await;
      }
    }

    pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
      gap().await;
      let r = now::read(p);
      gap().await;
      r
    }
    pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
      gap().await;
      let r = now::read_to_string(p);
      gap().await;
      r
    }
    pub async fn write(p: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
      gap().await;
      let r = now::write(p, data);
      gap().await;
      r
    }
    pub async fn remove_file(p: impl AsRef<Path>) -> io::Result<()> {
      gap().await;
      let r = now::remove_file(p);
      gap().await;
      r
    }
    pub async fn remove_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
      gap().await;
      let r = now::remove_dir_all(p);
      gap().await;
      r
    }
    pub async fn create_dir(p: impl AsRef<Path>) -> io::Result<()> {
      gap().await;
      let r = now::create_dir(p);
      gap().await;
      r
    }
    pub async fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
      gap().await;
      let r = now::create_dir_all(p);
      gap().await;
      r
    }
    pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
      gap().await;
      let r = now::rename(a, b);
      gap().await;
      r
    }
    pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
      gap().await;
      let r = p.as_ref().try_exists();
      gap().await;
      r
    }
  }
}
