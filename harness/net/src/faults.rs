//! Which of a process's operations on files fail, or are its last.

use mc::Ctx;
use mc_fs::{Fate, Op};
use std::cell::RefCell;
use std::rc::Rc;

pub type Log = Rc<RefCell<Vec<(Op, Fate)>>>;

/// Until it is dropped.
pub struct Faults(pub Log);

impl Faults {
  pub fn new(ctx: &Ctx, concerned: impl Fn(&Op) -> bool + 'static) -> Self {
    let log: Log = Rc::default();
    let (c, l) = (ctx.clone(), log.clone());
    mc_fs::set(Some(Box::new(move |op| {
      if !concerned(op) {
        return Fate::Go;
      }
      const WRITES: [Fate; 7] = [Fate::Go, Fate::Error, Fate::EndBefore, Fate::EndAmid(0), Fate::EndAmid(2), Fate::EndAmid(3), Fate::EndAfter];
      const CHANGES: [Fate; 6] = [Fate::Go, Fate::Error, Fate::EndBefore, Fate::EndAmid(0), Fate::EndAmid(1), Fate::EndAfter];
      const READS: [Fate; 3] = [Fate::Go, Fate::Error, Fate::EndBefore];
      let all: &[Fate] = match (op.changes, op.what) {
        (true, "write") => &WRITES,
        (true, _) => &CHANGES,
        _ => &READS,
      };
      let f = all[c.deviate(all.len())];
      if f != Fate::Go {
        c.say(|| format!("    {f:?} at {} {}", op.what, op.path.file_name().unwrap_or_default().to_string_lossy()));
      }
      l.borrow_mut().push((op.clone(), f));
      f
    })));
    Self(log)
  }

  /// What became of the last operation of this kind, if there was one; and it is forgotten.
  pub fn take(&self) -> Vec<(Op, Fate)> {
    std::mem::take(&mut self.0.borrow_mut())
  }
}
impl Drop for Faults {
  fn drop(&mut self) {
    mc_fs::set(None);
  }
}

/// None: the process has ended within `f`.
pub fn process<T>(f: impl FnOnce() -> T) -> Option<T> {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(t) => Some(t),
    Err(e) if e.is::<mc_fs::End>() => None,
    Err(e) => std::panic::resume_unwind(e),
  }
}

struct Silent;
impl bd_client_common::error::Reporter for Silent {
  fn report(&self, _: &str, _: &Option<String>, _: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}
/// Errors are expected.
pub fn silent() {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(std::sync::Arc::new(Silent));
}
