//! A watcher whose events the harness makes.
#![allow(missing_docs)]

use crate::{Config, Event, EventHandler, RecursiveMode, Result, Watcher, WatcherKind};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, Weak};

pub struct Watched {
    handler: Mutex<Box<dyn EventHandler>>,
    pub paths: Mutex<Vec<(PathBuf, RecursiveMode)>>,
}

impl Watched {
    pub fn emit(&self, event: Result<Event>) {
        self.handler.lock().unwrap().handle_event(event);
    }
}

thread_local! {
    static MADE: RefCell<Vec<Weak<Watched>>> = const { RefCell::new(Vec::new()) };
    static ON_WATCH: RefCell<Option<Box<dyn FnMut(&Path, bool)>>> = const { RefCell::new(None) };
}

/// The watchers made on this thread since the last call.
pub fn take() -> Vec<Weak<Watched>> {
    MADE.with(|m| m.take())
}

/// `f` is called when a watch is asked for, before and after it is there.
pub fn on_watch(f: Option<Box<dyn FnMut(&Path, bool)>>) {
    ON_WATCH.with(|o| *o.borrow_mut() = f);
}

pub struct StagedWatcher(Arc<Watched>);

impl std::fmt::Debug for StagedWatcher {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "StagedWatcher")
    }
}

impl Watcher for StagedWatcher {
    fn new<F: EventHandler>(event_handler: F, _: Config) -> Result<Self> {
        let w = Arc::new(Watched { handler: Mutex::new(Box::new(event_handler)), paths: Mutex::default() });
        MADE.with(|m| m.borrow_mut().push(Arc::downgrade(&w)));
        Ok(Self(w))
    }
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()> {
        ON_WATCH.with(|o| o.borrow_mut().as_mut().map(|f| f(path, false)));
        self.0.paths.lock().unwrap().push((path.to_path_buf(), mode));
        ON_WATCH.with(|o| o.borrow_mut().as_mut().map(|f| f(path, true)));
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        self.0.paths.lock().unwrap().retain(|(p, _)| p != path);
        Ok(())
    }
    fn kind() -> WatcherKind {
        WatcherKind::NullWatcher
    }
}
