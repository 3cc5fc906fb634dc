#![allow(dead_code)]
mod accounts;
mod config;
mod consumer;
mod e2e;
mod encoding;
#[path = "../../net/src/faults.rs"]
mod faults;
#[path = "../../flow/src/flushing.rs"]
mod flushing;
#[path = "../../flow/src/matcher.rs"]
mod matcher;
mod periodic;
mod queue;
mod upload;
#[path = "../../flow/src/wf.rs"]
mod wf;

/// What is logged is formatted as well, and goes nowhere.
struct Nowhere;
impl log::Log for Nowhere {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let _ = r.args().to_string();
  }
  fn flush(&self) {}
}
fn logs() {
  let _ = log::set_logger(&Nowhere);
  log::set_max_level(log::LevelFilter::Trace);
}

fn main() {
  mc::main(&[
    mc::Check { id: "C40", f: config::c40 },
    mc::Check { id: "C41", f: queue::c41 },
    mc::Check { id: "C42", f: upload::c42 },
    mc::Check { id: "C43", f: consumer::c43 },
    mc::Check { id: "C44", f: e2e::c44 },
    mc::Check { id: "C45", f: e2e::c45 },
    mc::Check { id: "C46", f: e2e::c46 },
    mc::Check { id: "C47", f: encoding::c47 },
    mc::Check { id: "C48", f: periodic::c48 },
    mc::Check { id: "C49", f: accounts::c49 },
  ]);
}
