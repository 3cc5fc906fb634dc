#![allow(dead_code)]
mod filter;
mod flows;
mod flush;
mod flushing;
mod matcher;
mod metrics;
mod persist;
mod sankey;
mod wf;

fn main() {
  mc::main(&[
    mc::Check { id: "C24", f: matcher::c24 },
    mc::Check { id: "C25", f: matcher::c25 },
    mc::Check { id: "C26", f: filter::c26 },
    mc::Check { id: "C27", f: flows::c27 },
    mc::Check { id: "C28", f: persist::c28 },
    mc::Check { id: "C29", f: flows::c29 },
    mc::Check { id: "C30", f: flush::c30 },
    mc::Check { id: "C31", f: sankey::c31 },
    mc::Check { id: "C32", f: metrics::c32 },
  ]);
}
