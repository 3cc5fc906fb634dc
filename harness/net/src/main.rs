#![allow(dead_code)]
mod api;
mod codec;
mod faults;
mod kill;
mod runtime;

fn main() {
  mc::main(&[
    mc::Check { id: "C36", f: codec::c36 },
    mc::Check { id: "C37", f: api::c37 },
    mc::Check { id: "C38", f: kill::c38 },
    mc::Check { id: "C39", f: runtime::c39 },
  ]);
}
