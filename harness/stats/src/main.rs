#![allow(dead_code)]
mod disk;
mod flusher;
mod threads;

fn main() {
  mc::main(&[
    mc::Check { id: "C33", f: flusher::c33 },
    mc::Check { id: "C34", f: flusher::c34 },
    mc::Check { id: "C35", f: threads::c35 },
  ]);
}
