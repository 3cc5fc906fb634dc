mod agg;
mod damage;
mod manager;
mod model;
mod seq;

fn main() {
  mc::main(&[
    mc::Check { id: "C19", f: seq::c19 },
    mc::Check { id: "C20", f: seq::c20 },
    mc::Check { id: "C21", f: damage::c21 },
    mc::Check { id: "C22", f: agg::c22 },
    mc::Check { id: "C23", f: manager::c23 },
  ]);
}
