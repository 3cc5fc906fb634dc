mod activity;
mod device;
mod disk;
mod fixed;
mod kv;

fn main() {
  mc::main(&[
    mc::Check { id: "C01", f: kv::c01 },
    mc::Check { id: "C02", f: device::c02 },
    mc::Check { id: "C03", f: fixed::c03 },
    mc::Check { id: "C04", f: fixed::c04 },
    mc::Check { id: "C05", f: fixed::c05 },
    mc::Check { id: "C06", f: activity::c06 },
    mc::Check { id: "C07", f: activity::c07 },
  ]);
}
