#![allow(dead_code)]
mod calls;
mod mux;
mod read;
mod server;
mod wire;

#[path = "../../../bd-grpc/src/generated/proto/test.rs"]
mod test_proto;

fn main() {
  mc::main(&[mc::Check { id: "C50", f: calls::c50 }, mc::Check { id: "C51", f: mux::c51 }]);
}
