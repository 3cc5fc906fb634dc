mod basics;
mod completion;
mod flags;
mod loader;
mod shutdown;
mod stats;
mod warn;

fn main() {
  basics::panic_child();
  mc::main(&[
    mc::Check { id: "C10", f: loader::c10 },
    mc::Check { id: "C11", f: flags::c11 },
    mc::Check { id: "C12", f: shutdown::c12 },
    mc::Check { id: "C13", f: completion::c13 },
    mc::Check { id: "C14", f: stats::c14 },
    mc::Check { id: "C15", f: warn::c15 },
    mc::Check { id: "C16", f: basics::c16 },
    mc::Check { id: "C17", f: basics::c17 },
    mc::Check { id: "C18", f: basics::c18 },
  ]);
}
