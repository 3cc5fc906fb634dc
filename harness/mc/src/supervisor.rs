//! The exploration runs in a child process, so that a crash or an execution without end is seen. What
//! is seen once is run again by itself before it is called a violation.

use crate::report::{violation, Run};
use crate::Progress;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Check {
  pub id: &'static str,
  pub f: fn(&mut Run),
}

const SLOT: usize = 64 * 1024;
const EXIT_HANG: i32 = 77;

struct ToFile(File);
impl Progress for ToFile {
  fn at(&self, worker: usize, scenario: &str, prefix: &[u16]) {
    let mut b = Vec::with_capacity(8 + scenario.len() + prefix.len() * 2);
    b.extend((scenario.len() as u32).to_le_bytes());
    b.extend((prefix.len() as u32).to_le_bytes());
    b.extend(scenario.as_bytes());
    for p in prefix {
      b.extend(p.to_le_bytes());
    }
    b.truncate(SLOT);
    let _ = self.0.write_at(&b, (worker * SLOT) as u64);
  }
  fn hang(&self, worker: usize) -> ! {
    // Who hangs goes first.
    let mut b = vec![0u8; SLOT];
    let n = self.0.read_at(&mut b, (worker * SLOT) as u64).unwrap_or(0);
    let _ = self.0.write_at(&b[.. n], 0);
    let t0 = cpu();
    std::thread::sleep(std::time::Duration::from_secs(1));
    let spinning = cpu() - t0 > 0.3;
    eprintln!("an execution does not end ({})", if spinning { "it is running" } else { "it is blocked" });
    std::process::exit(EXIT_HANG + i32::from(spinning))
  }
}

fn cpu() -> f64 {
  let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
  let f: Vec<f64> = s
    .rsplit(')')
    .next()
    .unwrap_or("")
    .split_whitespace()
    .skip(11)
    .take(2)
    .filter_map(|x| x.parse().ok())
    .collect();
  f.iter().sum::<f64>() / 100.0
}

fn slots(path: &Path) -> Vec<(String, Vec<u16>)> {
  let Ok(data) = std::fs::read(path) else { return vec![] };
  let mut out = vec![];
  for b in data.chunks(SLOT) {
    let len = |i: usize| b.get(i .. i + 4).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
    let (a, n) = (len(0), len(4));
    if a == 0 || 8 + a + 2 * n > b.len() {
      continue;
    }
    let name = String::from_utf8_lossy(&b[8 .. 8 + a]).to_string();
    let choices = b[8 + a .. 8 + a + 2 * n].chunks(2).map(|x| u16::from_le_bytes([x[0], x[1]])).collect();
    out.push((name, choices));
  }
  out
}

fn parse(path: &str) -> (String, Vec<u16>) {
  let text = std::fs::read_to_string(path).expect("replay file");
  let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
  (get("scenario:"), get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect())
}

pub fn main(checks: &[Check]) -> ! {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
  let Some(c) = args.first().and_then(|p| checks.iter().find(|c| c.id == p)) else {
    eprintln!("which property? one of {:?}", checks.iter().map(|c| c.id).collect::<Vec<_>>());
    std::process::exit(2)
  };
  if args.get(1).is_some_and(|a| a == "--child") {
    std::process::exit(child(c, args.get(2).map(String::as_str)));
  }
  std::process::exit(parent(c, &args[1 ..], &verif));
}

fn child(c: &Check, replay: Option<&str>) -> i32 {
  let file = PathBuf::from(std::env::var("MC_SCRATCH").unwrap()).join("progress");
  let file = File::options().create(true).truncate(false).read(true).write(true).open(file).unwrap();
  crate::quiet_panics();
  let mut run = Run::new(c.id, Box::new(ToFile(file)));
  if let Some(r) = replay {
    run.only = Some(parse(r));
    let (scenario, choices) = run.only.clone().unwrap();
    // An execution without end is ended by the parent.
    (c.f)(&mut run);
    return match run.replayed.take() {
      None => {
        eprintln!("there is no such scenario");
        2
      },
      Some((r, says)) => {
        let mut code = 0;
        if let Err(v) = r {
          violation(&PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())), c.id, &scenario, &v.key, &v.msg, &choices, &says);
          code = 1;
        } else {
          for s in says {
            println!("    {s}");
          }
          println!("no violation");
        }
        code
      },
    };
  }
  (c.f)(&mut run);
  run.finish()
}

enum End {
  Code(i32),
  Signal(i32),
  Hang { spinning: bool },
}

fn spawn(c: &Check, scratch: &Path, replay: Option<&Path>, limit: u64, quiet: bool) -> End {
  let mut cmd = Command::new(std::env::current_exe().unwrap());
  cmd.arg(c.id).arg("--child").env("MC_SCRATCH", scratch).env("RUST_LIB_BACKTRACE", "0");
  if let Some(r) = replay {
    cmd.arg(r);
  }
  if quiet {
    cmd.stdout(Stdio::null());
  }
  let mut child = cmd.spawn().unwrap();
  let t = std::time::Instant::now();
  loop {
    if let Some(s) = child.try_wait().unwrap() {
      return match (s.code(), s.signal()) {
        (Some(x), _) if x == EXIT_HANG || x == EXIT_HANG + 1 => End::Hang { spinning: x == EXIT_HANG + 1 },
        (Some(x), _) => End::Code(x),
        (None, s) => End::Signal(s.unwrap_or(0)),
      };
    }
    if t.elapsed().as_secs() > limit {
      let used = || {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
        s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<f64>().ok()).sum::<f64>()
      };
      let a = used();
      std::thread::sleep(std::time::Duration::from_secs(1));
      let spinning = used() - a > 30.0;
      let _ = child.kill();
      let _ = child.wait();
      return End::Hang { spinning };
    }
    std::thread::sleep(std::time::Duration::from_millis(if t.elapsed().as_millis() < 1000 { 5 } else { 50 }));
  }
}

fn parent(c: &Check, rest: &[String], verif: &Path) -> i32 {
  let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
  let scratch = base.join(format!("verif-mc-{}-{}", c.id, std::process::id()));
  std::fs::create_dir_all(&scratch).unwrap();
  let code = supervise(c, rest, verif, &scratch);
  let _ = std::fs::remove_dir_all(&scratch);
  code
}

fn supervise(c: &Check, rest: &[String], verif: &Path, scratch: &Path) -> i32 {
  if rest.first().is_some_and(|a| a == "--replay") {
    let path = PathBuf::from(rest.get(1).expect("replay file"));
    return match spawn(c, scratch, Some(&path), 60, false) {
      End::Code(x) => x,
      End::Signal(s) => {
        let (scenario, choices) = parse(path.to_str().unwrap());
        violation(verif, c.id, &scenario, "crash", &format!("the process died of signal {s}"), &choices, &[]);
        1
      },
      End::Hang { .. } => {
        let (scenario, choices) = parse(path.to_str().unwrap());
        violation(verif, c.id, &scenario, "hang", "the execution does not end", &choices, &[]);
        1
      },
    };
  }
  let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
  let end = spawn(c, scratch, None, if thorough { 8 * 3600 } else { 600 }, false);
  let hung = match end {
    End::Code(x @ (0 | 1)) => return x,
    End::Code(x) => {
      eprintln!("the check itself failed (exit {x})");
      return 2;
    },
    End::Signal(_) => None,
    End::Hang { spinning } => Some(spinning),
  };
  let mut cases = slots(&scratch.join("progress"));
  if hung.is_some() {
    cases.truncate(1);
  }
  for (scenario, choices) in cases {
    let file = scratch.join("again");
    let text = format!(
      "scenario: {scenario}\nchoices: {}\n",
      choices.iter().map(ToString::to_string).collect::<Vec<_>>().join(" ")
    );
    std::fs::write(&file, text).unwrap();
    match spawn(c, scratch, Some(&file), 45, true) {
      End::Signal(s) => {
        violation(verif, c.id, &scenario, "crash", &format!("the process died of signal {s}"), &choices, &[]);
        return 1;
      },
      End::Hang { spinning } => {
        if hung == Some(false) && !spinning && std::env::var("MC_BLOCKED_IS_ERROR").is_ok() {
          continue;
        }
        violation(verif, c.id, &scenario, "hang", "the execution does not end", &choices, &[]);
        return 1;
      },
      End::Code(1) => {
        violation(verif, c.id, &scenario, "unstable", "fails when run again after a crash or hang", &choices, &[]);
        return 1;
      },
      End::Code(_) => {},
    }
  }
  eprintln!("the exploration died or hung, and its cases do not when run again: no verdict");
  2
}
