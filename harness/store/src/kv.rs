//! C01: the key-value store.

use crate::disk::{Disk, Faults};
use bd_key_value::{Key, Storable};
use mc::{check, same, Ctx, Opts, Res, Run};

#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
enum Extra {
  Code(i64),
  Build(String),
}
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
struct Rec {
  a: String,
  n: u32,
  e: Option<Extra>,
}
impl Storable for Rec {}

static A: Key<String> = Key::new("a");
static B: Key<String> = Key::new("b");
static R: Key<Rec> = Key::new("r");

fn strings() -> Vec<String> {
  vec![String::new(), "x".into(), "é\0\n\"=".into(), "z".repeat(300), format!("{}y", "z".repeat(299))]
}
fn recs() -> Vec<Rec> {
  vec![
    Rec { a: String::new(), n: 0, e: None },
    Rec { a: "\u{10ffff}".into(), n: u32::MAX, e: Some(Extra::Code(i64::MIN)) },
    Rec { a: "r".into(), n: 7, e: Some(Extra::Build("1.2".into())) },
  ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Want<T> {
  Absent,
  Is(T),
  Bad,
}

pub fn c01(r: &mut Run) {
  r.assume("the platform storage stores what it acknowledges; a failed write or delete either happened in full or not at all");
  let depth = r.by_tier(4, 6);
  r.explore(
    "operations",
    &format!("every sequence of {depth} operations: set (5 strings, 3 records), get, restart, damage from outside, on 3 keys"),
    Opts::default(),
    |ctx| operations(ctx, depth, Faults::default()),
  );
  let depth = r.by_tier(4, 5);
  r.explore(
    "operations-full",
    &format!("every sequence of {depth} of these, whatever states they reach"),
    Opts::default().full(),
    |ctx| operations(ctx, depth, Faults::default()),
  );
  let depth = r.by_tier(5, 6);
  r.explore(
    "storage-faults",
    &format!("every sequence of {depth} operations, with storage reads, writes and deletes failing"),
    Opts::dev(r.by_tier(2, 3)).full(),
    |ctx| operations(ctx, depth, Faults { read: true, write: true, delete: true }),
  );
  r.explore(
    "damaged-values",
    "the stored form of each of 8 values: every truncation, every single byte changed to each of 6 values, every length field, characters that do not belong there at any of 7 places, then read back",
    Opts::default(),
    damaged,
  );
  r.explore("stored-form", "values stored by earlier versions", Opts::default(), golden);
}

fn operations(ctx: &Ctx, depth: u32, faults: Faults) -> Res {
  let disk = Disk::faulty(ctx, faults);
  let mut store = disk.store();
  let mut a: [Want<String>; 2] = [Want::Absent, Want::Absent];
  let mut rec: Want<Rec> = Want::Absent;
  let keys = [&A, &B];
  let faulty = faults.read || faults.write;
  for left in (0 .. depth).rev() {
    // With faults on, the third key and some values add nothing.
    let op = ctx.choose(if faulty { 4 } else { 6 });
    ctx.step();
    match op {
      0 => {
        let k = ctx.choose(2);
        let s = strings();
        let v = if faulty { s[1 + k].clone() } else { ctx.pick(&s).clone() };
        ctx.say(|| format!("set {} = {v:?}", keys[k].key()));
        let before = disk.faults_on(keys[k].key());
        let raw = disk.raw(keys[k].key());
        store.set(keys[k], &v);
        if disk.faults_on(keys[k].key()) == before {
          a[k] = Want::Is(v);
        } else if disk.raw(keys[k].key()) != raw {
          a[k] = Want::Is(v);
        }
      },
      1 => {
        let k = ctx.choose(2);
        ctx.say(|| format!("get {}", keys[k].key()));
        let before = disk.faults_on(keys[k].key());
        let got = store.get(keys[k]);
        if disk.faults_on(keys[k].key()) == before {
          match &a[k] {
            Want::Is(v) => same!("get", got.as_ref(), Some(v), "get of {}", keys[k].key()),
            Want::Absent => same!("get-absent", got, None, "get of a key that is not there"),
            Want::Bad => {
              same!("get-bad", got, None, "get of a malformed value");
              check!(disk.raw(keys[k].key()).is_none(), "bad-kept", "a malformed value is still there after a get");
              a[k] = Want::Absent;
            },
          }
        } else {
          // A read failed: nothing, or what is there.
          if let Some(g) = got {
            check!(Want::Is(g.clone()) == a[k], "fault-wrong", "a get with a failing storage made up {g:?}");
          }
          if disk.raw(keys[k].key()).is_none() {
            a[k] = Want::Absent;
          }
        }
      },
      2 => {
        ctx.say(|| "restart".into());
        store = disk.store();
      },
      3 => {
        let k = ctx.choose(2);
        let bad = if faulty { "A" } else { *ctx.pick(&["A", "", "AQ==", "////////////", "é", "AQAAAAAAAAD/"]) };
        ctx.say(|| format!("the stored {} becomes {bad:?}", keys[k].key()));
        disk.put_raw(keys[k].key(), bad);
        a[k] = Want::Bad;
      },
      4 => {
        let v = ctx.pick(&recs()).clone();
        ctx.say(|| format!("set r = {v:?}"));
        store.set(&R, &v);
        rec = Want::Is(v);
      },
      _ => {
        ctx.say(|| "get r".into());
        let got = store.get(&R);
        let want = if let Want::Is(v) = &rec { Some(v.clone()) } else { None };
        same!("get-record", got, want, "get of r");
      },
    }
    // Nothing but the key at hand is ever touched.
    for (k, w) in keys.iter().zip(&a) {
      same!("isolation", disk.raw(k.key()).is_some(), *w != Want::Absent, "presence of {} in the storage", k.key());
    }
    same!("isolation", disk.raw("r").is_some(), rec != Want::Absent, "presence of r in the storage");
    if ctx.known((&a, &rec), left) {
      return Ok(());
    }
  }
  // All that was stored is there in the end.
  let clean = Disk { ctx: None, ..disk.clone() };
  let store = clean.store();
  for (k, w) in keys.iter().zip(&a) {
    let want = if let Want::Is(v) = w { Some(v.clone()) } else { None };
    same!("final", store.get(k), want, "final get of {}", k.key());
  }
  same!("final", store.get(&R), if let Want::Is(v) = rec { Some(v) } else { None }, "final get of r");
  Ok(())
}

fn b64(data: &[u8]) -> String {
  const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut s = String::new();
  for c in data.chunks(3) {
    let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
    for i in 0 .. 4 {
      if i <= c.len() {
        s.push(T[((n >> (18 - 6 * i)) & 63) as usize] as char);
      } else {
        s.push('=');
      }
    }
  }
  s
}
fn unb64(s: &str) -> Vec<u8> {
  const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut out = vec![];
  let (mut acc, mut bits) = (0u32, 0);
  for c in s.bytes().filter(|c| *c != b'=') {
    acc = (acc << 6) | T.iter().position(|t| *t == c).unwrap() as u32;
    bits += 6;
    if bits >= 8 {
      bits -= 8;
      out.push((acc >> bits) as u8);
      acc &= (1 << bits) - 1;
    }
  }
  out
}

// What the stored bytes say, if anything.
fn decode_string(b: &[u8]) -> Option<String> {
  let n = u64::from_le_bytes(b.get(.. 8)?.try_into().ok()?);
  let end = usize::try_from(n).ok()?.checked_add(8)?;
  String::from_utf8(b.get(8 .. end)?.to_vec()).ok()
}
fn decode_rec(b: &[u8]) -> Option<Rec> {
  let a = decode_string(b)?;
  let mut at = 8 + a.len();
  let mut take = |n: usize| {
    let s = b.get(at .. at + n);
    at += n;
    s
  };
  let n = u32::from_le_bytes(take(4)?.try_into().ok()?);
  let e = match take(1)?[0] {
    0 => None,
    1 => match u32::from_le_bytes(take(4)?.try_into().ok()?) {
      0 => Some(Extra::Code(i64::from_le_bytes(take(8)?.try_into().ok()?))),
      1 => Some(Extra::Build(decode_string(&b[at ..])?)),
      _ => return None,
    },
    _ => return None,
  };
  Some(Rec { a, n, e })
}

fn damaged(ctx: &Ctx) -> Res {
  let disk = Disk::new();
  let store = disk.store();
  let which = ctx.choose(8);
  let key = if which < 5 { "a" } else { "r" };
  if which < 5 {
    store.set(&A, &strings()[which]);
  } else {
    store.set(&R, &recs()[which - 5]);
  }
  store.set(&B, &"other".to_string());
  let raw = disk.raw(key).unwrap();
  let bytes = unb64(&raw);
  let mut foreign = false;
  let new = match ctx.choose(5) {
    0 => b64(&bytes[.. ctx.choose(bytes.len().min(60))]),
    1 => {
      let mut b = bytes.clone();
      let i = ctx.choose(b.len().min(60));
      b[i] = match ctx.choose(6) {
        0 => 0,
        1 => 0xff,
        2 => 0x7f,
        3 => 0x80,
        4 => b[i].wrapping_add(1),
        _ => b[i].wrapping_sub(1),
      };
      b64(&b)
    },
    3 => {
      let c = *ctx.pick(&[" ", "\n", "\0", "-", "_", "=", "é", "===="]);
      let at = *ctx.pick(&[0, 1, 2, 4, raw.len() / 2, raw.len() - 1, raw.len()]);
      let over = ctx.flip() && at < raw.len();
      foreign = !(over && raw.as_bytes()[at] == c.as_bytes()[0]);
      format!("{}{c}{}", &raw[.. at], &raw[at + usize::from(over) ..])
    },
    2 => raw[.. ctx.choose(raw.len().min(60))].to_string(),
    _ => {
      let mut b = bytes.clone();
      let n = *ctx.pick(&[u64::MAX, u64::MAX - 8, i64::MAX as u64, 1 << 62, 1 << 40, 1 << 33]);
      b[.. 8].copy_from_slice(&n.to_le_bytes());
      b64(&b)
    },
  };
  ctx.step();
  ctx.state(&new);
  ctx.say(|| format!("{key}, stored as {raw:?}, becomes {new:?}"));
  disk.put_raw(key, &new);
  let valid_b64 = new.len() % 4 == 0 && !foreign;
  let bytes = if valid_b64 { Some(unb64(&new)) } else { None };
  let gone = if which < 5 {
    let want = bytes.and_then(|b| decode_string(&b));
    same!("damaged", store.get(&A), want, "get of damaged {new:?}");
    want.is_none()
  } else {
    let want = bytes.and_then(|b| decode_rec(&b));
    same!("damaged", store.get(&R), want, "get of damaged {new:?}");
    want.is_none()
  };
  same!("damaged-kept", disk.raw(key).is_none(), gone, "removal of a malformed value");
  same!("isolation", store.get(&B), Some("other".to_string()), "the other key");
  Ok(())
}

fn golden(ctx: &Ctx) -> Res {
  let disk = Disk::new();
  let store = disk.store();
  disk.put_raw("a", "AQAAAAAAAAB4");
  same!("stored-form", store.get(&A), Some("x".to_string()), "a string stored before");
  let rec = Rec { a: "r".into(), n: 7, e: Some(Extra::Build("1.2".into())) };
  let mut b = vec![1, 0, 0, 0, 0, 0, 0, 0, b'r', 7, 0, 0, 0, 1, 1, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0];
  b.extend(b"1.2");
  disk.put_raw("r", &b64(&b));
  same!("stored-form", store.get(&R), Some(rec), "a record stored before");
  ctx.step();
  ctx.state(1);
  Ok(())
}
