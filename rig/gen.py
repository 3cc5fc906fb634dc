#!/usr/bin/env python3
"""Lays out /verif/build: a cargo workspace over (nearly) all of /repo that builds with no network.

/repo's own workspace cannot be resolved here: protobuf, protobuf-codegen, protobuf-json-mapping and
sketches-rust are git dependencies, and some crates.io crates are not in the offline cache. This one
 - copies every crate's src from /repo's working tree (a file is only written when its content
   differs, so that cargo sees what changed by content),
 - takes /repo's manifests less build scripts and what is not here,
 - uses the stand-ins of /verif/rig/stubs for the crates that are missing,
 - adds the harness crates of /verif/harness,
 - takes every other crate from a directory source made from the offline cargo caches.
"""

import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import sys
import tarfile
import tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
WS = f"{BUILD}/ws"
VENDOR = f"{BUILD}/vendor"
CACHE = os.path.expanduser("~/.cargo/registry/cache")

# Crates of /repo that are left out: they need what has no stand-in, and nothing checked uses them.
LEFT_OUT = {"bd-profile", "bd-pgv", "bd-proto-util", "profiling", "fuzz"}
STUBS = {"protobuf", "sketches-rust", "intrusive-collections", "fs2", "snap", "bd-pgv", "parking_lot", "dashmap", "parameterized", "hyper-rustls"}
NO_SUCH = {
    "protobuf-codegen", "protobuf-json-mapping", "rstest",
    "base64-url", "jni", "android_logger", "flatc-rust", "criterion", "tikv-jemalloc-ctl",
}
GUARD = "bd_verif"
# Their locks are in statics, which the executions of one exploration share: those stay as they are.
GLOBAL_LOCKS = {"bd-log", "bd-client-common"}


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    with open(path, "wb") as f:
        f.write(data)


def mirror(src, dst, edit=None):
    """dst becomes a copy of src; only what differs is written."""
    want = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            want.add(rel)
            with open(p, "rb") as h:
                data = h.read()
            if edit:
                data = edit(rel, data)
            write(os.path.join(dst, rel), data)
    for d, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)


def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v)


def dump(tables):
    out = ""
    for name, table in tables.items():
        out += f"[{name}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in table.items()) + "\n"
    return out


def members():
    out = []
    for d in sorted(os.listdir(REPO)):
        if d not in LEFT_OUT and os.path.exists(f"{REPO}/{d}/Cargo.toml"):
            out.append(d)
    return out


def deps(table, crates, crate):
    out = {}
    for k, v in table.items():
        if k in NO_SUCH:
            continue
        if k == "parking_lot" and crate in GLOBAL_LOCKS:
            v = "0.12.3"
        if isinstance(v, dict) and "path" in v:
            name = os.path.basename(v["path"])
            if name == "bd-pgv":
                v = {**v, "path": "../stubs/bd-pgv"}
            elif name not in crates:
                continue
        if k == "flate2" and "features" in v:
            # libz is not here; the backend flate2 has of its own is.
            v = {**v, "features": ["rust_backend" if f.startswith("zlib") else f for f in v["features"]]}
        out[k] = v
    return out


def manifest(crate, crates):
    m = tomllib.loads(read(f"{REPO}/{crate}/Cargo.toml"))
    t = {"package": {**m["package"], "build": False}}
    t["package"].pop("license-file", None)
    for auto in ("autotests", "autobenches", "autoexamples"):
        t["package"][auto] = False
    t["lib"] = dict(m.get("lib", {}), doctest=False)
    t["dependencies"] = {**deps(m.get("dependencies", {}), crates, crate), "mc-sync": {"path": "../stubs/mc-sync"}, "mc-fs": {"path": "../stubs/mc-fs"}}
    t["dev-dependencies"] = deps(m.get("dev-dependencies", {}), crates, crate)
    if "features" in m:
        t["features"] = {
            k: ["flate2/rust_backend" if f.startswith("flate2/zlib") else f for f in v] for k, v in m["features"].items()
        }
    return dump(t)


def hub(crates):
    """A crate that depends on all that comes from elsewhere, with all features that are asked for
    somewhere: whichever harness is built, everything it needs has been built the same way before."""
    out = {}
    for c in crates:
        m = tomllib.loads(read(f"{REPO}/{c}/Cargo.toml"))
        for table in ("dependencies", "dev-dependencies"):
            for k, v in deps(m.get(table, {}), crates, c).items():
                v = dict(v) if isinstance(v, dict) else {"version": v}
                if "path" in v or c in GLOBAL_LOCKS and k == "parking_lot":
                    continue
                v.pop("optional", None)
                old = out.setdefault(k, v)
                more = set(old.get("features", [])) | set(v.get("features", []))
                if more:
                    old["features"] = sorted(more)
                if v.get("default-features", True):
                    old.pop("default-features", None)
    package = {"name": "hub", "version": "0.1.0", "edition": "2021"}
    write(f"{WS}/hub/src/lib.rs", "")
    write(f"{WS}/hub/Cargo.toml", dump({"package": package, "dependencies": out}))


def vendor():
    """The directory source. .crate files are taken as they are; both caches go in."""
    os.makedirs(VENDOR, exist_ok=True)
    have = set(os.listdir(VENDOR))
    todo = []
    wanted = {(p["name"], p["version"]) for p in tomllib.loads(read(f"{VERIF}/rig/Cargo.lock")).get("package", [])} \
        if os.path.exists(f"{VERIF}/rig/Cargo.lock") and "--all" not in sys.argv else None
    for c in sorted(glob.glob(f"{CACHE}/*/*.crate")):
        name = os.path.basename(c)[:-6]
        m = re.match(r"(.*?)-(\d+\.\d+\.\d+.*)$", name)
        if wanted is not None and (m[1], m[2]) not in wanted:
            continue
        if name not in have:
            have.add(name)
            todo.append((c, name))

    def one(item):
        c, name = item
        with open(c, "rb") as f:
            sha = hashlib.sha256(f.read()).hexdigest()
        tmp = f"{VENDOR}/.tmp-{name}"
        shutil.rmtree(tmp, ignore_errors=True)
        with tarfile.open(c, "r:gz") as t:
            t.extractall(tmp, filter="fully_trusted")
        with open(f"{tmp}/{name}/.cargo-checksum.json", "w") as f:
            json.dump({"files": {}, "package": sha}, f)
        os.rename(f"{tmp}/{name}", f"{VENDOR}/{name}")
        os.rmdir(tmp)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


# Here std's locks, atomics and threads become those of the controlled scheduler (stubs/mc-sync). In
# the other crates they reach other crates' types, or are of no interest.
NOT_CONTROLLED = {"bd-log", "bd-proto", "bd-test-helpers", "bd-internal-logging", "bd-noop-network"}
SYNC = re.compile(rb"\bstd::(sync|thread)\b")
# What is done to files by path may fail, or be the last thing a process does (stubs/mc-fs).
FILES = re.compile(rb"\b(std|tokio)::fs\b")


def edit_source(crate):
    def edit(rel, data):
        if crate in NOT_CONTROLLED or not rel.endswith(".rs") or rel.endswith("_test.rs"):
            return data
        data = data.replace(b"Arc::strong_count(", b"mc_sync::strong_count(")
        data = FILES.sub(lambda m: b"mc_fs::fs" if m[1] == b"std" else b"mc_fs::tokio::fs", data)
        return SYNC.sub(lambda m: b"mc_sync" if m[1] == b"sync" else b"mc_sync::thread", data)
    return edit


def patched(name, series, edits, add=()):
    """stubs/<name>: the crate as it is but for what `edits` substitutes in it."""
    version = next(p["version"] for p in tomllib.loads(read(f"{VERIF}/rig/Cargo.lock"))["package"]
                   if p["name"] == name and p["version"].startswith(series))

    def edit(rel, data):
        for a, b in edits.get(rel, []):
            assert a.encode() in data, f"{name}: {rel}: no {a}"
            data = data.replace(a.encode(), b.encode())
        if rel == "Cargo.toml":
            data += b'\n[dependencies.mc-sync]\npath = "../mc-sync"\n'
        return data

    mirror(f"{VENDOR}/{name}-{version}", f"{WS}/stubs/{name}", edit)
    for rel, text in add:
        write(f"{WS}/stubs/{name}/{rel}", text)


def patches():
    # tokio, with its blocking waits under the controlled scheduler and no chance of its own.
    patched("tokio", "1.", {
        "src/runtime/park.rs": [
            ("use crate::loom::sync::{Arc, Condvar, Mutex};", "use crate::loom::sync::Arc;\nuse mc_sync::{Condvar, Mutex};"),
            ("self.mutex.lock()", "self.mutex.lock().unwrap()"),
        ],
        "src/runtime/blocking/pool.rs": [
            ("    fn spawn_task(&self, task: Task, rt: &Handle) -> Result<(), SpawnError> {\n", """    fn spawn_task(&self, task: Task, rt: &Handle) -> Result<(), SpawnError> {
        if mc_sync::sched::controlled() {
            let rt = rt.clone();
            drop(mc_sync::thread::Builder::new().name("blocking".to_string()).spawn(move || {
                let _enter = rt.enter();
                task.run();
            }));
            return Ok(());
        }
"""),
        ],
        # A timed wait of a controlled thread is over when there is nothing else that can go on: then
        # time goes by, whatever blocking tasks there are.
        "src/runtime/time/mod.rs": [
            ("            } else {\n                self.park.park_timeout(rt_handle, duration);\n", """            } else {
                self.park.park_timeout(rt_handle, duration);
                if mc_sync::sched::controlled() && !handle.did_wake() {
                    let _ = clock.advance(duration);
                }
"""),
        ],
        "src/macros/support.rs": [("crate::runtime::context::thread_rng_n(n)", "mc_sync::pick(n)")],
        "src/util/rand.rs": [("Self::from_u64(crate::loom::rand::seed())", "Self::from_u64(0x5eed_5eed_5eed_5eed)")],
    })
    # rand, whose thread_rng() gives what the exploration says, where it says anything.
    patched("rand", "0.8.", {
        "src/rngs/thread.rs": [
            ("fn next_u32(&mut self) -> u32 {", "fn next_u32(&mut self) -> u32 {\n        if let Some(x) = mc_sync::raw_random() { return (x >> 32) as u32; }"),
            ("fn next_u64(&mut self) -> u64 {", "fn next_u64(&mut self) -> u64 {\n        if let Some(x) = mc_sync::raw_random() { return x; }"),
        ],
    })
    # notify, whose events the harness makes.
    patched("notify", "7.", {
        "src/lib.rs": [
            ("pub type RecommendedWatcher = INotifyWatcher;", "pub type RecommendedWatcher = staged::StagedWatcher;\npub mod staged;"),
        ],
    }, [("src/staged.rs", read(f"{VERIF}/rig/staged_notify.rs"))])


def main():
    if "--no-vendor" not in sys.argv:
        vendor()
    crates = members()
    ws = tomllib.loads(read(f"{REPO}/Cargo.toml"))
    harness = [
        h for h in sorted(os.listdir(f"{VERIF}/harness")) if os.path.exists(f"{VERIF}/harness/{h}/Cargo.toml")
    ] if os.path.isdir(f"{VERIF}/harness") else []
    wd = {}
    for k, v in ws["workspace"]["dependencies"].items():
        if k in NO_SUCH:
            continue
        if k in STUBS and os.path.isdir(f"{VERIF}/rig/stubs/{k}"):
            v = {"path": f"stubs/{k}"}
        wd[k] = v
    for stub in sorted(os.listdir(f"{VERIF}/rig/stubs")):
        mirror(f"{VERIF}/rig/stubs/{stub}", f"{WS}/stubs/{stub}")
    if not os.path.isdir(f"{WS}/stubs/notify") or "--no-vendor" not in sys.argv:
        patches()
    for c in crates:
        write(f"{WS}/{c}/Cargo.toml", manifest(c, crates))
        mirror(f"{REPO}/{c}/src", f"{WS}/{c}/src", edit_source(c))
    for c in os.listdir(WS):
        if c.startswith("bd-") and c not in crates:
            shutil.rmtree(f"{WS}/{c}")
    hub(crates)
    for h in harness:
        mirror(f"{VERIF}/harness/{h}", f"{WS}/harness/{h}")
    write(
        f"{WS}/Cargo.toml",
        dump({
            "workspace": {
                "members": [*crates, "hub", *(f"harness/{h}" for h in harness)],
                "exclude": ["stubs"],
                "resolver": "2",
            },
            "workspace.dependencies": wd,
            "patch.crates-io": {"want": {"path": "stubs/want"}, **{n: {"path": f"stubs/{n}"} for n in ("tokio", "rand", "notify")}},
            "profile.dev": {"debug": 0, "opt-level": 1, "incremental": True, "debug-assertions": True, "overflow-checks": True},
            'profile.dev.package."*"': {"opt-level": 2, "debug-assertions": False},
        }),
    )
    write(
        f"{WS}/.cargo/config.toml",
        f"""[source.crates-io]
replace-with = "vendored"

[source.vendored]
directory = "{VENDOR}"

[net]
offline = true

[build]
rustflags = ["--cfg", "{GUARD}", "-Awarnings", "-Clink-arg=-fuse-ld=lld"]
""",
    )
    lock = f"{VERIF}/rig/Cargo.lock"
    if os.path.exists(lock):
        text = read(lock)
        if not os.path.exists(f"{WS}/Cargo.lock") or not os.path.exists(f"{WS}/Cargo.lock.in") or read(f"{WS}/Cargo.lock.in") != text:
            write(f"{WS}/Cargo.lock", text)
            write(f"{WS}/Cargo.lock.in", text)


if __name__ == "__main__":
    main()
