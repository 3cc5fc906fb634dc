// The modules are private to the logger: they are compiled here as they are.
#[allow(dead_code, unused)]
#[path = "../../../bd-logger/src/app_version.rs"]
mod app_version;
#[allow(dead_code, unused)]
#[path = "../../../bd-logger/src/metadata.rs"]
mod metadata;

#[allow(dead_code)]
#[path = "../../store/src/disk.rs"]
mod disk;
mod fields;
mod versions;

fn main() {
  mc::main(&[mc::Check { id: "C08", f: versions::c08 }, mc::Check { id: "C09", f: fields::c09 }]);
}
