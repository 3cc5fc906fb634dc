//! Offline stand-in for fs2 0.4.3: the one call the code uses, on the same system call.
use std::fs::File;
use std::io;
use std::os::fd::AsRawFd;
pub trait FileExt {
  fn try_lock_exclusive(&self) -> io::Result<()>;
  fn lock_exclusive(&self) -> io::Result<()>;
  fn unlock(&self) -> io::Result<()>;
}
fn flock(f: &File, op: i32) -> io::Result<()> {
  if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 { Err(io::Error::last_os_error()) } else { Ok(()) }
}
impl FileExt for File {
  fn try_lock_exclusive(&self) -> io::Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
  fn lock_exclusive(&self) -> io::Result<()> { flock(self, libc::LOCK_EX) }
  fn unlock(&self) -> io::Result<()> { flock(self, libc::LOCK_UN) }
}
