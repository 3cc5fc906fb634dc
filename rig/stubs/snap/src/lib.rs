//! Offline stand-in for snap 1.1.1: the raw format with literals only.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(&'static str);
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub mod raw {
  use super::{Error, Result};
  #[derive(Default)]
  pub struct Encoder;
  impl Encoder {
    pub fn new() -> Self { Self }
    pub fn compress_vec(&mut self, b: &[u8]) -> Result<Vec<u8>> {
      let mut out = vec![];
      let mut n = b.len();
      while n >= 0x80 { out.push(n as u8 | 0x80); n >>= 7; }
      out.push(n as u8);
      for c in b.chunks(60) { out.push(((c.len() - 1) as u8) << 2); out.extend_from_slice(c); }
      Ok(out)
    }
  }
  #[derive(Default)]
  pub struct Decoder;
  impl Decoder {
    pub fn new() -> Self { Self }
    pub fn decompress_vec(&mut self, mut b: &[u8]) -> Result<Vec<u8>> {
      let (mut n, mut shift) = (0usize, 0);
      loop {
        let (&h, rest) = b.split_first().ok_or(Error("header"))?;
        b = rest;
        n |= ((h & 0x7f) as usize) << shift;
        if h & 0x80 == 0 { break; }
        shift += 7;
        if shift > 28 { return Err(Error("header")); }
      }
      let mut out = vec![];
      while let Some((&t, rest)) = b.split_first() {
        let len = (t >> 2) as usize + 1;
        if t & 3 != 0 || len > 60 || rest.len() < len { return Err(Error("corrupt")); }
        out.extend_from_slice(&rest[.. len]);
        b = &rest[len ..];
      }
      if out.len() == n { Ok(out) } else { Err(Error("length")) }
    }
  }
}
