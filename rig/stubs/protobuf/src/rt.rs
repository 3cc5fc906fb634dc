use crate::{CodedInputStream, CodedOutputStream, Enum, EnumOrUnknown, Message, MessageField, Result, UnknownFields};

pub struct Lazy<T>(std::sync::OnceLock<T>);
impl<T> Lazy<T> {
  pub const fn new() -> Self {
    Self(std::sync::OnceLock::new())
  }
  pub fn get(&self, f: impl FnOnce() -> T) -> &T {
    self.0.get_or_init(f)
  }
}

pub(crate) const fn varint_size(v: u64) -> u64 {
  let bits = 64 - (v | 1).leading_zeros() as u64;
  (bits + 6) / 7
}
const fn tag_size(f: u32) -> u64 {
  varint_size((f as u64) << 3)
}
pub fn compute_raw_varint64_size(v: u64) -> u64 {
  varint_size(v)
}
pub fn unknown_fields_size(u: &UnknownFields) -> u64 {
  u.raw.len() as u64
}
pub fn bytes_size(f: u32, b: &[u8]) -> u64 {
  tag_size(f) + varint_size(b.len() as u64) + b.len() as u64
}
pub fn string_size(f: u32, s: &str) -> u64 {
  bytes_size(f, s.as_bytes())
}
pub fn uint64_size(f: u32, v: u64) -> u64 {
  tag_size(f) + varint_size(v)
}
pub fn int64_size(f: u32, v: i64) -> u64 {
  uint64_size(f, v as u64)
}
pub fn uint32_size(f: u32, v: u32) -> u64 {
  uint64_size(f, u64::from(v))
}
pub fn int32_size(f: u32, v: i32) -> u64 {
  int64_size(f, i64::from(v))
}
pub fn sint64_size(f: u32, v: i64) -> u64 {
  uint64_size(f, ((v << 1) ^ (v >> 63)) as u64)
}
pub fn sint32_size(f: u32, v: i32) -> u64 {
  uint64_size(f, u64::from(((v << 1) ^ (v >> 31)) as u32))
}
pub fn vec_packed_double_size(f: u32, v: &[f64]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let n = v.len() as u64 * 8;
  tag_size(f) + varint_size(n) + n
}
pub fn vec_packed_enum_or_unknown_size<E: Enum>(f: u32, v: &[EnumOrUnknown<E>]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let n = v.iter().map(|e| varint_size(i64::from(e.value()) as u64)).sum();
  tag_size(f) + varint_size(n) + n
}
pub fn write_message_field_with_cached_size<M: Message>(
  f: u32,
  m: &M,
  os: &mut CodedOutputStream<'_>,
) -> Result<()> {
  os.write_tag(f, 2)?;
  os.write_raw_varint32(m.cached_size())?;
  m.write_to_with_cached_sizes(os)
}
pub fn read_singular_message_into_field<M: Message>(
  is: &mut CodedInputStream<'_>,
  f: &mut MessageField<M>,
) -> Result<()> {
  is.merge_message(f.mut_or_insert_default())
}
pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(
  is: &mut CodedInputStream<'_>,
  out: &mut Vec<EnumOrUnknown<E>>,
) -> Result<()> {
  let len = is.read_raw_varint64()?;
  let old = is.push_limit(len)?;
  while !is.eof()? {
    out.push(is.read_enum_or_unknown()?);
  }
  is.pop_limit(old);
  Ok(())
}
pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
  is.skip(tag).map(|_| ())
}
pub fn read_unknown_or_skip_group(
  tag: u32,
  is: &mut CodedInputStream<'_>,
  u: &mut UnknownFields,
) -> Result<()> {
  if tag & 7 == 3 {
    is.skip(tag)?;
    return Ok(());
  }
  let bytes = is.skip(tag)?;
  let mut os = CodedOutputStream::vec(&mut u.raw);
  os.write_raw_varint32(tag)?;
  os.write_raw_bytes(bytes)
}
