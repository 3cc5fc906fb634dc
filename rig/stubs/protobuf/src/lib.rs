//! Offline stand-in for the bitdriftlabs fork of rust-protobuf 4.0.0-alpha.0.
//!
//! It implements, from the protobuf wire-format specification, the runtime API that the code
//! generated in `/repo/bd-proto` and its users call. Reflection is reduced to names: nothing in the
//! code under check uses it. It is part of the trusted base of every check that goes through it.
#![allow(clippy::all)]

pub mod ext;
pub mod descriptor;
pub mod reflect;
pub mod rt;
pub mod text_format;
pub mod well_known_types;

use bytes::Bytes;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU32, Ordering};

pub const VERSION_4_0_0_ALPHA_0: () = ();

#[derive(Debug, thiserror::Error)]
pub enum Error {
  #[error("{0}")]
  Io(#[from] std::io::Error),
  #[error("{0}")]
  Wire(&'static str),
}

pub type Result<T> = std::result::Result<T, Error>;

impl From<Error> for std::io::Error {
  fn from(e: Error) -> Self {
    match e {
      Error::Io(e) => e,
      Error::Wire(e) => std::io::Error::new(std::io::ErrorKind::Other, e),
    }
  }
}

//
// Special fields
//

#[derive(Default, Debug)]
pub struct CachedSize(AtomicU32);
impl CachedSize {
  pub const fn new() -> Self {
    Self(AtomicU32::new(0))
  }
  pub fn get(&self) -> u32 {
    self.0.load(Ordering::Relaxed)
  }
  pub fn set(&self, v: u32) {
    self.0.store(v, Ordering::Relaxed);
  }
}
impl Clone for CachedSize {
  fn clone(&self) -> Self {
    Self(AtomicU32::new(self.get()))
  }
}
impl PartialEq for CachedSize {
  fn eq(&self, _: &Self) -> bool {
    true
  }
}
impl Eq for CachedSize {}
impl std::hash::Hash for CachedSize {
  fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

/// Unknown fields, kept as their encoding.
#[derive(Default, Debug, Clone, PartialEq, Eq, Hash)]
pub struct UnknownFields {
  pub(crate) raw: Vec<u8>,
}
impl UnknownFields {
  pub const fn new() -> Self {
    Self { raw: Vec::new() }
  }
  pub fn clear(&mut self) {
    self.raw.clear();
  }
}

#[derive(Default, Debug, Clone, PartialEq, Eq, Hash)]
pub struct SpecialFields {
  unknown_fields: UnknownFields,
  cached_size: CachedSize,
}
impl SpecialFields {
  pub const fn new() -> Self {
    Self {
      unknown_fields: UnknownFields::new(),
      cached_size: CachedSize::new(),
    }
  }
  pub fn unknown_fields(&self) -> &UnknownFields {
    &self.unknown_fields
  }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
    &mut self.unknown_fields
  }
  pub fn cached_size(&self) -> &CachedSize {
    &self.cached_size
  }
  pub fn clear(&mut self) {
    self.unknown_fields.clear();
    self.cached_size.set(0);
  }
}

//
// Message
//

pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + Debug + 'static {
  const NAME: &'static str;
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn new() -> Self;
  fn clear(&mut self) {
    *self = Self::new();
  }
  fn default_instance() -> &'static Self;

  fn cached_size(&self) -> u32 {
    self.special_fields().cached_size().get()
  }
  fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> {
    let mut r = Self::new();
    r.merge_from(is)?;
    Ok(r)
  }
  fn parse_from_bytes(bytes: &[u8]) -> Result<Self> {
    let mut is = CodedInputStream::from_bytes(bytes);
    Self::parse_from(&mut is)
  }
  fn parse_from_tokio_bytes(bytes: &Bytes) -> Result<Self> {
    Self::parse_from_bytes(bytes)
  }
  fn parse_from_reader(reader: &mut dyn Read) -> Result<Self> {
    let mut all = vec![];
    reader.read_to_end(&mut all)?;
    Self::parse_from_bytes(&all)
  }
  fn merge_from_bytes(&mut self, bytes: &[u8]) -> Result<()> {
    let mut is = CodedInputStream::from_bytes(bytes);
    self.merge_from(&mut is)
  }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.compute_size();
    self.write_to_with_cached_sizes(os)
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> {
    let mut v = vec![];
    self.write_to_vec(&mut v)?;
    Ok(v)
  }
  fn write_to_vec(&self, vec: &mut Vec<u8>) -> Result<()> {
    let mut os = CodedOutputStream::vec(vec);
    self.write_to(&mut os)?;
    os.flush()
  }
  fn write_to_writer(&self, w: &mut dyn Write) -> Result<()> {
    let bytes = self.write_to_bytes()?;
    w.write_all(&bytes)?;
    Ok(())
  }
  fn write_length_delimited_to_bytes(&self) -> Result<Vec<u8>> {
    let body = self.write_to_bytes()?;
    let mut v = vec![];
    let mut os = CodedOutputStream::vec(&mut v);
    os.write_raw_varint64(body.len() as u64)?;
    os.write_raw_bytes(&body)?;
    Ok(v)
  }
}

pub trait MessageFull: Message + reflect::ProtobufValue {
  fn descriptor() -> reflect::MessageDescriptor;
}

pub trait MessageDyn: Debug + Send + Sync + 'static {
  fn message_name(&self) -> &'static str;
}
impl<M: MessageFull> MessageDyn for M {
  fn message_name(&self) -> &'static str {
    M::NAME
  }
}

pub trait Enum: Eq + Sized + Copy + Debug + Default + Send + Sync + 'static {
  const NAME: &'static str;
  const VALUES: &'static [Self];
  fn value(&self) -> i32;
  fn from_i32(v: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> reflect::EnumDescriptor;
  fn descriptor(&self) -> reflect::EnumValueDescriptor;
}
pub trait Oneof {}
pub trait OneofFull: Oneof {
  fn descriptor() -> reflect::OneofDescriptor;
}

pub struct EnumOrUnknown<E: Enum> {
  value: i32,
  _m: std::marker::PhantomData<E>,
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self {
    Self::from_i32(e.value())
  }
  pub const fn from_i32(value: i32) -> Self {
    Self {
      value,
      _m: std::marker::PhantomData,
    }
  }
  pub fn value(&self) -> i32 {
    self.value
  }
  pub fn enum_value(&self) -> std::result::Result<E, i32> {
    E::from_i32(self.value).ok_or(self.value)
  }
  pub fn enum_value_or(&self, d: E) -> E {
    self.enum_value().unwrap_or(d)
  }
  pub fn enum_value_or_default(&self) -> E {
    self.enum_value().unwrap_or_default()
  }
  pub fn unwrap(&self) -> E {
    self.enum_value().unwrap()
  }
}
impl<E: Enum> Clone for EnumOrUnknown<E> {
  fn clone(&self) -> Self {
    *self
  }
}
impl<E: Enum> Copy for EnumOrUnknown<E> {}
impl<E: Enum> PartialEq for EnumOrUnknown<E> {
  fn eq(&self, o: &Self) -> bool {
    self.value == o.value
  }
}
impl<E: Enum> Eq for EnumOrUnknown<E> {}
impl<E: Enum> std::hash::Hash for EnumOrUnknown<E> {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.value.hash(h);
  }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
  fn default() -> Self {
    Self::new(E::default())
  }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
  fn from(e: E) -> Self {
    Self::new(e)
  }
}
impl<E: Enum> Debug for EnumOrUnknown<E> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self.enum_value() {
      Ok(e) => write!(f, "{e:?}"),
      Err(v) => write!(f, "{v}"),
    }
  }
}

//
// MessageField
//

pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> MessageField<T> {
  pub const fn none() -> Self {
    Self(None)
  }
  pub fn some(v: T) -> Self {
    Self(Some(Box::new(v)))
  }
  pub fn from_option(v: Option<T>) -> Self {
    Self(v.map(Box::new))
  }
  pub fn is_some(&self) -> bool {
    self.0.is_some()
  }
  pub fn is_none(&self) -> bool {
    self.0.is_none()
  }
  pub fn into_option(self) -> Option<T> {
    self.0.map(|b| *b)
  }
  pub fn as_ref(&self) -> Option<&T> {
    self.0.as_deref()
  }
  pub fn as_mut(&mut self) -> Option<&mut T> {
    self.0.as_deref_mut()
  }
  pub fn unwrap(self) -> T {
    *self.0.unwrap()
  }
  pub fn unwrap_or(self, d: T) -> T {
    self.0.map_or(d, |b| *b)
  }
  pub fn unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
    self.0.map_or_else(f, |b| *b)
  }
  pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> MessageField<U> {
    MessageField::from_option(self.into_option().map(f))
  }
  pub fn iter(&self) -> std::option::IntoIter<&T> {
    self.as_ref().into_iter()
  }
  pub fn take(&mut self) -> Option<T> {
    self.0.take().map(|b| *b)
  }
  pub fn clear(&mut self) {
    self.0 = None;
  }
}
impl<T: Default> MessageField<T> {
  pub fn unwrap_or_default(self) -> T {
    *self.0.unwrap_or_default()
  }
  pub fn mut_or_insert_default(&mut self) -> &mut T {
    self.0.get_or_insert_with(Default::default)
  }
}
impl<T: Message> MessageField<T> {
  pub fn get_or_default<'a>(&'a self) -> &'a T {
    self.as_ref().unwrap_or_else(|| T::default_instance())
  }
}
impl<T: Message> std::ops::Deref for MessageField<T> {
  type Target = T;
  fn deref(&self) -> &T {
    self.get_or_default()
  }
}
impl<T> Default for MessageField<T> {
  fn default() -> Self {
    Self(None)
  }
}
impl<T: Clone> Clone for MessageField<T> {
  fn clone(&self) -> Self {
    Self(self.0.clone())
  }
}
impl<T: PartialEq> PartialEq for MessageField<T> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<T: Eq> Eq for MessageField<T> {}
impl<T: std::hash::Hash> std::hash::Hash for MessageField<T> {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.0.hash(h);
  }
}
impl<T: Debug> Debug for MessageField<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.0.fmt(f)
  }
}
impl<T> From<Option<T>> for MessageField<T> {
  fn from(o: Option<T>) -> Self {
    Self::from_option(o)
  }
}
impl<T> IntoIterator for MessageField<T> {
  type Item = T;
  type IntoIter = std::option::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.into_option().into_iter()
  }
}
impl<'a, T> IntoIterator for &'a MessageField<T> {
  type Item = &'a T;
  type IntoIter = std::option::IntoIter<&'a T>;
  fn into_iter(self) -> Self::IntoIter {
    self.iter()
  }
}

//
// Chars
//

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Chars(Bytes);
impl Chars {
  pub const fn new() -> Self {
    Self(Bytes::new())
  }
  pub fn from_bytes(b: Bytes) -> std::result::Result<Self, std::str::Utf8Error> {
    std::str::from_utf8(&b)?;
    Ok(Self(b))
  }
  pub fn as_str(&self) -> &str {
    self
  }
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
  pub fn clear(&mut self) {
    self.0 = Bytes::new();
  }
}
impl Default for Chars {
  fn default() -> Self {
    Self::new()
  }
}
impl std::ops::Deref for Chars {
  type Target = str;
  fn deref(&self) -> &str {
    std::str::from_utf8(&self.0).unwrap()
  }
}
impl std::borrow::Borrow<str> for Chars {
  fn borrow(&self) -> &str {
    self
  }
}
impl AsRef<str> for Chars {
  fn as_ref(&self) -> &str {
    self
  }
}
impl From<String> for Chars {
  fn from(s: String) -> Self {
    Self(s.into())
  }
}
impl From<&str> for Chars {
  fn from(s: &str) -> Self {
    Self(Bytes::copy_from_slice(s.as_bytes()))
  }
}
impl Debug for Chars {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Debug::fmt(&**self, f)
  }
}
impl std::fmt::Display for Chars {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&**self, f)
  }
}

//
// Input
//

const RECURSION_LIMIT: u32 = 100;

pub struct CodedInputStream<'a> {
  buf: &'a [u8],
  pos: usize,
  limit: usize,
  depth: u32,
}

impl<'a> CodedInputStream<'a> {
  pub fn from_bytes(buf: &'a [u8]) -> Self {
    Self {
      buf,
      pos: 0,
      limit: buf.len(),
      depth: 0,
    }
  }

  pub fn eof(&mut self) -> Result<bool> {
    Ok(self.pos == self.limit)
  }
  pub fn pos(&self) -> u64 {
    self.pos as u64
  }
  pub(crate) fn take(&mut self, n: usize) -> Result<&'a [u8]> {
    if self.limit - self.pos < n {
      return Err(Error::Wire("unexpected EOF"));
    }
    let r = &self.buf[self.pos .. self.pos + n];
    self.pos += n;
    Ok(r)
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let mut r = 0u64;
    for i in 0 .. 10 {
      let b = self.take(1)?[0];
      if i == 9 && b > 1 {
        return Err(Error::Wire("incorrect varint"));
      }
      r |= u64::from(b & 0x7f) << (i * 7);
      if b & 0x80 == 0 {
        return Ok(r);
      }
    }
    Err(Error::Wire("incorrect varint"))
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> {
    let v = self.read_raw_varint64()?;
    u32::try_from(v).map_err(|_| Error::Wire("u32 overflow"))
  }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.pos == self.limit {
      return Ok(None);
    }
    let tag = self.read_raw_varint32()?;
    if tag >> 3 == 0 || tag & 7 > 5 {
      return Err(Error::Wire("Incorrect tag"));
    }
    Ok(Some(tag))
  }
  pub fn push_limit(&mut self, len: u64) -> Result<u64> {
    let len = usize::try_from(len).map_err(|_| Error::Wire("limit overflow"))?;
    if self.limit - self.pos < len {
      return Err(Error::Wire("truncated message"));
    }
    let old = self.limit;
    self.limit = self.pos + len;
    Ok(old as u64)
  }
  pub fn pop_limit(&mut self, old: u64) {
    self.limit = old as usize;
  }
  pub fn read_uint64(&mut self) -> Result<u64> {
    self.read_raw_varint64()
  }
  pub fn read_int64(&mut self) -> Result<i64> {
    Ok(self.read_raw_varint64()? as i64)
  }
  pub fn read_uint32(&mut self) -> Result<u32> {
    self.read_raw_varint32()
  }
  pub fn read_int32(&mut self) -> Result<i32> {
    let v = self.read_raw_varint64()? as i64;
    i32::try_from(v).map_err(|_| Error::Wire("i32 overflow"))
  }
  pub fn read_sint64(&mut self) -> Result<i64> {
    let v = self.read_raw_varint64()?;
    Ok((v >> 1) as i64 ^ -((v & 1) as i64))
  }
  pub fn read_sint32(&mut self) -> Result<i32> {
    let v = self.read_raw_varint32()?;
    Ok((v >> 1) as i32 ^ -((v & 1) as i32))
  }
  pub fn read_bool(&mut self) -> Result<bool> {
    Ok(self.read_raw_varint64()? != 0)
  }
  pub fn read_double(&mut self) -> Result<f64> {
    Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
  }
  pub fn read_float(&mut self) -> Result<f32> {
    Ok(f32::from_le_bytes(self.take(4)?.try_into().unwrap()))
  }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
    Ok(EnumOrUnknown::from_i32(self.read_int32()?))
  }
  fn read_slice(&mut self) -> Result<&'a [u8]> {
    let len = self.read_raw_varint32()? as usize;
    self.take(len)
  }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
    Ok(self.read_slice()?.to_vec())
  }
  pub fn read_tokio_bytes(&mut self) -> Result<Bytes> {
    Ok(Bytes::copy_from_slice(self.read_slice()?))
  }
  pub fn read_string(&mut self) -> Result<String> {
    String::from_utf8(self.read_bytes()?).map_err(|_| Error::Wire("utf8 error"))
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> {
    Chars::from_bytes(self.read_tokio_bytes()?).map_err(|_| Error::Wire("utf8 error"))
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    if self.depth >= RECURSION_LIMIT {
      return Err(Error::Wire("recursion limit"));
    }
    self.depth += 1;
    let len = self.read_raw_varint64()?;
    let old = self.push_limit(len)?;
    m.merge_from(self)?;
    self.pop_limit(old);
    self.depth -= 1;
    Ok(())
  }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  pub fn read_repeated_packed_double_into(&mut self, out: &mut Vec<f64>) -> Result<()> {
    let len = self.read_raw_varint64()?;
    let old = self.push_limit(len)?;
    while !self.eof()? {
      out.push(self.read_double()?);
    }
    self.pop_limit(old);
    Ok(())
  }
  /// Skips the field and gives the bytes of its value.
  pub(crate) fn skip(&mut self, tag: u32) -> Result<&'a [u8]> {
    let start = self.pos;
    match tag & 7 {
      0 => {
        self.read_raw_varint64()?;
      },
      1 => {
        self.take(8)?;
      },
      2 => {
        self.read_slice()?;
      },
      3 => {
        if self.depth >= RECURSION_LIMIT {
          return Err(Error::Wire("recursion limit"));
        }
        self.depth += 1;
        loop {
          let Some(t) = self.read_raw_tag_or_eof()? else {
            return Err(Error::Wire("unexpected EOF"));
          };
          if t & 7 == 4 {
            break;
          }
          self.skip(t)?;
        }
        self.depth -= 1;
      },
      5 => {
        self.take(4)?;
      },
      _ => return Err(Error::Wire("unexpected wire type")),
    }
    Ok(&self.buf[start .. self.pos])
  }
}

//
// Output
//

enum Target<'a> {
  Vec(&'a mut Vec<u8>),
  Bytes(&'a mut [u8], usize),
  Write(&'a mut dyn Write),
}

pub struct CodedOutputStream<'a> {
  target: Target<'a>,
}

impl<'a> CodedOutputStream<'a> {
  pub fn new(w: &'a mut dyn Write) -> Self {
    Self {
      target: Target::Write(w),
    }
  }
  pub fn vec(v: &'a mut Vec<u8>) -> Self {
    Self {
      target: Target::Vec(v),
    }
  }
  pub fn bytes(b: &'a mut [u8]) -> Self {
    Self {
      target: Target::Bytes(b, 0),
    }
  }
  pub fn flush(&mut self) -> Result<()> {
    Ok(())
  }
  pub fn write_raw_bytes(&mut self, b: &[u8]) -> Result<()> {
    match &mut self.target {
      Target::Vec(v) => v.extend_from_slice(b),
      Target::Bytes(out, pos) => {
        if out.len() - *pos < b.len() {
          return Err(Error::Wire("output buffer too small"));
        }
        out[*pos .. *pos + b.len()].copy_from_slice(b);
        *pos += b.len();
      },
      Target::Write(w) => w.write_all(b)?,
    }
    Ok(())
  }
  pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
    let mut b = [0u8; 10];
    let mut n = 0;
    while v >= 0x80 {
      b[n] = v as u8 | 0x80;
      v >>= 7;
      n += 1;
    }
    b[n] = v as u8;
    self.write_raw_bytes(&b[..= n])
  }
  pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint64(u64::from(v))
  }
  pub fn write_tag(&mut self, field: u32, wire: u32) -> Result<()> {
    self.write_raw_varint32(field << 3 | wire)
  }
  pub fn write_uint64(&mut self, f: u32, v: u64) -> Result<()> {
    self.write_tag(f, 0)?;
    self.write_raw_varint64(v)
  }
  pub fn write_int64(&mut self, f: u32, v: i64) -> Result<()> {
    self.write_uint64(f, v as u64)
  }
  pub fn write_uint32(&mut self, f: u32, v: u32) -> Result<()> {
    self.write_uint64(f, u64::from(v))
  }
  pub fn write_int32(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_uint64(f, i64::from(v) as u64)
  }
  pub fn write_sint64(&mut self, f: u32, v: i64) -> Result<()> {
    self.write_uint64(f, ((v << 1) ^ (v >> 63)) as u64)
  }
  pub fn write_sint32(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_uint64(f, u64::from(((v << 1) ^ (v >> 31)) as u32))
  }
  pub fn write_bool(&mut self, f: u32, v: bool) -> Result<()> {
    self.write_uint64(f, u64::from(v))
  }
  pub fn write_enum(&mut self, f: u32, v: i32) -> Result<()> {
    self.write_int32(f, v)
  }
  pub fn write_double(&mut self, f: u32, v: f64) -> Result<()> {
    self.write_tag(f, 1)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_float(&mut self, f: u32, v: f32) -> Result<()> {
    self.write_tag(f, 5)?;
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_bytes(&mut self, f: u32, v: &[u8]) -> Result<()> {
    self.write_tag(f, 2)?;
    self.write_raw_varint64(v.len() as u64)?;
    self.write_raw_bytes(v)
  }
  pub fn write_string(&mut self, f: u32, v: &str) -> Result<()> {
    self.write_bytes(f, v.as_bytes())
  }
  pub fn write_repeated_packed_double(&mut self, f: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.write_tag(f, 2)?;
    self.write_raw_varint64(v.len() as u64 * 8)?;
    for d in v {
      self.write_raw_bytes(&d.to_le_bytes())?;
    }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(
    &mut self,
    f: u32,
    v: &[EnumOrUnknown<E>],
  ) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.write_tag(f, 2)?;
    self.write_raw_varint64(v.iter().map(|e| rt::varint_size(i64::from(e.value()) as u64)).sum())?;
    for e in v {
      self.write_raw_varint64(i64::from(e.value()) as u64)?;
    }
    Ok(())
  }
  pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
    self.write_raw_bytes(&u.raw)
  }
}
