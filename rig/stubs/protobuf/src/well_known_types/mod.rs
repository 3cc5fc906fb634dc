use crate::{CodedInputStream, CodedOutputStream, Message, Result, SpecialFields};

macro_rules! seconds_nanos {
  ($m:ident, $t:ident) => {
    pub mod $m {
      use super::*;
      #[derive(Default, Clone, Debug, PartialEq)]
      pub struct $t {
        pub seconds: i64,
        pub nanos: i32,
        pub special_fields: SpecialFields,
      }
      impl $t {
        pub fn new() -> Self { Self::default() }
      }
      impl<'a> Default for &'a $t {
        fn default() -> &'a $t { <$t as Message>::default_instance() }
      }
      impl Message for $t {
        const NAME: &'static str = stringify!($t);
        fn is_initialized(&self) -> bool { true }
        fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
          while let Some(tag) = is.read_raw_tag_or_eof()? {
            match tag {
              8 => self.seconds = is.read_int64()?,
              16 => self.nanos = is.read_int32()?,
              tag => crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
            }
          }
          Ok(())
        }
        fn compute_size(&self) -> u64 {
          let mut n = 0;
          if self.seconds != 0 { n += crate::rt::int64_size(1, self.seconds); }
          if self.nanos != 0 { n += crate::rt::int32_size(2, self.nanos); }
          n += crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
          self.special_fields.cached_size().set(n as u32);
          n
        }
        fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
          if self.seconds != 0 { os.write_int64(1, self.seconds)?; }
          if self.nanos != 0 { os.write_int32(2, self.nanos)?; }
          os.write_unknown_fields(self.special_fields.unknown_fields())
        }
        fn special_fields(&self) -> &SpecialFields { &self.special_fields }
        fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
        fn new() -> Self { Self::default() }
        fn default_instance() -> &'static Self {
          static I: $t = $t { seconds: 0, nanos: 0, special_fields: SpecialFields::new() };
          &I
        }
      }
      impl crate::reflect::ProtobufValue for $t { type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>; }
      impl crate::MessageFull for $t {
        fn descriptor() -> crate::reflect::MessageDescriptor { file_descriptor().message_by_package_relative_name(stringify!($t)).unwrap() }
      }
      impl std::fmt::Display for $t {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { crate::text_format::fmt(self, f) }
      }
      pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { crate::reflect::google() }
    }
  };
}
seconds_nanos!(timestamp, Timestamp);
seconds_nanos!(duration, Duration);

impl From<duration::Duration> for std::time::Duration {
  fn from(d: duration::Duration) -> Self {
    assert!(d.seconds >= 0 && d.nanos >= 0);
    Self::new(d.seconds as u64, d.nanos as u32)
  }
}
impl From<std::time::Duration> for duration::Duration {
  fn from(d: std::time::Duration) -> Self {
    Self { seconds: d.as_secs() as i64, nanos: d.subsec_nanos() as i32, special_fields: SpecialFields::new() }
  }
}

pub mod any {
  use super::*;
  #[derive(Default, Clone, Debug, PartialEq)]
  pub struct Any {
    pub type_url: String,
    pub value: Vec<u8>,
    pub special_fields: SpecialFields,
  }
  impl Any {
    pub fn new() -> Self { Self::default() }
    pub fn pack<M: crate::MessageFull>(m: &M) -> Result<Self> {
      Ok(Self { type_url: format!("type.googleapis.com/{}", M::descriptor().full_name()), value: m.write_to_bytes()?, special_fields: SpecialFields::new() })
    }
    pub fn unpack<M: crate::MessageFull>(&self) -> Result<Option<M>> {
      if self.type_url.rsplit('/').next() == Some(M::descriptor().full_name()) { M::parse_from_bytes(&self.value).map(Some) } else { Ok(None) }
    }
  }
  impl<'a> Default for &'a Any {
    fn default() -> &'a Any { <Any as Message>::default_instance() }
  }
  impl Message for Any {
    const NAME: &'static str = "Any";
    fn is_initialized(&self) -> bool { true }
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
      while let Some(tag) = is.read_raw_tag_or_eof()? {
        match tag {
          10 => self.type_url = is.read_string()?,
          18 => self.value = is.read_bytes()?,
          tag => crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
        }
      }
      Ok(())
    }
    fn compute_size(&self) -> u64 {
      let mut n = 0;
      if !self.type_url.is_empty() { n += crate::rt::string_size(1, &self.type_url); }
      if !self.value.is_empty() { n += crate::rt::bytes_size(2, &self.value); }
      n += crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
      self.special_fields.cached_size().set(n as u32);
      n
    }
    fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
      if !self.type_url.is_empty() { os.write_string(1, &self.type_url)?; }
      if !self.value.is_empty() { os.write_bytes(2, &self.value)?; }
      os.write_unknown_fields(self.special_fields.unknown_fields())
    }
    fn special_fields(&self) -> &SpecialFields { &self.special_fields }
    fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special_fields }
    fn new() -> Self { Self::default() }
    fn default_instance() -> &'static Self {
      static I: Any = Any { type_url: String::new(), value: Vec::new(), special_fields: SpecialFields::new() };
      &I
    }
  }
  impl crate::reflect::ProtobufValue for Any { type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>; }
  impl crate::MessageFull for Any {
    fn descriptor() -> crate::reflect::MessageDescriptor { file_descriptor().message_by_package_relative_name("Any").unwrap() }
  }
  pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { crate::reflect::google() }
}
