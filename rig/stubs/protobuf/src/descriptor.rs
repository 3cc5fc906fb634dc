use crate::{CodedInputStream, CodedOutputStream, Message, Result, SpecialFields};
pub mod field_descriptor_proto {
  #[allow(non_camel_case_types)]
  #[derive(Clone, Copy, Debug, PartialEq, Eq)]
  pub enum Type { TYPE_BOOL, TYPE_STRING, TYPE_MESSAGE, TYPE_ENUM, TYPE_INT32, TYPE_UINT32, TYPE_INT64, TYPE_UINT64, TYPE_BYTES, TYPE_DOUBLE, TYPE_FLOAT }
}
pub struct FileOptions;
pub struct MessageOptions;
pub struct FieldOptions;
pub struct EnumOptions;
pub struct EnumValueOptions;
pub struct MethodOptions;
pub struct OneofOptions;

/// Only kept as its encoding.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct FileDescriptorProto { special: SpecialFields }
impl Message for FileDescriptorProto {
  const NAME: &'static str = "FileDescriptorProto";
  fn is_initialized(&self) -> bool { true }
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()> {
    while let Some(tag) = is.read_raw_tag_or_eof()? {
      crate::rt::read_unknown_or_skip_group(tag, is, self.special.mut_unknown_fields())?;
    }
    Ok(())
  }
  fn compute_size(&self) -> u64 {
    let n = crate::rt::unknown_fields_size(self.special.unknown_fields());
    self.special.cached_size().set(n as u32);
    n
  }
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()> { os.write_unknown_fields(self.special.unknown_fields()) }
  fn special_fields(&self) -> &SpecialFields { &self.special }
  fn mut_special_fields(&mut self) -> &mut SpecialFields { &mut self.special }
  fn new() -> Self { Self::default() }
  fn default_instance() -> &'static Self {
    static I: FileDescriptorProto = FileDescriptorProto { special: SpecialFields::new() };
    &I
  }
}
pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { crate::reflect::google() }
