use crate::descriptor::FileDescriptorProto;
use crate::{Message, MessageField};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Proto { package: String, services: Vec<(String, Vec<(String, String, String)>)> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FileDescriptor(std::sync::Arc<Proto>);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MessageDescriptor { file: FileDescriptor, name: String, full: String }
#[derive(Clone, Debug)]
pub struct ServiceDescriptor { name: Name, methods: Vec<MethodDescriptor> }
#[derive(Clone, Debug)]
pub struct MethodDescriptor { name: Name, input: MessageDescriptor, output: MessageDescriptor }
#[derive(Clone, Debug)]
pub struct Name(String);
impl Name { pub fn name(&self) -> &str { &self.0 } }
impl ServiceDescriptor {
  pub fn proto(&self) -> &Name { &self.name }
  pub fn methods(&self) -> impl Iterator<Item = MethodDescriptor> + '_ { self.methods.iter().cloned() }
}
impl MethodDescriptor {
  pub fn proto(&self) -> &Name { &self.name }
  pub fn input_type(&self) -> MessageDescriptor { self.input.clone() }
  pub fn output_type(&self) -> MessageDescriptor { self.output.clone() }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OneofDescriptor(String);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EnumDescriptor(String);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EnumValueDescriptor(String, i32);
#[derive(Clone, Debug)]
pub struct GeneratedFileDescriptor(&'static FileDescriptorProto);
pub struct GeneratedMessageDescriptorData;
pub struct GeneratedOneofDescriptorData;
pub struct GeneratedEnumDescriptorData;
pub struct FieldAccessor;

fn fields(b: &[u8]) -> Vec<(u32, Vec<u8>)> {
  let mut is = crate::CodedInputStream::from_bytes(b);
  let mut out = vec![];
  while let Some(t) = is.read_raw_tag_or_eof().unwrap() {
    if t & 7 == 2 { out.push((t >> 3, is.read_bytes().unwrap())); } else { is.skip(t).unwrap(); }
  }
  out
}
fn text(f: &[(u32, Vec<u8>)], n: u32) -> String {
  f.iter().find(|(k, _)| *k == n).map(|(_, v)| String::from_utf8(v.clone()).unwrap()).unwrap_or_default()
}
impl FileDescriptor {
  pub fn in_package(p: &str) -> Self { Self(std::sync::Arc::new(Proto { package: p.to_string(), services: vec![] })) }
  pub fn new_generated_2(g: &'static GeneratedFileDescriptor) -> Self {
    let f = fields(&g.0.special_fields().unknown_fields().raw);
    let services = f.iter().filter(|(k, _)| *k == 6).map(|(_, s)| {
      let s = fields(s);
      (text(&s, 1), s.iter().filter(|(k, _)| *k == 2).map(|(_, m)| { let m = fields(m); (text(&m, 1), text(&m, 2), text(&m, 3)) }).collect())
    }).collect();
    Self(std::sync::Arc::new(Proto { package: text(&f, 2), services }))
  }
  pub fn package(&self) -> &str { &self.0.package }
  pub fn services(&self) -> impl Iterator<Item = ServiceDescriptor> + '_ {
    let msg = |full: &str| MessageDescriptor { file: self.clone(), name: full.rsplit('.').next().unwrap().to_string(), full: full.trim_start_matches('.').to_string() };
    self.0.services.iter().map(move |(n, ms)| ServiceDescriptor {
      name: Name(n.clone()),
      methods: ms.iter().map(|(n, i, o)| MethodDescriptor { name: Name(n.clone()), input: msg(i), output: msg(o) }).collect(),
    })
  }
  pub fn message_by_package_relative_name(&self, n: &str) -> Option<MessageDescriptor> {
    Some(MessageDescriptor { file: self.clone(), name: n.to_string(), full: format!("{}.{n}", self.0.package) })
  }
  pub fn enum_by_package_relative_name(&self, n: &str) -> Option<EnumDescriptor> { Some(EnumDescriptor(n.to_string())) }
}
impl MessageDescriptor {
  pub fn oneof_by_name(&self, n: &str) -> Option<OneofDescriptor> { Some(OneofDescriptor(n.to_string())) }
  pub fn name(&self) -> &str { &self.name }
  pub fn full_name(&self) -> &str { &self.full }
  pub fn file_descriptor(&self) -> &FileDescriptor { &self.file }
}
impl EnumDescriptor {
  pub fn value_by_index(&self, i: usize) -> EnumValueDescriptor { EnumValueDescriptor(String::new(), i as i32) }
  pub fn value_by_number(&self, i: i32) -> Option<EnumValueDescriptor> { Some(EnumValueDescriptor(String::new(), i)) }
}
impl GeneratedFileDescriptor {
  pub fn new_generated(p: &'static FileDescriptorProto, _: Vec<FileDescriptor>, _: Vec<GeneratedMessageDescriptorData>, _: Vec<GeneratedEnumDescriptorData>) -> Self { Self(p) }
}
pub(crate) fn google() -> &'static FileDescriptor {
  static F: std::sync::OnceLock<FileDescriptor> = std::sync::OnceLock::new();
  F.get_or_init(|| FileDescriptor::in_package("google.protobuf"))
}
impl GeneratedMessageDescriptorData {
  pub fn new_2<M>(_: &'static str, _: Vec<FieldAccessor>, _: Vec<GeneratedOneofDescriptorData>) -> Self { Self }
}
impl GeneratedOneofDescriptorData { pub fn new<O>(_: &'static str) -> Self { Self } }
impl GeneratedEnumDescriptorData { pub fn new<E>(_: &'static str) -> Self { Self } }

pub trait ProtobufValue: 'static { type RuntimeType; }

pub mod rt {
  pub struct RuntimeTypeMessage<M>(std::marker::PhantomData<M>);
  pub struct RuntimeTypeEnumOrUnknown<M>(std::marker::PhantomData<M>);
  pub struct RuntimeTypeEnum<M>(std::marker::PhantomData<M>);
  pub mod v2 {
    use super::super::*;
    pub fn make_simpler_field_accessor<M, T>(_: &'static str, _: fn(&M) -> &T, _: fn(&mut M) -> &mut T) -> FieldAccessor { FieldAccessor }
    pub fn make_vec_simpler_accessor<M, T>(_: &'static str, _: fn(&M) -> &Vec<T>, _: fn(&mut M) -> &mut Vec<T>) -> FieldAccessor { FieldAccessor }
    pub fn make_option_accessor<M, T>(_: &'static str, _: fn(&M) -> &Option<T>, _: fn(&mut M) -> &mut Option<T>) -> FieldAccessor { FieldAccessor }
    pub fn make_map_simpler_accessor_new<M, T>(_: &'static str, _: fn(&M) -> &T, _: fn(&mut M) -> &mut T) -> FieldAccessor { FieldAccessor }
    pub fn make_message_field_accessor<M, T>(_: &'static str, _: fn(&M) -> &MessageField<T>, _: fn(&mut M) -> &mut MessageField<T>) -> FieldAccessor { FieldAccessor }
    pub fn make_oneof_message_has_get_mut_set_accessor<M, T: Message>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> &T, _: fn(&mut M) -> &mut T, _: fn(&mut M, T)) -> FieldAccessor { FieldAccessor }
    pub fn make_oneof_deref_has_get_set_simpler_accessor<M, T: std::ops::Deref>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> &T::Target, _: fn(&mut M, T)) -> FieldAccessor { FieldAccessor }
    pub fn make_oneof_copy_has_get_set_simpler_accessors<M, T>(_: &'static str, _: fn(&M) -> bool, _: fn(&M) -> T, _: fn(&mut M, T)) -> FieldAccessor { FieldAccessor }
    pub fn make_oneof_enum_accessors<M, T: crate::Enum>(_: &'static str, _: fn(&M) -> &Option<T>, _: fn(&mut M) -> &mut Option<T>, _: fn(&mut M, T)) -> FieldAccessor { FieldAccessor }
  }
}
