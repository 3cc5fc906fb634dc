use crate::descriptor::field_descriptor_proto::Type;
pub struct ExtFieldOptional<M, T> {
  pub field_number: u32,
  _m: std::marker::PhantomData<(fn(M), fn() -> T)>,
}
impl<M, T> ExtFieldOptional<M, T> {
  pub const fn new(field_number: u32, _: Type) -> Self {
    Self { field_number, _m: std::marker::PhantomData }
  }
}
