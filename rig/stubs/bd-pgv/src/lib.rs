//! Stand-in for /repo/bd-pgv, whose validation is driven by protobuf reflection, which the protobuf
//! stand-in does not have: every message is taken as valid.
pub mod error {
  #[derive(Debug, thiserror::Error)]
  pub enum Error {
    #[error("A proto validation error occurred: {0}")]
    ProtoValidation(String),
  }
  pub type Result<T> = std::result::Result<T, Error>;
}
pub mod generated {
  pub mod protos {
    pub mod validate {
      pub fn file_descriptor() -> &'static protobuf::reflect::FileDescriptor { protobuf::descriptor::file_descriptor() }
    }
  }
}
pub mod proto_validate {
  pub fn validate(_: &dyn protobuf::MessageDyn) -> crate::error::Result<()> { Ok(()) }
}
