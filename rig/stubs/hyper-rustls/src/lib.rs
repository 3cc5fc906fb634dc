//! Stands in for hyper-rustls, which is not here: connections without TLS, which is all that https_or_http()
//! makes for an address with http.

pub type HttpsConnector<T> = T;

pub struct HttpsConnectorBuilder;

impl HttpsConnectorBuilder {
  #[allow(clippy::new_without_default)]
  pub fn new() -> Self {
    Self
  }
  pub fn with_webpki_roots(self) -> Self {
    self
  }
  pub fn https_or_http(self) -> Self {
    self
  }
  pub fn https_only(self) -> Self {
    self
  }
  pub fn enable_http1(self) -> Self {
    self
  }
  pub fn enable_http2(self) -> Self {
    self
  }
  pub fn enable_all_versions(self) -> Self {
    self
  }
  pub fn wrap_connector<T>(self, connector: T) -> HttpsConnector<T> {
    connector
  }
}
