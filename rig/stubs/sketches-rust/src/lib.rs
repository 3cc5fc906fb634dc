//! Offline stand-in for the sketches-rust fork: a sketch that keeps every value exactly. What the
//! code under check promises about histograms (no observation lost or counted twice) does not
//! depend on the sketch's approximation, which is trusted.
use std::collections::BTreeMap;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sketch") }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DDSketch { bins: BTreeMap<u64, u64> }
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(_: f64, _: usize) -> Result<Self, Error> { Ok(Self::default()) }
  pub fn accept(&mut self, v: f64) { *self.bins.entry(v.to_bits()).or_default() += 1; }
  pub fn accept_with_count(&mut self, v: f64, n: f64) { *self.bins.entry(v.to_bits()).or_default() += n as u64; }
  pub fn is_empty(&self) -> bool { self.bins.is_empty() }
  pub fn clear(&mut self) { self.bins.clear(); }
  pub fn get_count(&mut self) -> f64 { self.bins.values().sum::<u64>() as f64 }
  pub fn get_sum(&mut self) -> Option<f64> { Some(self.values().iter().sum()) }
  pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> {
    for (k, n) in &o.bins { *self.bins.entry(*k).or_default() += n; }
    Ok(())
  }
  pub fn get_value_at_quantile(self: &mut Self, q: f64) -> Result<f64, Error> {
    let mut all: Vec<f64> = self.values();
    all.sort_by(f64::total_cmp);
    if all.is_empty() { return Err(Error); }
    Ok(all[((all.len() - 1) as f64 * q) as usize])
  }
  pub fn values(&self) -> Vec<f64> {
    self.bins.iter().flat_map(|(k, n)| std::iter::repeat(f64::from_bits(*k)).take(*n as usize)).collect()
  }
  pub fn encode(&self) -> Result<Vec<u8>, Error> {
    Ok(self.bins.iter().flat_map(|(k, n)| [k.to_le_bytes(), n.to_le_bytes()].concat()).collect())
  }
  pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
    if b.len() % 16 != 0 { return Err(Error); }
    for c in b.chunks(16) {
      let k = u64::from_le_bytes(c[.. 8].try_into().unwrap());
      *self.bins.entry(k).or_default() += u64::from_le_bytes(c[8 ..].try_into().unwrap());
    }
    Ok(())
  }
}
