pub fn fmt<M: crate::Message>(m: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{m:?}") }
