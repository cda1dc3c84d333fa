pub mod de { #[derive(Debug, Clone, PartialEq, Eq)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "toml") } } impl std::error::Error for Error {} }
pub fn from_str<T: serde::de::DeserializeOwned>(_s: &str) -> Result<T, de::Error> { unimplemented!() }
