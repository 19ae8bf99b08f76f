// Type-level stand-in for `toml` 0.4 (not built in this sandbox).
extern crate serde;
pub mod de {
    #[derive(Debug)] pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } }
    impl std::error::Error for Error {}
}
pub fn from_slice<'de, T: serde::Deserialize<'de>>(_b: &'de [u8]) -> Result<T, de::Error> { unimplemented!() }
pub fn from_str<'de, T: serde::Deserialize<'de>>(_b: &'de str) -> Result<T, de::Error> { unimplemented!() }
