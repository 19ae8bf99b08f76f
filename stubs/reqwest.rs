// Type-level stand-in for `reqwest` 0.9 (its openssl dependency does not build here).
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } }
impl std::error::Error for Error {}
pub struct Response;
impl std::io::Read for Response { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { unimplemented!() } }
pub fn get(_url: &str) -> Result<Response, Error> { unimplemented!() }
