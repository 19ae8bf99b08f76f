// The real serde plus its `derive` feature (serde_derive re-exported).
extern crate serde_derive;
extern crate serde_real;
pub use serde_derive::*;
pub use serde_real::*;
