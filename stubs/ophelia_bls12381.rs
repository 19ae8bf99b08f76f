// Type-level stand-in for the `ophelia_bls12381` crate (git dependency, not available offline).
extern crate bytes;
extern crate ophelia;
use bytes::Bytes;
use ophelia::*;
use std::convert::TryFrom;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BLS12381PrivateKey(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BLS12381PublicKey(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BLS12381Signature(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BLS12381Threshold(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BLS12381;
impl<'a> TryFrom<&'a [u8]> for BLS12381PrivateKey { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl<'a> TryFrom<&'a [u8]> for BLS12381PublicKey { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl<'a> TryFrom<&'a [u8]> for BLS12381Signature { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl PrivateKey for BLS12381PrivateKey {
    type PublicKey = BLS12381PublicKey; type Signature = BLS12381Signature;
    fn sign_message(&self, _msg: &HashValue) -> BLS12381Signature { unimplemented!() }
    fn pub_key(&self) -> BLS12381PublicKey { unimplemented!() }
    fn to_bytes(&self) -> Bytes { unimplemented!() }
}
impl PublicKey for BLS12381PublicKey { type Signature = BLS12381Signature; fn to_bytes(&self) -> Bytes { unimplemented!() } }
impl Signature for BLS12381Signature {
    type PublicKey = BLS12381PublicKey;
    fn verify(&self, _msg: &HashValue, _p: &BLS12381PublicKey) -> Result<(), CryptoError> { unimplemented!() }
    fn to_bytes(&self) -> Bytes { unimplemented!() }
}
impl Crypto for BLS12381 { type PrivateKey = BLS12381PrivateKey; type PublicKey = BLS12381PublicKey; type Signature = BLS12381Signature; }
