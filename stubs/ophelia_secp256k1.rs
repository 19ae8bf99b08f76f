// Type-level stand-in for the `ophelia_secp256k1` crate (git dependency, not available offline).
extern crate bytes;
extern crate ophelia;
use bytes::Bytes;
use ophelia::*;
use std::convert::TryFrom;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Secp256k1PrivateKey(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Secp256k1PublicKey(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Secp256k1Signature(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Secp256k1Threshold(u8);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Secp256k1;
impl<'a> TryFrom<&'a [u8]> for Secp256k1PrivateKey { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl<'a> TryFrom<&'a [u8]> for Secp256k1PublicKey { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl<'a> TryFrom<&'a [u8]> for Secp256k1Signature { type Error = CryptoError; fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() } }
impl PrivateKey for Secp256k1PrivateKey {
    type PublicKey = Secp256k1PublicKey; type Signature = Secp256k1Signature;
    fn sign_message(&self, _msg: &HashValue) -> Secp256k1Signature { unimplemented!() }
    fn pub_key(&self) -> Secp256k1PublicKey { unimplemented!() }
    fn to_bytes(&self) -> Bytes { unimplemented!() }
}
impl PublicKey for Secp256k1PublicKey { type Signature = Secp256k1Signature; fn to_bytes(&self) -> Bytes { unimplemented!() } }
impl Signature for Secp256k1Signature {
    type PublicKey = Secp256k1PublicKey;
    fn verify(&self, _msg: &HashValue, _p: &Secp256k1PublicKey) -> Result<(), CryptoError> { unimplemented!() }
    fn to_bytes(&self) -> Bytes { unimplemented!() }
}
impl Crypto for Secp256k1 { type PrivateKey = Secp256k1PrivateKey; type PublicKey = Secp256k1PublicKey; type Signature = Secp256k1Signature; }
