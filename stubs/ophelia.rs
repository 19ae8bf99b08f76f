// Type-level stand-in for the `ophelia` crate (git dependency, not available
// offline): only the surface that /repo uses, so that the callers type-check.
extern crate bytes;
use bytes::Bytes;
use std::convert::TryFrom;
use std::fmt;

#[derive(Debug)]
pub enum CryptoError { InvalidLength, InvalidSignature, InvalidPublicKey, InvalidPrivateKey }
impl fmt::Display for CryptoError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("crypto") }
}
impl std::error::Error for CryptoError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HashValue([u8; 32]);
impl<'a> TryFrom<&'a [u8]> for HashValue {
    type Error = CryptoError;
    fn try_from(_b: &'a [u8]) -> Result<Self, CryptoError> { unimplemented!() }
}

pub trait PrivateKey: Sized + for<'a> TryFrom<&'a [u8], Error = CryptoError> {
    type PublicKey;
    type Signature;
    fn sign_message(&self, msg: &HashValue) -> Self::Signature;
    fn pub_key(&self) -> Self::PublicKey;
    fn to_bytes(&self) -> Bytes;
}
pub trait PublicKey: Sized + for<'a> TryFrom<&'a [u8], Error = CryptoError> {
    type Signature;
    fn to_bytes(&self) -> Bytes;
}
pub trait Signature: Sized + for<'a> TryFrom<&'a [u8], Error = CryptoError> {
    type PublicKey;
    fn verify(&self, msg: &HashValue, pub_key: &Self::PublicKey) -> Result<(), CryptoError>;
    fn to_bytes(&self) -> Bytes;
}
pub trait Crypto {
    type PrivateKey: PrivateKey<PublicKey = Self::PublicKey, Signature = Self::Signature>;
    type PublicKey: PublicKey<Signature = Self::Signature>;
    type Signature: Signature<PublicKey = Self::PublicKey>;
    fn sign_message(_msg: &[u8], _privkey: &[u8]) -> Result<Self::Signature, CryptoError> { unimplemented!() }
    fn verify_signature(_msg: &[u8], _sig: &[u8], _pubkey: &[u8]) -> Result<(), CryptoError> { unimplemented!() }
}
