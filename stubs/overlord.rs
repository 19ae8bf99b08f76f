// Type-level stand-in for `overlord` 0.1 (not in the offline cache): the traits
// and types that /repo implements or calls.
extern crate async_trait;
extern crate bytes;
extern crate creep;
extern crate rlp;
extern crate serde;
extern crate serde_derive;
use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use std::error::Error;
use std::fmt::Debug;
use std::sync::Arc;
use crate::types::*;

pub trait Codec: Clone + Debug + Send + PartialEq + Eq {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>>;
    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>>;
}

pub trait Crypto {
    fn hash(&self, msg: Bytes) -> Bytes;
    fn sign(&self, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn aggregate_signatures(&self, signatures: Vec<Bytes>, voters: Vec<Bytes>) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_signature(&self, signature: Bytes, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_aggregated_signature(&self, aggregated_signature: AggregatedSignature) -> Result<(), Box<dyn Error + Send>>;
}

#[async_trait]
pub trait Consensus<T: Codec, S: Codec>: Send + Sync {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(T, Bytes), Box<dyn Error + Send>>;
    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: T) -> Result<S, Box<dyn Error + Send>>;
    async fn commit(&self, ctx: Context, epoch_id: u64, commit: Commit<T>) -> Result<Status, Box<dyn Error + Send>>;
    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>>;
    async fn broadcast_to_other(&self, ctx: Context, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
    async fn transmit_to_relayer(&self, ctx: Context, addr: Bytes, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
}

#[derive(Clone, Debug, serde_derive::Serialize, serde_derive::Deserialize)]
pub struct DurationConfig { pub propose_ratio: u64, pub prevote_ratio: u64, pub precommit_ratio: u64 }

#[derive(Debug)]
pub struct ConsensusError;
impl std::fmt::Display for ConsensusError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } }
impl Error for ConsensusError {}

pub struct Overlord<T: Codec, S: Codec, F: Consensus<T, S>, C: Crypto> {
    _t: std::marker::PhantomData<(T, S)>, _f: Arc<F>, _c: C,
}
impl<T: Codec, S: Codec, F: Consensus<T, S>, C: Crypto> Overlord<T, S, F, C> {
    pub fn new(_address: Bytes, _consensus: Arc<F>, _crypto: C) -> Self { unimplemented!() }
    pub fn get_handler(&self) -> OverlordHandler<T> { unimplemented!() }
    pub async fn run(&self, _interval: u64, _timer_config: Option<DurationConfig>) -> Result<(), ConsensusError> { unimplemented!() }
}
#[derive(Clone, Debug)]
pub struct OverlordHandler<T: Codec>(std::marker::PhantomData<T>);
unsafe impl<T: Codec> Sync for OverlordHandler<T> {}
impl<T: Codec> OverlordHandler<T> {
    pub fn send_msg(&self, _ctx: Context, _msg: OverlordMsg<T>) -> Result<(), ConsensusError> { unimplemented!() }
}

pub mod types {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum OverlordMsg<T: Codec> {
        SignedProposal(SignedProposal<T>), SignedVote(SignedVote), AggregatedVote(AggregatedVote),
        RichStatus(Status), Commit(Commit<T>),
    }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SignedProposal<T: Codec> { pub signature: Bytes, pub proposal: T }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct SignedVote { pub signature: Bytes }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct AggregatedVote { pub signature: AggregatedSignature, pub epoch_id: u64, pub round: u64 }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct AggregatedSignature { pub signature: Bytes, pub address_bitmap: Bytes }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Commit<T: Codec> { pub epoch_id: u64, pub content: T, pub proof: Proof }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Proof { pub epoch_id: u64, pub round: u64, pub epoch_hash: Bytes, pub signature: AggregatedSignature }
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct Status { pub epoch_id: u64, pub interval: Option<u64>, pub authority_list: Vec<Node> }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct Node { pub address: Bytes, pub propose_weight: u8, pub vote_weight: u8 }
    impl<T: Codec> rlp::Encodable for SignedProposal<T> { fn rlp_append(&self, _s: &mut rlp::RlpStream) { unimplemented!() } }
    impl rlp::Encodable for SignedVote { fn rlp_append(&self, _s: &mut rlp::RlpStream) { unimplemented!() } }
    impl rlp::Encodable for AggregatedVote { fn rlp_append(&self, _s: &mut rlp::RlpStream) { unimplemented!() } }
    impl<T: Codec> rlp::Decodable for SignedProposal<T> { fn decode(_r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> { unimplemented!() } }
    impl rlp::Decodable for SignedVote { fn decode(_r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> { unimplemented!() } }
    impl rlp::Decodable for AggregatedVote { fn decode(_r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> { unimplemented!() } }
}
