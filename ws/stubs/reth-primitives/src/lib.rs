//! Stand-in for the subset of `reth-primitives` that tn-types re-exports: reth's own types are aliases of
//! (or thin wrappers over) the alloy ones used here.
pub use alloy::consensus::transaction::Recovered;
use alloy::{
    consensus::{EthereumTxEnvelope, EthereumTypedTransaction, Header, TxEip4844},
    primitives::{BlockHash, BlockNumber, B256, U256},
};
use serde::{Deserialize, Serialize};

pub type TransactionSigned = EthereumTxEnvelope<TxEip4844>;
pub type Transaction = EthereumTypedTransaction<TxEip4844>;
pub type PooledTransaction =
    EthereumTxEnvelope<alloy::consensus::TxEip4844WithSidecar<alloy::consensus::BlobTransactionSidecar>>;
pub type Block = alloy::consensus::Block<TransactionSigned>;
pub type BlockBody = alloy::consensus::BlockBody<TransactionSigned>;
pub type Receipt = alloy::consensus::EthereumReceipt;

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct EthPrimitives;
pub trait NodePrimitives {}
impl NodePrimitives for EthPrimitives {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Account {
    pub nonce: u64,
    pub balance: U256,
    pub bytecode_hash: Option<B256>,
}

/// Sealed header: header and its hash.
#[derive(Debug, Clone, Eq, Serialize, Deserialize)]
pub struct SealedHeader<H = Header> {
    hash: BlockHash,
    header: H,
}
impl<H: PartialEq> PartialEq for SealedHeader<H> {
    fn eq(&self, other: &Self) -> bool {
        self.hash == other.hash
    }
}
impl<H> std::hash::Hash for SealedHeader<H> {
    fn hash<S: std::hash::Hasher>(&self, state: &mut S) {
        self.hash.hash(state)
    }
}
impl SealedHeader<Header> {
    pub fn seal_slow(header: Header) -> Self {
        Self { hash: header.hash_slow(), header }
    }
    pub fn num_hash(&self) -> alloy::eips::BlockNumHash {
        alloy::eips::BlockNumHash::new(self.header.number, self.hash)
    }
    pub fn number(&self) -> BlockNumber {
        self.header.number
    }
}
impl<H> SealedHeader<H> {
    pub fn new(header: H, hash: BlockHash) -> Self {
        Self { header, hash }
    }
    pub fn hash(&self) -> BlockHash {
        self.hash
    }
    pub fn header(&self) -> &H {
        &self.header
    }
    pub fn clone_header(&self) -> H
    where
        H: Clone,
    {
        self.header.clone()
    }
    pub fn unseal(self) -> H {
        self.header
    }
    pub fn split(self) -> (H, BlockHash) {
        (self.header, self.hash)
    }
}
impl Default for SealedHeader<Header> {
    fn default() -> Self {
        Self::seal_slow(Header::default())
    }
}
impl<H> std::ops::Deref for SealedHeader<H> {
    type Target = H;
    fn deref(&self) -> &H {
        &self.header
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SealedBlock {
    hash: BlockHash,
    block: Block,
}
impl SealedBlock {
    pub fn seal_slow(block: Block) -> Self {
        Self { hash: block.header.hash_slow(), block }
    }
    pub fn hash(&self) -> BlockHash {
        self.hash
    }
    pub fn header(&self) -> &Header {
        &self.block.header
    }
    pub fn body(&self) -> &BlockBody {
        &self.block.body
    }
}
impl std::ops::Deref for SealedBlock {
    type Target = Header;
    fn deref(&self) -> &Header {
        &self.block.header
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RecoveredBlock {
    block: SealedBlock,
    senders: Vec<alloy::primitives::Address>,
}
impl RecoveredBlock {
    pub fn new_sealed(block: SealedBlock, senders: Vec<alloy::primitives::Address>) -> Self {
        Self { block, senders }
    }
    pub fn senders(&self) -> &[alloy::primitives::Address] {
        &self.senders
    }
}
impl std::ops::Deref for RecoveredBlock {
    type Target = SealedBlock;
    fn deref(&self) -> &SealedBlock {
        &self.block
    }
}
