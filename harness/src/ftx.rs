//! A transaction whose observable fields are given directly (the block code is generic in it).
use crate::common::*;
use mega_evm::{alloy_consensus, alloy_eips, alloy_evm};

#[derive(Debug, Clone, Copy)]
pub struct FTx {
    pub ty: u8,
    pub gas_limit: u64,
    pub size: usize,
    pub da: u64,
    pub signer: Address,
}

impl alloy_eips::Typed2718 for FTx {
    fn ty(&self) -> u8 {
        self.ty
    }
}

impl alloy_consensus::Transaction for FTx {
    fn chain_id(&self) -> Option<u64> {
        None
    }
    fn nonce(&self) -> u64 {
        0
    }
    fn gas_limit(&self) -> u64 {
        self.gas_limit
    }
    fn gas_price(&self) -> Option<u128> {
        None
    }
    fn max_fee_per_gas(&self) -> u128 {
        0
    }
    fn max_priority_fee_per_gas(&self) -> Option<u128> {
        None
    }
    fn max_fee_per_blob_gas(&self) -> Option<u128> {
        None
    }
    fn priority_fee_or_price(&self) -> u128 {
        0
    }
    fn effective_gas_price(&self, _: Option<u64>) -> u128 {
        0
    }
    fn is_dynamic_fee(&self) -> bool {
        false
    }
    fn kind(&self) -> alloy_primitives::TxKind {
        alloy_primitives::TxKind::Call(Address::ZERO)
    }
    fn is_create(&self) -> bool {
        false
    }
    fn value(&self) -> U256 {
        U256::ZERO
    }
    fn input(&self) -> &Bytes {
        panic!("MODEL-UNSUPPORTED")
    }
    fn access_list(&self) -> Option<&alloy_eips::eip2930::AccessList> {
        None
    }
    fn blob_versioned_hashes(&self) -> Option<&[B256]> {
        None
    }
    fn authorization_list(&self) -> Option<&[alloy_eips::eip7702::SignedAuthorization]> {
        None
    }
}

impl alloy_eips::Encodable2718 for FTx {
    fn encode_2718_len(&self) -> usize {
        self.size
    }
    fn encode_2718(&self, _: &mut dyn alloy_primitives::bytes::BufMut) {
        panic!("MODEL-UNSUPPORTED")
    }
    fn trie_hash(&self) -> B256 {
        B256::ZERO
    }
}

impl MegaTransactionExt for FTx {
    fn estimated_da_size(&self) -> u64 {
        self.da
    }
    fn tx_size(&self) -> u64 {
        self.size as u64
    }
    fn tx_hash(&self) -> B256 {
        B256::ZERO
    }
}

impl alloy_evm::RecoveredTx<FTx> for FTx {
    fn tx(&self) -> &FTx {
        self
    }
    fn signer(&self) -> &Address {
        &self.signer
    }
}
