#![allow(dead_code)]
//! Helpers of the demonstrations: run one transaction on an in-memory state.
pub use alloy_primitives::{address, Address, Bytes, TxKind, B256, U256};
pub use mega_evm::{
    revm::{context::TxEnv, Database},
    test_utils::*,
    *,
};
pub const CALLER: Address = address!("0000000000000000000000000000000000100000");
pub const CALLEE: Address = address!("0000000000000000000000000000000000100002");
pub const OTHER: Address = address!("0000000000000000000000000000000000100003");

pub fn db(code: &[u8]) -> MemoryDatabase {
    let mut db = MemoryDatabase::default();
    db.set_account_balance(CALLER, U256::from(u64::MAX));
    db.set_account_code(CALLEE, Bytes::copy_from_slice(code));
    db
}
pub fn tx(gas: u64) -> TxEnv {
    TxEnv { caller: CALLER, kind: TxKind::Call(CALLEE), gas_limit: gas, ..Default::default() }
}
pub fn run_limits(db: MemoryDatabase, spec: MegaSpecId, limits: EvmTxRuntimeLimits, t: TxEnv) -> MegaTransactionOutcome {
    let mut ctx = MegaContext::new(db, spec).with_tx_runtime_limits(limits);
    ctx.modify_chain(|c| {
        c.operator_fee_scalar = Some(U256::ZERO);
        c.operator_fee_constant = Some(U256::ZERO);
    });
    let mut evm = MegaEvm::new(ctx);
    let mut t = MegaTransaction::new(t);
    t.enveloped_tx = Some(Bytes::new());
    evm.execute_transaction(t).expect("valid transaction")
}
pub fn run(db: MemoryDatabase, spec: MegaSpecId, t: TxEnv) -> MegaTransactionOutcome {
    run_limits(db, spec, EvmTxRuntimeLimits::from_spec(spec), t)
}
