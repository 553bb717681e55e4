//@ bounds: all 16 limits, 7 usage counters, gas limit, encoded size, DA size and the deposit flag are arbitrary 64-bit values; one step from an arbitrary reachable limiter state (usage of gas/size/DA within its limit), hence histories of any length
//@ outside: usage totals above 2^64 (counter overflow)
//@ use: ftx
//! C01: what a block admits.
use crate::{
    common::*,
    sym::{any, assume},
    witness,
};
use alloy_evm::block::{BlockExecutionError, BlockValidationError};
use mega_evm::alloy_evm;

fn limits() -> BlockLimits {
    BlockLimits {
        tx_gas_limit: any(),
        block_gas_limit: any(),
        tx_encode_size_limit: any(),
        block_txs_encode_size_limit: any(),
        tx_da_size_limit: any(),
        block_da_size_limit: any(),
        tx_data_limit: any(),
        block_txs_data_limit: any(),
        tx_kv_update_limit: any(),
        block_kv_update_limit: any(),
        tx_compute_gas_limit: any(),
        block_compute_gas_limit: any(),
        tx_state_growth_limit: any(),
        block_state_growth_limit: any(),
        block_env_access_compute_gas_limit: any(),
        oracle_access_compute_gas_limit: any(),
    }
}

fn limiter() -> BlockLimiter {
    let mut l = BlockLimiter::new(limits());
    l.block_gas_used = any();
    l.block_tx_size_used = any();
    l.block_da_size_used = any();
    l.block_data_used = any();
    l.block_kv_updates_used = any();
    l.block_compute_gas_used = any();
    l.block_state_growth_used = any();
    // invariant of every history: these three are admitted only within their limits
    assume(l.block_gas_used <= l.limits.block_gas_limit);
    assume(l.block_tx_size_used <= l.limits.block_txs_encode_size_limit);
    assume(l.block_da_size_used <= l.limits.block_da_size_limit);
    l
}

/// used + more fits below the limit; a limit of u64::MAX means "no limit".
fn fits(used: u64, more: u64, limit: u64) -> bool {
    limit == u64::MAX || used as u128 + more as u128 <= limit as u128
}

fn admissible(l: &BlockLimiter, gas: u64, size: u64, da: u64, deposit: bool) -> bool {
    gas <= l.limits.tx_gas_limit &&
        fits(l.block_gas_used, gas, l.limits.block_gas_limit) &&
        size <= l.limits.tx_encode_size_limit &&
        fits(l.block_tx_size_used, size, l.limits.block_txs_encode_size_limit) &&
        (deposit ||
            (da <= l.limits.tx_da_size_limit &&
                fits(l.block_da_size_used, da, l.limits.block_da_size_limit))) &&
        l.block_data_used < l.limits.block_txs_data_limit &&
        l.block_kv_updates_used < l.limits.block_kv_update_limit &&
        l.block_compute_gas_used < l.limits.block_compute_gas_limit &&
        l.block_state_growth_used < l.limits.block_state_growth_limit
}

//@ case unwind=34
pub fn admits_exactly_what_fits() {
    let l = limiter();
    let (gas, size, da, deposit): (u64, u64, u64, bool) = (any(), any(), any(), any());
    let ok = match l.pre_execution_check(B256::ZERO, gas, size, da, deposit) {
        Ok(()) => true,
        Err(e) => {
            core::mem::forget(e);
            false
        }
    };
    let want = admissible(&l, gas, size, da, deposit);
    assert!(!ok || want, "C01: a transaction that does not fit was admitted");
    assert!(ok || !want, "C01: a transaction that fits was rejected");
    witness!(ok && deposit && da > l.limits.tx_da_size_limit, "deposit above the DA limit admitted");
    witness!(!ok, "rejected");
}

//@ case unwind=34
pub fn rejection_names_a_true_reason() {
    let l = limiter();
    let (gas, size, da, deposit): (u64, u64, u64, bool) = (any(), any(), any(), any());
    let r = l.pre_execution_check(B256::ZERO, gas, size, da, deposit);
    let lim = l.limits;
    let mut tx_level = false;
    if let Err(e) = r {
        match &e {
            BlockExecutionError::Validation(
                BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                    transaction_gas_limit,
                    block_available_gas,
                },
            ) => {
                assert!(
                    *transaction_gas_limit == gas &&
                        *block_available_gas == lim.block_gas_limit - l.block_gas_used &&
                        gas > *block_available_gas,
                    "C01: block gas rejection"
                );
            }
            BlockExecutionError::Validation(BlockValidationError::InvalidTx { hash: _, error }) => {
                let err: &dyn core::error::Error = &**error;
                if let Some(t) = err.downcast_ref::<MegaTxLimitExceededError>() {
                    tx_level = true;
                    let good = match t {
                        MegaTxLimitExceededError::TransactionGasLimit { tx_gas_limit, limit } => {
                            *tx_gas_limit == gas && *limit == lim.tx_gas_limit && gas > *limit
                        }
                        MegaTxLimitExceededError::TransactionEncodeSizeLimit { tx_size, limit } => {
                            *tx_size == size && *limit == lim.tx_encode_size_limit && size > *limit
                        }
                        MegaTxLimitExceededError::DataAvailabilitySizeLimit { da_size, limit } => {
                            !deposit && *da_size == da && *limit == lim.tx_da_size_limit && da > *limit
                        }
                    };
                    assert!(good, "C01: transaction-level rejection states a false reason");
                } else if let Some(b) = err.downcast_ref::<MegaBlockLimitExceededError>() {
                    use MegaBlockLimitExceededError as E;
                    let good = match b {
                        E::TransactionDataLimit { block_used, limit } => {
                            *block_used == l.block_data_used &&
                                *limit == lim.block_txs_data_limit &&
                                block_used >= limit
                        }
                        E::KVUpdateLimit { block_used, limit } => {
                            *block_used == l.block_kv_updates_used &&
                                *limit == lim.block_kv_update_limit &&
                                block_used >= limit
                        }
                        E::ComputeGasLimit { block_used, limit } => {
                            *block_used == l.block_compute_gas_used &&
                                *limit == lim.block_compute_gas_limit &&
                                block_used >= limit
                        }
                        E::StateGrowthLimit { block_used, limit } => {
                            *block_used == l.block_state_growth_used &&
                                *limit == lim.block_state_growth_limit &&
                                block_used >= limit
                        }
                        E::TransactionEncodeSizeLimit { block_used, tx_used, limit } => {
                            *block_used == l.block_tx_size_used &&
                                *tx_used == size &&
                                *limit == lim.block_txs_encode_size_limit &&
                                !fits(*block_used, size, *limit)
                        }
                        E::DataAvailabilitySizeLimit { block_used, tx_used, limit } => {
                            !deposit &&
                                *block_used == l.block_da_size_used &&
                                *tx_used == da &&
                                *limit == lim.block_da_size_limit &&
                                !fits(*block_used, da, *limit)
                        }
                    };
                    assert!(good, "C01: block-level rejection states a false reason");
                } else {
                    assert!(false, "C01: rejection of unknown kind");
                }
            }
            _ => assert!(false, "C01: rejection of unknown kind"),
        }
        core::mem::forget(e);
    }
    witness!(tx_level, "transaction-level rejection");
}

//@ case unwind=5
pub fn history_stays_within_limits() {
    let mut l = limiter();
    let before = l.clone();
    let (gas, size, da, deposit): (u64, u64, u64, bool) = (any(), any(), any(), any());
    let (gas_used, data, kv, compute, growth): (u64, u64, u64, u64, u64) =
        (any(), any(), any(), any(), any());
    assume(gas_used <= gas);
    // totals stay below 2^64
    assume(before.block_gas_used.checked_add(gas_used).is_some());
    assume(before.block_tx_size_used.checked_add(size).is_some());
    assume(before.block_da_size_used.checked_add(da).is_some());
    assume(before.block_data_used.checked_add(data).is_some());
    assume(before.block_kv_updates_used.checked_add(kv).is_some());
    assume(before.block_compute_gas_used.checked_add(compute).is_some());
    assume(before.block_state_growth_used.checked_add(growth).is_some());
    let r = l.pre_execution_check(B256::ZERO, gas, size, da, deposit);
    if r.is_ok() {
        l.post_execution_update_raw(gas_used, size, da, data, kv, compute, growth, deposit);
        assert!(l.block_gas_used <= l.limits.block_gas_limit, "C01: block gas above its limit");
        assert!(
            l.block_tx_size_used <= l.limits.block_txs_encode_size_limit,
            "C01: block size above its limit"
        );
        assert!(
            l.block_da_size_used <= l.limits.block_da_size_limit,
            "C01: block DA size above its limit"
        );
        assert!(
            l.block_gas_used == before.block_gas_used + gas_used &&
                l.block_tx_size_used == before.block_tx_size_used + size &&
                l.block_da_size_used == before.block_da_size_used + if deposit { 0 } else { da } &&
                l.block_data_used == before.block_data_used + data &&
                l.block_kv_updates_used == before.block_kv_updates_used + kv &&
                l.block_compute_gas_used == before.block_compute_gas_used + compute &&
                l.block_state_growth_used == before.block_state_growth_used + growth,
            "C01: a usage total is not the sum of what was recorded"
        );
        witness!(l.block_data_used > l.limits.block_txs_data_limit, "last transaction overshoots");
        // once an execution-time total has reached its limit nothing more is admitted
        let reached = l.block_data_used >= l.limits.block_txs_data_limit ||
            l.block_kv_updates_used >= l.limits.block_kv_update_limit ||
            l.block_compute_gas_used >= l.limits.block_compute_gas_limit ||
            l.block_state_growth_used >= l.limits.block_state_growth_limit;
        assert!(
            l.is_block_limit_reached() ==
                (reached ||
                    l.block_gas_used >= l.limits.block_gas_limit ||
                    l.block_tx_size_used >= l.limits.block_txs_encode_size_limit ||
                    l.block_da_size_used >= l.limits.block_da_size_limit),
            "C01: is_block_limit_reached"
        );
        if reached {
            let r2 = l.pre_execution_check(B256::ZERO, any(), any(), any(), any());
            assert!(r2.is_err(), "C01: admitted after a block total reached its limit");
            core::mem::forget(r2);
        }
    }
    assert!(l.limits == before.limits, "C01: limits changed");
    core::mem::forget(r);
}

//@ case unwind=5
pub fn starts_empty() {
    let lim = limits();
    let which: bool = any();
    let l = if which { BlockLimiter::new(lim) } else { lim.to_block_limiter() };
    assert!(l.limits == lim, "C01: a new limiter keeps its limits");
    assert!(
        l.block_gas_used == 0 &&
            l.block_tx_size_used == 0 &&
            l.block_da_size_used == 0 &&
            l.block_data_used == 0 &&
            l.block_kv_updates_used == 0 &&
            l.block_compute_gas_used == 0 &&
            l.block_state_growth_used == 0,
        "C01: a new limiter starts at zero"
    );
    witness!(which, "new");
}

/// What the limiter records for an executed transaction is what its outcome reports.
//@ case unwind=5
pub fn records_the_outcome() {
    use mega_evm::revm::context::result::{ExecutionResult, Output, SuccessReason};
    let mut l = limiter();
    let before = l.clone();
    let (deposit, kind): (bool, u8) = (any(), any());
    let gas_used: u64 = any();
    let tx = crate::ftx::FTx {
        ty: if deposit { 0x7e } else { 2 },
        gas_limit: any(),
        size: any(),
        da: any(),
        signer: A,
    };
    let result = match kind {
        0 => ExecutionResult::Success {
            reason: SuccessReason::Stop,
            gas_used,
            gas_refunded: any(),
            logs: Vec::new(),
            output: Output::Call(Bytes::new()),
        },
        1 => ExecutionResult::Revert { gas_used, output: Bytes::new() },
        _ => ExecutionResult::Halt {
            reason: MegaHaltReason::DataLimitExceeded { limit: 1, actual: 2 },
            gas_used,
        },
    };
    let o = BlockMegaTransactionOutcome {
        tx,
        tx_size: any(),
        da_size: any(),
        depositor: None,
        inner: MegaTransactionOutcome {
            result,
            state: Default::default(),
            data_size: any(),
            kv_updates: any(),
            compute_gas_used: any(),
            state_growth_used: any(),
        },
    };
    assume(before.block_gas_used.checked_add(gas_used).is_some());
    assume(before.block_tx_size_used.checked_add(o.tx_size).is_some());
    assume(before.block_da_size_used.checked_add(o.da_size).is_some());
    assume(before.block_data_used.checked_add(o.data_size).is_some());
    assume(before.block_kv_updates_used.checked_add(o.kv_updates).is_some());
    assume(before.block_compute_gas_used.checked_add(o.compute_gas_used).is_some());
    assume(before.block_state_growth_used.checked_add(o.state_growth_used).is_some());
    let r = l.post_execution_check(&o);
    assert!(r.is_ok(), "C01: recording an executed transaction fails");
    assert!(
        l.block_gas_used == before.block_gas_used + gas_used &&
            l.block_tx_size_used == before.block_tx_size_used + o.tx_size &&
            l.block_da_size_used ==
                before.block_da_size_used + if deposit { 0 } else { o.da_size } &&
            l.block_data_used == before.block_data_used + o.data_size &&
            l.block_kv_updates_used == before.block_kv_updates_used + o.kv_updates &&
            l.block_compute_gas_used == before.block_compute_gas_used + o.compute_gas_used &&
            l.block_state_growth_used == before.block_state_growth_used + o.state_growth_used,
        "C01: a usage total is not the sum of what the outcomes report"
    );
    witness!(kind == 2 && deposit, "a halted deposit");
    core::mem::forget(r);
    core::mem::forget(o);
}
