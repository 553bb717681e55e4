//@ use: instr
//@ bounds: any marking history of up to 4 accesses and a reset; every volatile opcode of every kind once per case in a fixed order with any block environment, any detention limits and any compute gas limit; oracle storage reads with any key, value and transaction sender
//@ outside: BLOCKHASH answers (the database's), blob transactions; detention through CALL before REX3 (only the marking function is covered)
//@ assume: the accounts looked at are loaded in the journal
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//! C08: reading volatile data restricts what the transaction may still compute, and nothing else.
use crate::{
    common::*,
    instr::*,
    sym::{any, assume},
    witness,
};
use mega_evm::revm::{
    context::{BlockEnv, ContextTr},
    interpreter::{interpreter_types::StackTr, InstructionResult},
};

/// Whatever is marked in whatever order: the bits are those marked, the limit is the smallest.
//@ case unwind=24
pub fn marking() {
    let (be, or): (u64, u64) = (any(), any());
    let mut t = VolatileDataAccessTracker::new(be, or);
    let mut bits = 0u16;
    let mut limit = u64::MAX;
    let mut k = 0;
    let reset_at: u8 = any();
    while k < 4u8 {
        if k == reset_at {
            t.reset();
            bits = 0;
            limit = u64::MAX;
        }
        match any::<u8>() & 3 {
            0 => {
                let b: u8 = any();
                assume(b < 10);
                t.mark_block_env_accessed(VolatileDataAccess::from_bits_retain(1 << b));
                bits |= 1 << b;
                limit = limit.min(be);
            }
            1 => {
                t.mark_beneficiary_balance_accessed();
                bits |= 1 << 10;
                limit = limit.min(be);
            }
            2 => {
                let who = if any() { ORACLE_CONTRACT_ADDRESS } else { A };
                let oracle = aeq(&who, &ORACLE_CONTRACT_ADDRESS);
                assert!(t.check_and_mark_oracle_access(&who) == oracle, "C08: which address is the oracle");
                if oracle {
                    bits |= 1 << 11;
                    limit = limit.min(or);
                }
            }
            _ => {}
        }
        k += 1;
    }
    assert!(t.get_volatile_data_accessed().bits() == bits, "C08: what was accessed");
    assert!(t.accessed() == (bits != 0), "C08: whether anything was accessed");
    assert!(t.get_compute_gas_limit() == (bits != 0).then_some(limit), "C08: the most restrictive limit applies");
    assert!(t.get_block_env_accesses().bits() == bits & 0x3ff, "C08: which block data was accessed");
    assert!(t.has_accessed_beneficiary_balance() == (bits & 0x400 != 0), "C08: beneficiary access");
    assert!(t.has_accessed_oracle() == (bits & 0x800 != 0), "C08: oracle access");
    let i = t.get_volatile_data_info();
    assert!(i.map(|x| (x.0.bits(), x.1)) == (bits != 0).then_some((bits, limit)), "C08: access report");
    witness!(bits == 0xc01 && or < be, "everything accessed");
    witness!(bits == 0 && reset_at == 3, "reset");
}

fn limits(compute: u64, be: u64, or: u64) -> EvmTxRuntimeLimits {
    EvmTxRuntimeLimits {
        tx_data_size_limit: 0,
        tx_kv_updates_limit: 0,
        tx_compute_gas_limit: compute,
        tx_state_growth_limit: 0,
        block_env_access_compute_gas_limit: be,
        oracle_access_compute_gas_limit: or,
    }
}

fn bits(ctx: &Ctx) -> u16 {
    ctx.volatile_data_tracker.borrow().get_volatile_data_accessed().bits()
}
fn compute_limit(ctx: &Ctx) -> u64 {
    ctx.additional_limit.borrow().compute_gas_limit
}

/// Runs one opcode, which goes through only if its compute gas is within the limit so far; then
/// the limit is lowered at once by the accesses so far. -> whether the frame goes on
fn access(ctx: &mut Ctx, i: &mut revm::interpreter::Interpreter, op: u8, cost: u64, bit: u16, cap: u64, used: &mut u64, seen: &mut u16) -> bool {
    let before = compute_limit(ctx);
    let g = i.gas.remaining();
    step(ctx, i, op);
    *used += cost;
    assert!(g - i.gas.remaining() == cost, "C08: a volatile access costs what it costs on mainnet");
    assert!(usage(ctx).compute == *used, "C08: compute gas of a volatile access");
    *seen |= bit;
    assert!(bits(ctx) == *seen, "C08: which volatile data an opcode accesses");
    if *used > before {
        assert!(halted(i) == Some(InstructionResult::OutOfGas), "C08: a frame goes on above its compute gas limit");
        return false;
    }
    assert!(halted(i).is_none(), "C08: a frame stops within its compute gas limit");
    let after = if *seen != 0 { before.min(cap) } else { before };
    assert!(compute_limit(ctx) == after, "C08: the compute gas limit after a volatile access");
    true
}

fn volatile(spec: MegaSpecId) -> (Ctx, BlockEnv, u64, u64) {
    let w = World::new([256, 256]);
    let (be, cl): (u64, u64) = (any(), any());
    // the initial value of `beneficiary` is kept concrete: address comparisons are what is decided
    let block = BlockEnv {
        number: U256::from_limbs([any(), 0, 0, 0]),
        beneficiary: B,
        timestamp: word(),
        gas_limit: any(),
        basefee: any(),
        difficulty: word(),
        prevrandao: Some(B256::from(word())),
        blob_excess_gas_and_price: Some(revm::context_interface::block::BlobExcessGasAndPrice {
            excess_blob_gas: any(),
            blob_gasprice: any(),
        }),
    };
    let ctx = context(spec, w).with_block(block.clone()).with_tx_runtime_limits(limits(cl, be, 0));
    (ctx, block, be, cl)
}

fn top(i: &mut revm::interpreter::Interpreter) -> U256 {
    i.stack.pop().unwrap()
}

/// NUMBER, TIMESTAMP, COINBASE, GASLIMIT
fn block_env_1(spec: MegaSpecId) -> (bool, bool) {
    let (mut ctx, block, be, cl) = volatile(spec);
    let mut i = interpreter(&ctx, A, 1 << 40);
    let (mut used, mut seen) = (0, 0);
    let ok = access(&mut ctx, &mut i, 0x43, 2, 1 << 0, be, &mut used, &mut seen) && {
        assert!(weq(top(&mut i), block.number), "C08: NUMBER");
        access(&mut ctx, &mut i, 0x42, 2, 1 << 1, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), block.timestamp), "C08: TIMESTAMP");
        access(&mut ctx, &mut i, 0x41, 2, 1 << 2, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), B.into_word().into()), "C08: COINBASE");
        access(&mut ctx, &mut i, 0x45, 2, 1 << 4, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), U256::from(block.gas_limit)), "C08: GASLIMIT");
        true
    };
    core::mem::forget(i);
    core::mem::forget(ctx);
    (ok && be < cl, !ok)
}

/// PREVRANDAO, BASEFEE, BLOBBASEFEE, BLOBHASH
fn block_env_2(spec: MegaSpecId) -> (bool, bool) {
    let (mut ctx, block, be, cl) = volatile(spec);
    let mut i = interpreter(&ctx, A, 1 << 40);
    let (mut used, mut seen) = (0, 0);
    let ok = access(&mut ctx, &mut i, 0x44, 2, 1 << 6, be, &mut used, &mut seen) && {
        assert!(weq(top(&mut i), block.prevrandao.unwrap().into()), "C08: PREVRANDAO");
        access(&mut ctx, &mut i, 0x48, 2, 1 << 5, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), U256::from(block.basefee)), "C08: BASEFEE");
        access(&mut ctx, &mut i, 0x4a, 2, 1 << 8, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), U256::from(block.blob_excess_gas_and_price.unwrap().blob_gasprice)), "C08: BLOBBASEFEE");
        assert!(i.stack.push(word()));
        access(&mut ctx, &mut i, 0x49, 3, 1 << 9, be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), U256::ZERO), "C08: BLOBHASH");
        true
    };
    core::mem::forget(i);
    core::mem::forget(ctx);
    (ok && be < cl, !ok)
}

//@ case unwind=40
pub fn block_env_mini_rex() {
    let a = block_env_1(MegaSpecId::MINI_REX);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

//@ case unwind=40
pub fn block_env_more_mini_rex() {
    let a = block_env_2(MegaSpecId::MINI_REX);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

//@ case unwind=40
pub fn block_env_rex4() {
    let a = block_env_1(MegaSpecId::REX4);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

//@ case unwind=40
pub fn block_env_more_rex4() {
    let a = block_env_2(MegaSpecId::REX4);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

/// BALANCE, EXTCODESIZE, EXTCODEHASH, EXTCODECOPY of the beneficiary or of somebody else
fn accounts(spec: MegaSpecId, first: Address) -> (bool, bool) {
    let (mut ctx, _, be, cl) = volatile(spec);
    let balance = word();
    let mut info = no_code(0, 1);
    info.balance = balance;
    info.code = Some(Default::default());
    put(&mut ctx, B, info.clone(), false);
    put(&mut ctx, C, info, false);
    let mut i = interpreter(&ctx, A, 1 << 40);
    let (mut used, mut seen) = (0, 0);
    let bit = |a: Address| if aeq(&a, &B) { 1u16 << 10 } else { 0 };
    let w = |a: Address| -> U256 { a.into_word().into() };
    // the second account is the beneficiary in any case
    assert!(i.stack.push(w(first)));
    let ok = access(&mut ctx, &mut i, 0x31, 100, bit(first), be, &mut used, &mut seen) && {
        assert!(weq(top(&mut i), balance), "C08: BALANCE");
        assert!(i.stack.push(w(first)));
        access(&mut ctx, &mut i, 0x3b, 100, bit(first), be, &mut used, &mut seen)
    } && {
        assert!(weq(top(&mut i), U256::ZERO), "C08: EXTCODESIZE");
        assert!(i.stack.push(w(B)));
        access(&mut ctx, &mut i, 0x3f, 100, bit(B), be, &mut used, &mut seen)
    };
    core::mem::forget(i);
    core::mem::forget(ctx);
    (ok && be < cl, !ok)
}

//@ case unwind=40
pub fn beneficiary_after_another_account() {
    let a = accounts(MegaSpecId::MINI_REX, C);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

//@ case unwind=40
pub fn beneficiary_balance_and_code() {
    let a = accounts(MegaSpecId::REX4, B);
    witness!(a.0, "restricted");
    witness!(a.1, "stopped");
}

//@ case unwind=40
pub fn beneficiary_code_copy() {
    let (mut ctx, _, be, cl) = volatile(MegaSpecId::REX);
    let mut info = no_code(0, 1);
    info.code = Some(Default::default());
    put(&mut ctx, B, info, false);
    let mut i = interpreter(&ctx, A, 1 << 40);
    let (mut used, mut seen) = (0, 0);
    assert!(i.stack.push(U256::ZERO) && i.stack.push(U256::ZERO) && i.stack.push(U256::ZERO));
    assert!(i.stack.push(B.into_word().into()));
    let ok = access(&mut ctx, &mut i, 0x3c, 100, 1 << 10, be, &mut used, &mut seen);
    witness!(ok && be < cl, "restricted");
    witness!(!ok, "stopped");
    core::mem::forget(i);
    core::mem::forget(ctx);
}

/// SELFBALANCE of the beneficiary restricts at once (specification MiniRex.md 2.8.2).
//@ case unwind=40
pub fn beneficiary_own_balance() {
    let (mut ctx, _, be, cl) = volatile(MegaSpecId::MINI_REX);
    put(&mut ctx, B, no_code(7, 1), false);
    let mut i = interpreter(&ctx, B, 1 << 40);
    witness!(cl > be && be > 5, "restricted");
    step(&mut ctx, &mut i, 0x47);
    assert!(usage(&ctx).compute == 5, "C08: compute gas of a volatile access");
    assert!(bits(&ctx) == 1 << 10, "C08: which volatile data an opcode accesses");
    if cl >= 5 {
        assert!(weq(top(&mut i), U256::from(7u64)), "C08: SELFBALANCE");
        assert!(compute_limit(&ctx) == cl.min(be), "C08: SELFBALANCE of the beneficiary restricts compute gas at once");
    }
    core::mem::forget(i);
    core::mem::forget(ctx);
}

/// SLOAD of the oracle contract (or of an ordinary one): the oracle's answer, else the state's;
/// always at the cold price; restricted from REX3 on, unless the system sent the transaction.
fn oracle_read(spec: MegaSpecId, who: Address) -> (bool, bool, bool) {
    let w = World::new([256, 256]);
    let (or, cl): (u64, u64) = (any(), any());
    let system: bool = any();
    let mut tx = MegaTransaction::default();
    tx.base.caller = if system { MEGA_SYSTEM_ADDRESS } else { C };
    let mut ctx = context(spec, w).with_tx(tx).with_tx_runtime_limits(limits(cl, 0, or));
    let (inner, outer, cold): (U256, U256, bool) = (word(), word(), any());
    let answers: bool = any();
    w.oracle.set(answers.then_some(outer));
    put(&mut ctx, who, no_code(0, 1), false);
    put_slot(&mut ctx, who, KEY, inner, inner, cold);
    let mut i = interpreter(&ctx, who, 1 << 40);
    assert!(i.stack.push(KEY));
    let is_oracle = aeq(&who, &ORACLE_CONTRACT_ADDRESS) && spec != MegaSpecId::EQUIVALENCE;
    step(&mut ctx, &mut i, 0x54);
    let cost = if cold || is_oracle { 2_100 } else { 100 };
    assert!((1 << 40) - i.gas.remaining() == cost, "C08: price of a storage read");
    let restricts = is_oracle && !system && spec >= MegaSpecId::REX3;
    assert!(bits(&ctx) == if restricts { 1 << 11 } else { 0 }, "C08: which storage reads are oracle accesses");
    if spec != MegaSpecId::EQUIVALENCE {
        assert!(usage(&ctx).compute == cost, "C08: compute gas of a storage read");
    }
    let stops = spec != MegaSpecId::EQUIVALENCE && cost > cl;
    if stops {
        assert!(halted(&mut i) == Some(InstructionResult::OutOfGas), "C08: a frame goes on above its compute gas limit");
    } else {
        assert!(halted(&mut i).is_none(), "C08: a frame stops within its compute gas limit");
        let v = top(&mut i);
        assert!(weq(v, if is_oracle && answers { outer } else { inner }), "C08: value of a storage read");
        assert!(compute_limit(&ctx) == if restricts { cl.min(or) } else { cl }, "C08: compute gas limit after a storage read");
    }
    core::mem::forget(i);
    core::mem::forget(ctx);
    (!stops && system && answers, !stops && !system && !answers, stops)
}

//@ case unwind=40
pub fn oracle_equivalence() {
    let r = oracle_read(MegaSpecId::EQUIVALENCE, ORACLE_CONTRACT_ADDRESS);
    witness!(r.0 | r.1, "read");
}

//@ case unwind=40
pub fn oracle_rex2() {
    let r = oracle_read(MegaSpecId::REX2, ORACLE_CONTRACT_ADDRESS);
    witness!(r.0, "system");
    witness!(r.1, "user");
}

//@ case unwind=40
pub fn oracle_rex3() {
    let r = oracle_read(MegaSpecId::REX3, ORACLE_CONTRACT_ADDRESS);
    witness!(r.0, "system");
    witness!(r.1, "user");
}

//@ case unwind=40 tier=thorough
pub fn oracle_rex4() {
    let r = oracle_read(MegaSpecId::REX4, ORACLE_CONTRACT_ADDRESS);
    witness!(r.0, "system");
    witness!(r.1, "user");
}

//@ case unwind=40
pub fn ordinary_storage_rex4() {
    let r = oracle_read(MegaSpecId::REX4, A);
    witness!(r.0 | r.1, "read");
    witness!(r.2, "stopped");
}
