//! One instruction at a time: a context with symbolic external environments, an interpreter, and
//! the instruction table of a specification.
use crate::{common::*, sym::any};
use core::cell::Cell;
use mega_evm::revm::{
    context::{ContextTr, JournalTr},
    handler::instructions::InstructionProvider,
    interpreter::{
        interpreter::{EthInterpreter, ExtBytecode},
        interpreter_types::{LoopControl, StackTr},
        CallInput, FrameInput, InputsImpl, InstructionContext, InstructionResult, Interpreter,
        InterpreterAction, SharedMemory,
    },
    primitives::hardfork::SpecId,
    state::{Account, AccountInfo, Bytecode, EvmStorageSlot},
};

pub const NOT_RUN: u64 = u64::MAX;

/// The world outside: bucket capacities and oracle values.
#[derive(Debug)]
pub struct World {
    /// capacity of A's bucket and of everybody else's
    pub cap: [Cell<u64>; 2],
    pub fail: Cell<bool>,
    /// what the oracle answers
    pub oracle: Cell<Option<U256>>,
    /// the address and key of the last slot bucket looked up
    pub lookups: Cell<u32>,
    pub hints: Cell<u32>,
    pub hint: Cell<(Address, B256, usize, u8)>,
}
impl World {
    pub fn new(caps: [u64; 2]) -> &'static World {
        Box::leak(Box::new(World {
            cap: [Cell::new(caps[0]), Cell::new(caps[1])],
            fail: Cell::new(false),
            oracle: Cell::new(None),
            lookups: Cell::new(0),
            hints: Cell::new(0),
            hint: Cell::new((Address::ZERO, B256::ZERO, 0, 0)),
        }))
    }
}
impl SaltEnv for World {
    type Error = u8;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, u8> {
        self.lookups.set(self.lookups.get() + 1);
        if self.fail.get() {
            return Err(42);
        }
        Ok(self.cap[(id & 1) as usize].get())
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        if aeq(&a, &A) { 8 } else { 9 }
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> BucketId {
        if aeq(&a, &A) && k.as_limbs()[0] == KEY.as_limbs()[0] { 8 } else { 9 }
    }
}
impl OracleEnv for World {
    fn get_oracle_storage(&self, _: U256) -> Option<U256> {
        self.oracle.get()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.hints.set(self.hints.get() + 1);
        self.hint.set((from, topic, data.len(), if data.is_empty() { 0 } else { data[0] }));
    }
}

pub const KEY: U256 = U256::from_limbs([5, 0, 0, 0]);

pub type Env = (&'static World, &'static World);
pub type Ctx = MegaContext<Db, Env>;

pub fn context(spec: MegaSpecId, w: &'static World) -> Ctx {
    let mut ctx = MegaContext::new(Db::empty(), spec)
        .with_external_envs::<Env>(ExternalEnvs { salt_env: w, oracle_env: w });
    ctx.journal_mut().inner.journal.reserve(4);
    ctx
}

/// Forgets the undo log so far (nothing is undone in these harnesses).
pub fn clear_undo(ctx: &mut Ctx) {
    let old = core::mem::replace(&mut ctx.journal_mut().inner.journal, Vec::with_capacity(4));
    core::mem::forget(old);
}

/// Puts an account into the journal.
pub fn put(ctx: &mut Ctx, a: Address, info: AccountInfo, cold: bool) {
    let mut acc: Account = info.into();
    if cold {
        acc.mark_cold();
    }
    ctx.journal_mut().inner.state.insert(a, acc);
}

pub fn put_slot(ctx: &mut Ctx, a: Address, key: U256, original: U256, present: U256, cold: bool) {
    let mut s = EvmStorageSlot::new_changed(original, present, 0);
    if cold {
        s.mark_cold();
    }
    ctx.journal_mut().inner.state.get_mut(&a).unwrap().storage.insert(key, s);
}

pub fn no_code(balance: u64, nonce: u64) -> AccountInfo {
    AccountInfo {
        balance: U256::from(balance),
        nonce,
        code_hash: revm::primitives::KECCAK_EMPTY,
        code: None,
    }
}

pub fn interpreter(ctx: &Ctx, me: Address, gas: u64) -> Interpreter<EthInterpreter> {
    interpreter_with(ctx, me, gas, Bytecode::default(), false)
}

pub fn interpreter_with(ctx: &Ctx, me: Address, gas: u64, code: Bytecode, is_static: bool) -> Interpreter<EthInterpreter> {
    let input = InputsImpl {
        target_address: me,
        bytecode_address: None,
        caller_address: C,
        input: CallInput::Bytes(Bytes::new()),
        call_value: U256::ZERO,
    };
    Interpreter::new(
        SharedMemory::new(),
        ExtBytecode::new(code),
        input,
        is_static,
        ctx.mega_spec().into_eth_spec(),
        gas,
    )
}

/// Runs one opcode of the context's specification.
pub fn step(ctx: &mut Ctx, i: &mut Interpreter<EthInterpreter>, op: u8) {
    let t = MegaInstructions::<Db, Env>::new(ctx.mega_spec());
    let f = t.instruction_table()[op as usize];
    f(InstructionContext { interpreter: i, host: ctx });
    core::mem::forget(t);
}

/// Runs one opcode as on mainnet.
pub fn plain_step(ctx: &mut Ctx, i: &mut Interpreter<EthInterpreter>, op: u8) {
    let t = revm::handler::instructions::EthInstructions::<EthInterpreter, Ctx>::new_mainnet();
    let f = t.instruction_table()[op as usize];
    f(InstructionContext { interpreter: i, host: ctx });
    core::mem::forget(t);
}

/// 0: goes on; otherwise why it stopped
pub fn halted(i: &mut Interpreter<EthInterpreter>) -> Option<InstructionResult> {
    match i.bytecode.action() {
        Some(InterpreterAction::Return(r)) => Some(r.result),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Use {
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
}
pub fn usage(ctx: &Ctx) -> Use {
    let u = ctx.additional_limit.borrow().get_usage();
    Use { data: u.data_size, kv: u.kv_updates, compute: u.compute_gas, growth: u.state_growth }
}

pub fn set_limits(ctx: &Ctx, data: u64, kv: u64, compute: u64, growth: u64) {
    let mut l = ctx.additional_limit.borrow_mut();
    l.data_limit = data;
    l.kv_update_limit = kv;
    l.compute_gas_limit = compute;
    l.state_growth_limit = growth;
}

/// Which limit the transaction is said to exceed: 0 none, then data, kv, compute, growth.
pub fn exceeded(ctx: &Ctx) -> (u8, u64, u64) {
    match ctx.additional_limit.borrow_mut().check_limit() {
        AdditionalLimitResult::WithinLimit => (0, 0, 0),
        AdditionalLimitResult::ExceedsDataLimit { limit, used } => (1, limit, used),
        AdditionalLimitResult::ExceedsKVUpdateLimit { limit, used } => (2, limit, used),
        AdditionalLimitResult::ExceedsComputeGasLimit { limit, used } => (3, limit, used),
        AdditionalLimitResult::ExceedsStateGrowthLimit { limit, used } => (4, limit, used),
    }
}
