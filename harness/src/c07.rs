//@ use: instr
//@ bounds: one CREATE or CREATE2: any gas below 2^36, any salt and value, creator nonce 0..128, init code of 0..4 bytes of any content inside, across and beyond the end of memory, any bucket capacity 256..2^18 of the created account, any compute gas limit; init code one byte above the limit; any offset of at least 2^40
//@ outside: init code longer than 4 bytes that is accepted; the hash function (a cheap stand-in in the encoding, the real one in replays)
//@ assume: the creating contract's account is loaded in the journal
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//@ stub: alloy_primitives::keccak256, crate::common::cheap_hash
//! C07: what a contract creation costs, and how much gas it hands on.
use crate::{
    common::*,
    instr::{halted, no_code, KEY},
    sym::{any, assume},
    witness,
};
use core::cell::Cell;
use mega_evm::revm::{
    context::{ContextTr, CreateScheme, JournalTr},
    handler::instructions::InstructionProvider,
    interpreter::{
        interpreter::{EthInterpreter, ExtBytecode},
        interpreter_types::{LoopControl, MemoryTr, StackTr},
        CallInput, FrameInput, InputsImpl, InstructionContext, InstructionResult, Interpreter,
        InterpreterAction, SharedMemory,
    },
    state::{Account, Bytecode},
};

/// Buckets are named after the account, so that what is looked up tells whose price is charged.
#[derive(Debug)]
pub struct Named {
    pub cap: u64,
    pub asked: Cell<BucketId>,
    pub times: Cell<u8>,
}
impl SaltEnv for Named {
    type Error = u8;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, u8> {
        self.asked.set(id);
        self.times.set(self.times.get() + 1);
        Ok(self.cap)
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        ((a[17] as u32) << 16) | ((a[18] as u32) << 8) | a[19] as u32
    }
    fn bucket_id_for_slot(_: Address, _: U256) -> BucketId {
        panic!("C07: a creation is priced as a slot")
    }
}
type Env = (&'static Named, EmptyExternalEnv);
type Ctx = MegaContext<Db, Env>;

const CREATE: u8 = 0xf0;
const CREATE2: u8 = 0xf5;

fn setup(spec: MegaSpecId, cap: u64, nonce: u64) -> (Ctx, &'static Named) {
    let n: &'static Named =
        Box::leak(Box::new(Named { cap, asked: Cell::new(0), times: Cell::new(0) }));
    let mut ctx = MegaContext::new(Db::empty(), spec)
        .with_external_envs::<Env>(ExternalEnvs { salt_env: n, oracle_env: EmptyExternalEnv });
    ctx.journal_mut().inner.journal.reserve(4);
    let acc: Account = no_code(0, nonce).into();
    ctx.journal_mut().inner.state.insert(A, acc);
    (ctx, n)
}

fn interp(ctx: &Ctx, gas: u64, memory: usize) -> Interpreter<EthInterpreter> {
    let input = InputsImpl {
        target_address: A,
        bytecode_address: None,
        caller_address: C,
        input: CallInput::Bytes(Bytes::new()),
        call_value: U256::ZERO,
    };
    let mut i = Interpreter::new(
        SharedMemory::new(),
        ExtBytecode::new(Bytecode::default()),
        input,
        false,
        ctx.mega_spec().into_eth_spec(),
        gas,
    );
    if memory != 0 {
        // as if an earlier instruction had expanded it
        i.memory.resize(memory);
        let _ = i.gas.memory_mut().record_new_len(memory / 32);
    }
    i
}

fn step(ctx: &mut Ctx, i: &mut Interpreter<EthInterpreter>, op: u8) {
    let t = MegaInstructions::<Db, Env>::new(ctx.mega_spec());
    let f = t.instruction_table()[op as usize];
    f(InstructionContext { interpreter: i, host: ctx });
    core::mem::forget(t);
}

fn usage(ctx: &Ctx) -> LimitUsage {
    ctx.additional_limit.borrow().get_usage()
}

/// `memory` bytes of memory are in use, the first 32 hold `content` at `at`.
fn creation(op: u8, spec: MegaSpecId, memory: usize, offset: usize, len: usize) -> (bool, bool) {
    let m = any::<u16>() & 0x3ff;
    assume(m >= 1);
    let nonce = (any::<u8>() & 0x7f) as u64;
    let (mut ctx, named) = setup(spec, (m as u64) << 8, nonce);
    let cl: u64 = any();
    ctx.additional_limit.borrow_mut().compute_gas_limit = cl;
    let g = any::<u64>() & ((1 << 36) - 1);
    let mut i = interp(&ctx, g, memory);
    let mut code = [0u8; 4];
    let mut k = 0;
    while k < len {
        if offset + k < memory {
            code[k] = any();
            i.memory.set_byte(offset + k, code[k]);
        }
        k += 1;
    }
    let (salt, value) = (word(), word());
    if op == CREATE2 {
        assert!(i.stack.push(salt));
    }
    assert!(
        i.stack.push(U256::from_limbs([len as u64, 0, 0, 0])) &&
            i.stack.push(U256::from_limbs([offset as u64, 0, 0, 0])) &&
            i.stack.push(value)
    );
    step(&mut ctx, &mut i, op);

    let created = if op == CREATE2 {
        A.create2(B256::from(salt), alloy_primitives::keccak256(&code[..len]))
    } else {
        A.create(nonce)
    };
    assert!(named.times.get() == 1, "C07: a creation is priced once");
    assert!(named.asked.get() == Named::bucket_id_for_account(created), "C07: a creation is priced by the created account's bucket");
    let storage = if spec == MegaSpecId::MINI_REX { 2_000_000 * m as u64 } else { 32_000 * (m as u64 - 1) };
    let words = (len as u64).div_ceil(32);
    let top = if len == 0 { 0 } else { (offset as u64 + len as u64).div_ceil(32) };
    let had = memory as u64 / 32;
    let expansion = if top > had { 3 * (top - had) } else { 0 };
    let compute = 32_000 + 2 * words + expansion + if op == CREATE2 { 6 * words } else { 0 };
    let h = halted2(&mut i);
    let mut r = (false, true);
    if g < storage + compute {
        assert!(h.is_some_and(|r| r.is_error()), "C07: a creation the gas does not pay for goes through");
    } else {
        let left = g - storage - compute;
        let u = usage(&ctx);
        assert!(u.compute_gas == compute, "C07: compute gas of a creation is its standard cost");
        assert!(u.data_size == 0 && u.kv_updates == 0 && u.state_growth == 0, "C07: the instruction alone writes nothing");
        if compute > cl {
            assert!(h == Some(InstructionResult::OutOfGas), "C07: a creation over the compute gas limit goes through");
        } else {
            assert!(h.is_none(), "C07: a creation that is paid for stops the frame");
            let remaining = i.gas.remaining();
            match i.bytecode.action() {
                Some(InterpreterAction::NewFrame(FrameInput::Create(c))) => {
                    let child = c.gas_limit;
                    assert!(child <= left && remaining == left - child, "C07: gas is made or lost by a creation");
                    assert!(50 * (remaining + 1) > left, "C07: the creator keeps less than its 2%");
                    assert!(50 * remaining <= left || child == left - left / 64, "C07: the created contract gets less than it may");
                    assert!(child <= left - left / 64, "C07: the creator keeps less than a 64th");
                    assert!(aeq(&c.caller, &A) && weq(c.value, value), "C07: who creates, with what value");
                    assert!(c.init_code.len() == len, "C07: init code");
                    let mut k = 0;
                    while k < len {
                        assert!(c.init_code[k] == code[k], "C07: init code");
                        k += 1;
                    }
                    assert!(
                        match c.scheme {
                            CreateScheme::Create => op == CREATE,
                            CreateScheme::Create2 { salt: s } => op == CREATE2 && weq(s, salt),
                            _ => false,
                        },
                        "C07: scheme"
                    );
                }
                _ => panic!("C07: a creation makes no frame"),
            }
            r = (true, false);
        }
    }
    core::mem::forget(i);
    core::mem::forget(ctx);
    r
}

fn halted2(i: &mut Interpreter<EthInterpreter>) -> Option<InstructionResult> {
    halted(i)
}

//@ case unwind=90
pub fn create_mini_rex() {
    let w = creation(CREATE, MegaSpecId::MINI_REX, 32, 3, 4);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

//@ case unwind=90
pub fn create_rex4() {
    let w = creation(CREATE, MegaSpecId::REX4, 0, 0, 0);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

//@ case unwind=90
pub fn create2_mini_rex() {
    let w = creation(CREATE2, MegaSpecId::MINI_REX, 32, 28, 4);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

//@ case unwind=90
pub fn create2_across_the_end_of_memory() {
    let w = creation(CREATE2, MegaSpecId::REX4, 32, 30, 4);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

//@ case unwind=90
pub fn create2_beyond_memory() {
    let w = creation(CREATE2, MegaSpecId::REX, 0, 40, 2);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

//@ case unwind=90
pub fn create2_no_code() {
    let w = creation(CREATE2, MegaSpecId::REX3, 0, 40, 0);
    witness!(w.0, "goes through");
    witness!(w.1, "stopped");
}

fn impossible(len: U256, offset: U256) -> bool {
    let (mut ctx, _) = setup(MegaSpecId::REX4, 256, 1);
    let g = any::<u64>() & ((1 << 36) - 1);
    let mut i = interp(&ctx, g, 0);
    assert!(i.stack.push(KEY) && i.stack.push(len) && i.stack.push(offset) && i.stack.push(U256::ZERO));
    step(&mut ctx, &mut i, CREATE2);
    assert!(halted2(&mut i).is_some_and(|r| r.is_error()), "C07: impossible init code goes through");
    core::mem::forget(i);
    core::mem::forget(ctx);
    g > 1 << 30
}

/// Init code too far out stops the frame and nothing else.
//@ case unwind=90
pub fn create2_too_far() {
    let (lo, hi): (u64, u64) = (any(), any());
    assume(hi != 0 || lo >= 1 << 40);
    let w = impossible(U256::from_limbs([1, 0, 0, 0]), U256::from_limbs([lo, hi, 0, 0]));
    witness!(w && hi == 0, "plenty of gas");
}

/// Too much init code stops the frame and nothing else.
//@ case unwind=90
pub fn create2_too_long() {
    let w = impossible(U256::from_limbs([548_865, 0, 0, 0]), U256::from_limbs([any(), 0, 0, 0]));
    witness!(w, "plenty of gas");
}
