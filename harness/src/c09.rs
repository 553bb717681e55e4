//@ use: instr
//@ bounds: every opcode that is not metered specially (C04..C08), run once with ample gas and no compute gas limit and once with the limit used up; ADD, MSTORE and RETURN with any gas and any limit;, in the MINI_REX and REX4 tables (REX and REX2 in the thorough run), with symbolic operands (concrete ones for multiplication, division, modulo and exponentiation; concrete memory offsets and lengths), side by side with mainnet's table
//@ outside: what an opcode computes is not checked against a specification but against mainnet's implementation; the hash function is a stand-in
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//@ stub: alloy_primitives::keccak256, crate::common::cheap_hash
//! C09: an ordinary opcode does what it does on mainnet, and its gas is counted as compute gas.
use crate::{
    common::*,
    instr::*,
    sym::any,
    witness,
};
use mega_evm::revm::{
    bytecode::{bitvec::vec::BitVec, opcode::*, JumpTable, LegacyAnalyzedBytecode},
    context::ContextTr,
    interpreter::{
        interpreter::EthInterpreter, interpreter_types::{Jumps, StackTr}, CallInput, Gas, InstructionResult,
        Interpreter,
    },
    state::Bytecode,
};

const GAS: u64 = 1 << 40;
type I = Interpreter<EthInterpreter>;

struct Pair {
    ctx: Ctx,
    m: I,
    p: I,
    used: u64,
    over: bool,
}

/// 0..31 are PUSH data; 33 is a jump destination
const CODE: [u8; 36] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
    32, 0, 0x5b, 0, 0,
];
const DATA: [u8; 5] = [0x11, 0x22, 0x33, 0x44, 0x55];

fn new(ctx: &Ctx, jumps: bool) -> I {
    let table = if jumps { JumpTable::new(BitVec::from_vec(vec![0, 0, 0, 0, 2])) } else { JumpTable::default() };
    let code = LegacyAnalyzedBytecode::new(Bytes::from_static(&CODE), if jumps { 35 } else { 0 }, table);
    let mut i = interpreter_with(ctx, A, 0, Bytecode::LegacyAnalyzed(code), false);
    i.input.input = CallInput::Bytes(Bytes::from_static(&DATA));
    i.input.call_value = n(77);
    i
}

/// Replaces an interpreter by a new one (a frame that has ended cannot go on).
fn fresh(i: &mut I, ctx: &Ctx, jumps: bool) {
    unsafe { core::ptr::write(i, new(ctx, jumps)) }
}

fn pair(spec: MegaSpecId, jumps: bool) -> Pair {
    let w = World::new([256, 256]);
    let mut tx = MegaTransaction::default();
    tx.base.caller = B;
    tx.base.gas_price = any();
    let ctx = context(spec, w).with_tx(tx);
    let m = new(&ctx, jumps);
    let p = new(&ctx, jumps);
    Pair { ctx, m, p, used: 0, over: false }
}

fn prepare(i: &mut I, g: u64, args: &[U256]) {
    i.gas = Gas::new(g);
    while !i.stack.is_empty() {
        let _ = i.stack.pop();
    }
    let mut k = args.len();
    while k > 0 {
        k -= 1;
        assert!(i.stack.push(args[k]));
    }
}

impl Pair {
    /// `args` are given top of stack first; the `out` uppermost results are compared.
    fn op(&mut self, op: u8, args: &[U256], out: usize) {
        if self.over {
            fresh(&mut self.m, &self.ctx, false);
            prepare(&mut self.m, GAS, args);
            step(&mut self.ctx, &mut self.m, op);
            assert!(halted(&mut self.m).is_some_and(|r| r.is_error()), "C09: a frame goes on above its compute gas limit");
            return;
        }
        prepare(&mut self.m, GAS, args);
        prepare(&mut self.p, GAS, args);
        step(&mut self.ctx, &mut self.m, op);
        plain_step(&mut self.ctx, &mut self.p, op);
        let (hm, hp) = (halted(&mut self.m), halted(&mut self.p));
        assert!(hm == hp, "C09: an ordinary opcode does not go on as on mainnet");
        if hp.is_some_and(|r| r.is_error()) {
            return;
        }
        assert!(self.m.gas.remaining() == self.p.gas.remaining(), "C09: an ordinary opcode costs what it costs on mainnet");
        assert!(self.m.gas.refunded() == self.p.gas.refunded(), "C09: an ordinary opcode refunds what it refunds on mainnet");
        self.used += GAS - self.p.gas.remaining();
        let u = usage(&self.ctx);
        assert!(u.compute == self.used, "C09: the gas of an ordinary opcode is counted as compute gas");
        assert!(u.data == 0 && u.kv == 0 && u.growth == 0, "C09: an ordinary opcode uses nothing but compute gas");
        assert!(self.m.stack.len() == self.p.stack.len(), "C09: stack height");
        let mut k = 0;
        while k < out {
            assert!(weq(self.m.stack.peek(k).unwrap(), self.p.stack.peek(k).unwrap()), "C09: result of an ordinary opcode");
            k += 1;
        }
    }
    /// An opcode on the stack as it is.
    fn in_place(&mut self, op: u8) {
        let (m, p) = (self.m.gas.remaining(), self.p.gas.remaining());
        assert!(m == p, "C09: an ordinary opcode costs what it costs on mainnet");
        step(&mut self.ctx, &mut self.m, op);
        plain_step(&mut self.ctx, &mut self.p, op);
        assert!(halted(&mut self.m).is_none() && halted(&mut self.p).is_none(), "C09: an ordinary opcode does not go on as on mainnet");
        self.used += p - self.p.gas.remaining();
        assert!(usage(&self.ctx).compute == self.used, "C09: the gas of an ordinary opcode is counted as compute gas");
        assert!(self.m.stack.len() == self.p.stack.len(), "C09: stack height");
    }
    /// From any gas, within any compute gas limit.
    fn free(&mut self, op: u8, args: &[U256]) -> (bool, bool, bool) {
        let (g, cl): (u64, u64) = (any(), any());
        self.ctx.additional_limit.borrow_mut().compute_gas_limit = cl;
        prepare(&mut self.m, g, args);
        prepare(&mut self.p, g, args);
        step(&mut self.ctx, &mut self.m, op);
        plain_step(&mut self.ctx, &mut self.p, op);
        let (hm, hp) = (halted(&mut self.m), halted(&mut self.p));
        let e = exceeded(&self.ctx);
        if hp.is_some_and(|r| r.is_error()) {
            assert!(hm == hp, "C09: an opcode that fails on mainnet does not fail likewise");
            assert!(e.0 == 0, "C09: an opcode that fails is said to exceed a limit");
            return (true, false, false);
        }
        assert!(self.m.gas.remaining() == self.p.gas.remaining(), "C09: an ordinary opcode costs what it costs on mainnet");
        let used = g - self.p.gas.remaining();
        assert!(usage(&self.ctx).compute == used, "C09: the gas of an ordinary opcode is counted as compute gas");
        if used > cl {
            assert!(hm == Some(InstructionResult::OutOfGas), "C09: a frame goes on above its compute gas limit");
            assert!(e == (3, cl, used), "C09: the compute gas limit is not noticed");
            return (false, true, false);
        }
        assert!(e.0 == 0, "C09: a limit is said to be exceeded that is not");
        assert!(hm == hp, "C09: an ordinary opcode does not go on as on mainnet");
        (false, false, true)
    }
    /// From now on, the compute gas limit is exceeded by anything that costs gas.
    fn exhaust(&mut self) {
        self.ctx.additional_limit.borrow_mut().compute_gas_limit = 0;
        self.over = true;
    }
}

fn n(x: u64) -> U256 {
    U256::from_limbs([x, 0, 0, 0])
}

fn arithmetic(t: &mut Pair) {
    let minus_7 = U256::from_limbs([u64::MAX - 6, u64::MAX, u64::MAX, u64::MAX]);
    t.op(ADD, &[word(), word()], 1);
    t.op(SUB, &[word(), word()], 1);
    t.op(MUL, &[n(6), n(11)], 1);
    t.op(DIV, &[n(23), n(5)], 1);
    t.op(SDIV, &[minus_7, n(2)], 1);
    t.op(MOD, &[n(23), n(5)], 1);
    t.op(SMOD, &[minus_7, n(5)], 1);
    t.op(ADDMOD, &[n(9), n(8), n(10)], 1);
    t.op(MULMOD, &[n(9), n(8), n(10)], 1);
    t.op(EXP, &[n(3), n(5)], 1);
    t.op(SIGNEXTEND, &[n(0), n(0x80)], 1);
    t.op(SIGNEXTEND, &[n(1), n(0x80)], 1);
    t.op(0x0c, &[n(0), n(0)], 0);
}

fn comparison(t: &mut Pair) {
    t.op(LT, &[word(), word()], 1);
    t.op(GT, &[word(), word()], 1);
    t.op(SLT, &[word(), word()], 1);
    t.op(SGT, &[word(), word()], 1);
    t.op(EQ, &[word(), word()], 1);
    t.op(ISZERO, &[word()], 1);
    t.op(AND, &[word(), word()], 1);
    t.op(OR, &[word(), word()], 1);
    t.op(XOR, &[word(), word()], 1);
    t.op(NOT, &[word()], 1);
    t.op(BYTE, &[n(30), n(0x7766)], 1);
    t.op(BYTE, &[n(31), n(0x7766)], 1);
    t.op(SHL, &[n(3), n(0x8000_0000_0000_0001)], 1);
    t.op(SHR, &[n(3), n(0x8000_0000_0000_0001)], 1);
    t.op(SAR, &[n(3), U256::from_limbs([9, 0, 0, 1 << 63])], 1);
    t.op(CLZ, &[n(9)], 1);
    t.op(KECCAK256, &[n(0), n(33)], 1);
}

fn environment(t: &mut Pair) {
    t.op(ADDRESS, &[], 1);
    t.op(ORIGIN, &[], 1);
    t.op(CALLER, &[], 1);
    t.op(CALLVALUE, &[], 1);
    t.op(CALLDATALOAD, &[n(3)], 1);
    t.op(CALLDATASIZE, &[], 1);
    t.op(CODESIZE, &[], 1);
    t.op(RETURNDATASIZE, &[], 1);
    t.op(RETURNDATACOPY, &[n(0), n(0), n(0)], 0);
    t.op(GASPRICE, &[], 1);
    t.op(CHAINID, &[], 1);
    t.op(revm::bytecode::opcode::GAS, &[], 1);
    t.op(MSIZE, &[], 1);
    t.op(JUMPDEST, &[], 0);
    t.op(POP, &[word()], 0);
    t.op(TSTORE, &[n(1), word()], 0);
    t.op(TLOAD, &[n(1)], 1);
}

fn memory(t: &mut Pair) {
    t.op(MSTORE, &[n(0), word()], 0);
    t.op(MLOAD, &[n(0)], 1);
    t.op(MSTORE8, &[n(4), word()], 0);
    t.op(MLOAD, &[n(1)], 1);
    t.op(CALLDATACOPY, &[n(32), n(1), n(3)], 0);
    t.op(MLOAD, &[n(32)], 1);
    t.op(CODECOPY, &[n(64), n(30), n(4)], 0);
    t.op(MLOAD, &[n(64)], 1);
    t.op(MCOPY, &[n(96), n(0), n(32)], 0);
    t.op(MLOAD, &[n(96)], 1);
    t.op(MSIZE, &[], 1);
}

fn pushes(t: &mut Pair, which: &[u8]) {
    let mut k = 0;
    while k < which.len() {
        fresh(&mut t.m, &t.ctx, false);
        fresh(&mut t.p, &t.ctx, false);
        t.m.gas = Gas::new(GAS);
        t.p.gas = Gas::new(GAS);
        t.in_place(PUSH0 + which[k]);
        assert!(weq(t.m.stack.peek(0).unwrap(), t.p.stack.peek(0).unwrap()), "C09: PUSH");
        k += 1;
    }
}

/// Control flow: the frame may end, so each opcode has frames of its own.
fn control(t: &mut Pair) {
    let mut k = 0;
    while k < 9 {
        if !t.over {
            fresh(&mut t.m, &t.ctx, true);
            fresh(&mut t.p, &t.ctx, true);
        }
        match k {
            0 => t.op(RETURN, &[n(0), n(2)], 0),
            1 => t.op(REVERT, &[n(0), n(2)], 0),
            2 => t.op(STOP, &[], 0),
            3 => t.op(INVALID, &[], 0),
            4 => {
                t.m.bytecode.relative_jump(2);
                t.p.bytecode.relative_jump(2);
                t.op(PC, &[], 1)
            }
            5 => t.op(JUMP, &[n(33)], 0),
            6 => t.op(JUMP, &[n(32)], 0),
            7 => t.op(JUMPI, &[n(33), n(1)], 0),
            _ => t.op(JUMPI, &[n(33), n(0)], 0),
        }
        if !t.over && (k == 5 || k == 7 || k == 8) {
            assert!(t.m.bytecode.pc() == t.p.bytecode.pc(), "C09: program counter");
            assert!(t.m.bytecode.pc() == if k == 8 { 0 } else { 33 }, "C09: program counter");
        }
        k += 1;
    }
}

fn stack(t: &mut Pair) {
    t.m.gas = Gas::new(GAS);
    t.p.gas = Gas::new(GAS);
    // 17 words, in place throughout
    let mut k = 0;
    while k < 17 {
        let w = n(k + 1);
        assert!(t.m.stack.push(w) && t.p.stack.push(w));
        k += 1;
    }
    k = 0;
    while k < 16 {
        t.in_place(DUP1 + k as u8);
        assert!(weq(t.m.stack.pop().unwrap(), t.p.stack.pop().unwrap()), "C09: DUP");
        t.in_place(SWAP1 + k as u8);
        assert!(weq(t.m.stack.peek(0).unwrap(), t.p.stack.peek(0).unwrap()), "C09: SWAP");
        assert!(weq(t.m.stack.peek(k as usize + 1).unwrap(), t.p.stack.peek(k as usize + 1).unwrap()), "C09: SWAP");
        k += 1;
    }
}

//@ case unwind=70
pub fn any_gas_add() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    let r = t.free(ADD, &[word(), word()]);
    witness!(r.0, "out of gas");
    witness!(r.1, "over the limit");
    witness!(r.2, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn any_gas_mstore() {
    let mut t = pair(MegaSpecId::REX4, false);
    let r = t.free(MSTORE, &[n(3), word()]);
    witness!(r.0, "out of gas");
    witness!(r.1, "over the limit");
    witness!(r.2, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn any_gas_ret() {
    let mut t = pair(MegaSpecId::REX2, false);
    let r = t.free(RETURN, &[n(0), n(32)]);
    witness!(r.0, "out of gas");
    witness!(r.1, "over the limit");
    witness!(r.2, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn arithmetic_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    arithmetic(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    arithmetic(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70
pub fn comparison_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    comparison(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    comparison(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70
pub fn environment_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    environment(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    environment(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70
pub fn memory_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    memory(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn control_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    control(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn pushes_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    pushes(&mut t, &[0, 1, 2, 3, 4, 8, 20, 31, 32]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn more_pushes_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    pushes(&mut t, &[5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn most_pushes_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    pushes(&mut t, &[18, 19, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn stack_mini_rex() {
    let mut t = pair(MegaSpecId::MINI_REX, false);
    stack(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn arithmetic_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    arithmetic(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    arithmetic(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn comparison_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    comparison(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    comparison(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn environment_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    environment(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    environment(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn memory_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    memory(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn control_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    control(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn pushes_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    pushes(&mut t, &[0, 1, 2, 3, 4, 8, 20, 31, 32]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn stack_rex() {
    let mut t = pair(MegaSpecId::REX, false);
    stack(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn arithmetic_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    arithmetic(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    arithmetic(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn comparison_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    comparison(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    comparison(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn environment_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    environment(&mut t);
    witness!(t.used > 0, "done");
    t.exhaust();
    environment(&mut t);
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn memory_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    memory(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn control_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    control(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn pushes_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    pushes(&mut t, &[0, 1, 2, 3, 4, 8, 20, 31, 32]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn stack_rex2() {
    let mut t = pair(MegaSpecId::REX2, false);
    stack(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn arithmetic_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    arithmetic(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn comparison_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    comparison(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn environment_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    environment(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn memory_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    memory(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn control_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    control(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70
pub fn pushes_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    pushes(&mut t, &[0, 1, 2, 3, 4, 8, 20, 31, 32]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn more_pushes_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    pushes(&mut t, &[5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn most_pushes_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    pushes(&mut t, &[18, 19, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
//@ case unwind=70 tier=thorough
pub fn stack_rex4() {
    let mut t = pair(MegaSpecId::REX4, false);
    stack(&mut t);
    witness!(t.used > 0, "done");
    core::mem::forget(t);
}
