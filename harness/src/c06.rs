//@ use: instr
//@ bounds: one CALL, CALLCODE, DELEGATECALL or STATICCALL to another account: any gas below 2^36, any requested gas (256 bits), any value, target empty or not, warm or cold, any bucket capacities 256..2^18, any compute gas limit
//@ outside: call data and return areas (no memory is used), targets with EIP-7702 delegation (C15), gas from 2^36 on
//@ assume: the calling contract's account and the target's are loaded in the journal
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//! C06: what a call costs, and how much gas it hands on.
use crate::{
    common::*,
    instr::*,
    sym::{any, assume},
    witness,
};
use mega_evm::revm::{
    context::ContextTr,
    interpreter::{
        interpreter_types::{LoopControl, StackTr},
        FrameInput, InstructionResult, InterpreterAction,
    },
};

const CALL: u8 = 0xf1;
const CALLCODE: u8 = 0xf2;
const DELEGATECALL: u8 = 0xf4;
const STATICCALL: u8 = 0xfa;

fn account_price(spec: MegaSpecId, cap: u64) -> u64 {
    let m = cap / 256;
    if spec == MegaSpecId::MINI_REX { 2_000_000 * m } else { 25_000 * (m - 1) }
}

fn capacity() -> u64 {
    let m = any::<u16>() & 0x3ff;
    assume(m >= 1);
    (m as u64) << 8
}

fn the_call(op: u8, spec: MegaSpecId) -> (bool, bool, bool) {
    let caps = [capacity(), capacity()];
    let w = World::new(caps);
    let mut ctx = context(spec, w);
    let (empty, cold): (bool, bool) = (any(), any());
    put(&mut ctx, A, no_code(0, 1), false);
    put(&mut ctx, B, no_code(0, !empty as u64), cold);
    let cl: u64 = any();
    set_limits(&ctx, 0, 0, cl, 0);
    let g = any::<u64>() & ((1 << 36) - 1);
    let mut i = interpreter(&ctx, A, g);
    let requested = word();
    let takes_value = op == CALL || op == CALLCODE;
    let value = if takes_value { word() } else { U256::ZERO };
    // ret len, ret offset, args len, args offset
    let mut k = 0;
    while k < 4 {
        assert!(i.stack.push(U256::ZERO));
        k += 1;
    }
    if takes_value {
        assert!(i.stack.push(value));
    }
    assert!(i.stack.push(B.into_word().into()) && i.stack.push(requested));
    step(&mut ctx, &mut i, op);

    let wraps = op == CALL || spec != MegaSpecId::MINI_REX;
    let paid = !value.is_zero();
    let storage = if wraps && paid && empty { account_price(spec, caps[1]) } else { 0 };
    let base = if cold { 2_600 } else { 100 } +
        if paid { 9_000 } else { 0 } +
        if paid && empty && op == CALL { 25_000 } else { 0 };
    let stipend = if paid { 2_300 } else { 0 };
    let h = halted(&mut i);
    if g < storage || g - storage < base {
        assert!(h.is_some_and(|r| r.is_error()), "C06: a call the gas does not pay for goes through");
        assert!(exceeded(&ctx).0 == 0, "C06: running out of gas is not exceeding a limit");
        core::mem::forget(i);
        core::mem::forget(ctx);
        return (false, false, true);
    }
    // what the parent has once the call itself is paid for
    let left = g - storage - base;
    let compute = base - stipend;
    assert!(usage(&ctx).compute == compute, "C06: compute gas of a call is its cost without what the callee gets");
    let u = usage(&ctx);
    assert!(u.data == 0 && u.kv == 0 && u.growth == 0, "C06: a call instruction alone writes nothing");
    let e = exceeded(&ctx);
    let over = compute > cl;
    if over {
        assert!(e == (3, cl, compute), "C06: the compute gas limit is not noticed");
        assert!(h == Some(InstructionResult::OutOfGas), "C06: a call over the compute gas limit goes through");
    } else {
        assert!(e.0 == 0, "C06: a limit is said to be exceeded that is not");
        assert!(h.is_none(), "C06: a call that is paid for stops the frame");
        let remaining = i.gas.remaining();
        let child = match i.bytecode.action() {
            Some(InterpreterAction::NewFrame(FrameInput::Call(c))) => {
                assert!(aeq(&c.bytecode_address, &B), "C06: what is called");
                c.gas_limit
            }
            _ => panic!("C06: a call makes no frame"),
        };
        assert!(child >= stipend, "C06: the stipend is lost");
        let forwarded = child - stipend;
        assert!(forwarded <= left && remaining == left - forwarded, "C06: gas is made or lost by a call");
        let l = requested.as_limbs();
        let big = l[1] != 0 || l[2] != 0 || l[3] != 0;
        assert!(big || forwarded <= l[0], "C06: more gas than requested is handed on");
        let kept = left - forwarded;
        let asked_less = !big && forwarded == l[0];
        let all63 = left - left / 64;
        if wraps {
            // a fiftieth stays (rounded down), which is more than the usual 64th
            assert!(forwarded <= all63 && 50 * (kept + 1) > left, "C06: the caller keeps less than its 2%");
            assert!(asked_less || 50 * kept <= left || forwarded == all63, "C06: the callee gets less than it may");
        } else {
            assert!(forwarded <= all63, "C06: the caller keeps less than a 64th");
            assert!(asked_less || forwarded == all63, "C06: the callee gets less than it may");
        }
    }
    let r = (!over && storage > 0, !over, over);
    core::mem::forget(i);
    core::mem::forget(ctx);
    r
}

//@ case unwind=34
pub fn call_mini_rex() {
    let w = the_call(CALL, MegaSpecId::MINI_REX);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn call_rex3() {
    let w = the_call(CALL, MegaSpecId::REX3);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn callcode_mini_rex() {
    let w = the_call(CALLCODE, MegaSpecId::MINI_REX);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn callcode_rex4() {
    let w = the_call(CALLCODE, MegaSpecId::REX4);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn delegatecall_mini_rex() {
    let w = the_call(DELEGATECALL, MegaSpecId::MINI_REX);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn delegatecall_rex() {
    let w = the_call(DELEGATECALL, MegaSpecId::REX);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn staticcall_mini_rex() {
    let w = the_call(STATICCALL, MegaSpecId::MINI_REX);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34
pub fn staticcall_rex2() {
    let w = the_call(STATICCALL, MegaSpecId::REX2);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn call_rex() {
    let w = the_call(CALL, MegaSpecId::REX);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn call_rex2() {
    let w = the_call(CALL, MegaSpecId::REX2);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn call_rex4() {
    let w = the_call(CALL, MegaSpecId::REX4);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn callcode_rex() {
    let w = the_call(CALLCODE, MegaSpecId::REX);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn callcode_rex2() {
    let w = the_call(CALLCODE, MegaSpecId::REX2);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn callcode_rex3() {
    let w = the_call(CALLCODE, MegaSpecId::REX3);
    witness!(w.0, "to a new account");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn delegatecall_rex2() {
    let w = the_call(DELEGATECALL, MegaSpecId::REX2);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn delegatecall_rex3() {
    let w = the_call(DELEGATECALL, MegaSpecId::REX3);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn delegatecall_rex4() {
    let w = the_call(DELEGATECALL, MegaSpecId::REX4);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn staticcall_rex() {
    let w = the_call(STATICCALL, MegaSpecId::REX);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn staticcall_rex3() {
    let w = the_call(STATICCALL, MegaSpecId::REX3);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

//@ case unwind=34 tier=thorough
pub fn staticcall_rex4() {
    let w = the_call(STATICCALL, MegaSpecId::REX4);
    witness!(w.1, "goes through");
    witness!(w.2, "stopped");
}

