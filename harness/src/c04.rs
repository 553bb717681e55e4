//@ use: instr
//@ bounds: one storage slot, any original value, any two values stored one after the other, warm or cold, any gas, any bucket capacity 256..2^24, any transaction limits
//@ outside: three and more stores to one slot in one frame; stores whose slot read from the database fails
//@ assume: the contract's account is loaded (its frame is running)
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//! C04: SSTORE costs what it should and is accounted as what it is.
use crate::{
    common::*,
    instr::*,
    sym::{any, assume},
    witness,
};
use mega_evm::revm::{
    context::ContextTr,
    interpreter::{interpreter_types::StackTr, InstructionResult},
};

const SSTORE: u8 = 0x55;

/// Standard cost of a store (EIP-2200, EIP-2929, EIP-3529).
fn plain_cost(original: U256, present: U256, new: U256, cold: bool) -> u64 {
    let c = if cold { 2100 } else { 0 };
    if weq(present, new) || !weq(original, present) {
        c + 100
    } else if original.is_zero() {
        c + 20_000
    } else {
        c + 2_900
    }
}

fn set_price(spec: MegaSpecId, cap: u64) -> u64 {
    let m = cap / 256;
    if spec == MegaSpecId::MINI_REX { 2_000_000 * m } else { 20_000 * (m - 1) }
}

fn capacity() -> u64 {
    let (m, r): (u16, u8) = (any(), any());
    assume(m >= 1);
    ((m as u64) << 8) | r as u64
}

fn two_stores(spec: MegaSpecId, cold: bool) -> (bool, bool, bool, bool) {
    let cap = capacity();
    let w = World::new([cap, 256]);
    let mut ctx = context(spec, w);
    let (original, v1, v2) = (word(), word(), word());
    put(&mut ctx, A, no_code(0, 1), false);
    // a slot nobody touched in this transaction; warm if the access list named it
    put_slot(&mut ctx, A, KEY, original, original, cold);

    // the first store, with all the gas in the world
    let g1 = u64::MAX / 2;
    let mut i = interpreter(&ctx, A, g1);
    assert!(i.stack.push(v1) && i.stack.push(KEY));
    set_limits(&ctx, u64::MAX, u64::MAX, u64::MAX, u64::MAX);
    step(&mut ctx, &mut i, SSTORE);
    assert!(halted(&mut i).is_none(), "C04: a store with enough gas stops the frame");
    let s1 = if original.is_zero() && !v1.is_zero() { set_price(spec, cap) } else { 0 };
    let c1 = plain_cost(original, original, v1, cold);
    assert!(g1 - i.gas.remaining() == s1 + c1, "C04: gas of a first store");
    let u = usage(&ctx);
    let changed = !weq(v1, original) as u64;
    assert!(u.compute == c1, "C04: compute gas is the standard cost alone");
    assert!(u.data == 40 * changed && u.kv == changed, "C04: a written slot is 40 bytes and one key-value update");
    assert!(u.growth == (original.is_zero() && !v1.is_zero()) as u64, "C04: state growth of a store");
    core::mem::forget(i);

    clear_undo(&mut ctx);
    // the second store, under any gas and any limits
    let g2: u64 = any();
    let (dl, kl, cl, gl): (u64, u64, u64, u64) = (any(), any(), any(), any());
    set_limits(&ctx, dl, kl, cl, gl);
    assume(u.data <= dl && u.kv <= kl && u.compute <= cl && u.growth <= gl);
    let mut i = interpreter(&ctx, A, g2);
    assert!(i.stack.push(v2) && i.stack.push(KEY));
    step(&mut ctx, &mut i, SSTORE);
    let s2 = if original.is_zero() && v1.is_zero() && !v2.is_zero() { set_price(spec, cap) } else { 0 };
    let c2 = plain_cost(original, v1, v2, false);
    let enough = g2 >= s2 && g2 - s2 > 2300 && g2 - s2 >= c2;
    let h = halted(&mut i);
    let mut over = false;
    if !enough {
        assert!(h.is_some_and(|r| r.is_error()), "C04: a store the gas does not pay for goes through");
        assert!(exceeded(&ctx).0 == 0, "C04: running out of gas is not exceeding a limit");
    } else {
        let changed = !weq(v2, original) as u64;
        let grown = (original.is_zero() && !v2.is_zero()) as u64;
        let e = exceeded(&ctx);
        let u = usage(&ctx);
        assert!(u.compute == c1 + c2, "C04: compute gas is the standard cost alone");
        assert!(g2 - i.gas.remaining() == s2 + c2, "C04: gas of a second store");
        if u.compute > cl {
            over = true;
            assert!(e == (3, cl, u.compute), "C04: the compute gas limit is not noticed");
        } else {
            assert!(u.growth == grown, "C04: state growth of a store");
            assert!(u.data == 40 * changed && u.kv == changed, "C04: a written slot is 40 bytes and one key-value update");
            if u.data > dl {
                over = true;
                assert!(e == (1, dl, u.data), "C04: the data limit is not noticed");
            } else if u.kv > kl {
                over = true;
                assert!(e == (2, kl, u.kv), "C04: the key-value update limit is not noticed");
            } else if u.growth > gl {
                over = true;
                assert!(e == (4, gl, u.growth), "C04: the state growth limit is not noticed");
            } else {
                assert!(e.0 == 0, "C04: a limit is said to be exceeded that is not");
            }
        }
        assert!(h == over.then_some(InstructionResult::OutOfGas), "C04: a frame stops exactly when a limit is exceeded");
        if !over {
            let slot = ctx.journal_mut().inner.state.get(&A).unwrap().storage.get(&KEY).unwrap();
            assert!(weq(slot.present_value, v2) && weq(slot.original_value, original), "C04: what is stored");
        }
    }
    let r = (
        enough && !over && s2 > 0,
        enough && !over && !weq(v1, original) && weq(v2, original),
        over,
        !enough,
    );
    core::mem::forget(i);
    core::mem::forget(ctx);
    r
}

//@ case unwind=6
pub fn two_stores_mini_rex() {
    let w = two_stores(MegaSpecId::MINI_REX, true);
    witness!(w.0 | w.1, "goes through");
    witness!(w.2 | w.3, "stopped");
}

//@ case unwind=6
pub fn two_stores_rex4() {
    let w = two_stores(MegaSpecId::REX4, false);
    witness!(w.0 | w.1, "goes through");
    witness!(w.2 | w.3, "stopped");
}

//@ case unwind=6 tier=thorough
pub fn two_stores_rex3() {
    let w = two_stores(MegaSpecId::REX3, true);
    witness!(w.0 | w.1, "goes through");
    witness!(w.2 | w.3, "stopped");
}

