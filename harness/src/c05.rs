//@ use: instr
//@ bounds: LOG0..LOG4, any topics, any gas, any data and compute gas limit; data of 0, 1, 31, 32 or 33 bytes when the log is written, of any length when the gas cannot pay for it
//@ outside: data longer than 33 bytes that is paid for (the per-byte price is linear in the code under check)
//@ assume: the contract's account is loaded (its frame is running)
//@ stub: mega_evm::op_revm::precompiles::isthmus, crate::common::no_precompiles
//@ stub: std::sync::atomic::atomic_sub, crate::common::count_down
//@ stub: std::sync::atomic::atomic_add, crate::common::count_up
//! C05: LOG costs what it should and is accounted as what it is.
use crate::{
    common::*,
    instr::*,
    sym::{any, assume},
    witness,
};
use mega_evm::revm::{
    context::ContextTr,
    interpreter::{interpreter_types::StackTr, InstructionResult},
};

const LOG0: u8 = 0xa0;

/// One log of N topics and `len` bytes; -> (written, over a limit, out of gas)
fn log<const N: usize>(spec: MegaSpecId, len: usize) -> (bool, bool, bool) {
    let w = World::new([256, 256]);
    let mut ctx = context(spec, w);
    put(&mut ctx, A, no_code(0, 1), false);
    let g: u64 = any();
    let (dl, cl): (u64, u64) = (any(), any());
    set_limits(&ctx, dl, 0, cl, 0);
    let mut i = interpreter(&ctx, A, g);
    let mut topics = [U256::ZERO; N];
    let mut k = 0;
    while k < N {
        topics[k] = word();
        k += 1;
    }
    while k > 0 {
        k -= 1;
        assert!(i.stack.push(topics[k]));
    }
    assert!(i.stack.push(U256::from_limbs([len as u64, 0, 0, 0])) && i.stack.push(U256::ZERO));
    step(&mut ctx, &mut i, LOG0 + N as u8);

    let n = N as u64;
    let storage = 3_750 * n + 80 * len as u64;
    let words = (len as u64).div_ceil(32);
    let compute = 375 + 375 * n + 8 * len as u64 + 3 * words;
    let enough = g >= storage + compute;
    let h = halted(&mut i);
    let e = exceeded(&ctx);
    let mut over = false;
    let logs = ctx.journal_mut().inner.logs.len();
    if !enough {
        assert!(h.is_some_and(|r| r.is_error()), "C05: a log the gas does not pay for goes through");
        assert!(e.0 == 0, "C05: running out of gas is not exceeding a limit");
        assert!(logs == 0, "C05: a log the gas does not pay for is written");
    } else {
        let u = usage(&ctx);
        assert!(g - i.gas.remaining() == storage + compute, "C05: gas of a log");
        assert!(u.compute == compute, "C05: compute gas of a log is its standard cost");
        assert!(u.kv == 0 && u.growth == 0, "C05: a log is no state");
        assert!(logs == 1, "C05: a log that is paid for is not written");
        if compute > cl {
            over = true;
            assert!(e == (3, cl, compute), "C05: the compute gas limit is not noticed");
        } else {
            let size = 32 * n + len as u64;
            assert!(u.data == size, "C05: data size of a log");
            if size > dl {
                over = true;
                assert!(e == (1, dl, size), "C05: the data limit is not noticed");
            } else {
                assert!(e.0 == 0, "C05: a limit is said to be exceeded that is not");
            }
        }
        assert!(h == over.then_some(InstructionResult::OutOfGas), "C05: a frame stops exactly when a limit is exceeded");
        let l = &ctx.journal_mut().inner.logs[0];
        assert!(l.data.data.len() == len && l.data.topics().len() == N && aeq(&l.address, &A), "C05: what is logged");
        let mut k = 0;
        while k < N {
            assert!(weq(U256::from_be_bytes(l.data.topics()[k].0), topics[k]), "C05: topics");
            k += 1;
        }
    }
    core::mem::forget(i);
    core::mem::forget(ctx);
    (enough && !over, over, !enough)
}

//@ case unwind=66
pub fn log0_mini_rex() {
    let w = log::<0>(MegaSpecId::MINI_REX, 33);
    witness!(w.0, "written");
    witness!(w.1 | w.2, "stopped");
}

//@ case unwind=40
pub fn log1_rex() {
    let w = log::<1>(MegaSpecId::REX, 0);
    witness!(w.0, "written");
    witness!(w.1 | w.2, "stopped");
}

//@ case unwind=40
pub fn log2_rex2() {
    let w = log::<2>(MegaSpecId::REX2, 1);
    witness!(w.0, "written");
    witness!(w.1 | w.2, "stopped");
}

//@ case unwind=40
pub fn log3_rex3() {
    let w = log::<3>(MegaSpecId::REX3, 31);
    witness!(w.0, "written");
    witness!(w.1 | w.2, "stopped");
}

//@ case unwind=40
pub fn log4_rex4() {
    let w = log::<4>(MegaSpecId::REX4, 32);
    witness!(w.0, "written");
    witness!(w.1 | w.2, "stopped");
}

/// However long the data is said to be, a log is written only if the gas pays for it.
//@ case unwind=40
pub fn log_too_long() {
    let w = World::new([256, 256]);
    let mut ctx = context(MegaSpecId::REX4, w);
    put(&mut ctx, A, no_code(0, 1), false);
    let g: u64 = any();
    let len = word();
    let l = len.as_limbs();
    assume(l[1] != 0 || l[2] != 0 || l[3] != 0 || l[0] as u128 * 88 + 375 > g as u128);
    set_limits(&ctx, 0, 0, 0, 0);
    let mut i = interpreter(&ctx, A, g);
    assert!(i.stack.push(len) && i.stack.push(word()));
    step(&mut ctx, &mut i, LOG0);
    assert!(halted(&mut i).is_some_and(|r| r.is_error()), "C05: a log the gas does not pay for goes through");
    assert!(ctx.journal_mut().inner.logs.is_empty(), "C05: a log the gas does not pay for is written");
    assert!(exceeded(&ctx).0 == 0, "C05: running out of gas is not exceeding a limit");
    witness!(l[0] > 1 << 60 && l[1] == 0, "huge");
    core::mem::forget(i);
    core::mem::forget(ctx);
}
