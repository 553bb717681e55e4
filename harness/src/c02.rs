//@ bounds: capacities of two buckets are arbitrary in 256..2^24 slots (multipliers 1..=65535), addresses concrete, slot key arbitrary; every specification from MINI_REX on; up to 4 queries in one block and one after a block change
//@ outside: capacities below the SALT minimum bucket size or from 2^24 slots on; more than 4 distinct buckets
//! C02: the price of storing something new.
use crate::{
    common::*,
    sym::{any, assume},
    witness,
};
use core::cell::Cell;

/// SALT environment: bucket 7 for A's account, 8 for others; slots by the key's parity; the number
/// of capacity lookups is counted.
#[derive(Debug)]
pub struct Salt {
    pub cap: [Cell<u64>; 2],
    pub fail: Cell<bool>,
}

impl SaltEnv for Salt {
    type Error = u8;
    fn get_bucket_capacity(&self, id: BucketId) -> Result<u64, u8> {
        if self.fail.get() {
            return Err(42);
        }
        assert!(id == 7 || id == 8, "C02: a bucket nobody named was looked up");
        Ok(self.cap[(id - 7) as usize].get())
    }
    fn bucket_id_for_account(a: Address) -> BucketId {
        if a[0] == A[0] { 7 } else { 8 }
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> BucketId {
        if (a[0] == A[0]) == (k.as_limbs()[0] & 1 == 0) { 7 } else { 8 }
    }
}

fn capacity() -> u64 {
    let (m, r): (u16, u8) = (any(), any());
    assume(m >= 1);
    ((m as u64) << 8) | r as u64
}

fn fee_spec() -> MegaSpecId {
    let s = spec();
    assume(s != MegaSpecId::EQUIVALENCE);
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Slot,
    Account,
    Contract,
}

fn price(spec: MegaSpecId, kind: Kind, cap: u64) -> u64 {
    let m = cap / 256;
    if spec == MegaSpecId::MINI_REX {
        2_000_000 * m
    } else {
        (m - 1) *
            match kind {
                Kind::Slot => 20_000,
                Kind::Account => 25_000,
                Kind::Contract => 32_000,
            }
    }
}

/// asks for one price; -> (bucket the answer must come from, kind, answer)
fn ask(d: &mut DynamicGasCost<Salt>, k: u8, a: Address, key: U256) -> (usize, Kind, Result<u64, u8>) {
    match k {
        0 => ((Salt::bucket_id_for_slot(a, key) - 7) as usize, Kind::Slot, d.sstore_set_gas(a, key)),
        1 => ((Salt::bucket_id_for_account(a) - 7) as usize, Kind::Account, d.new_account_gas(a)),
        _ => ((Salt::bucket_id_for_account(a) - 7) as usize, Kind::Contract, d.create_contract_gas(a)),
    }
}

fn two_prices(first: u8, second: u8) -> (bool, bool) {
    let s = fee_spec();
    let caps = [capacity(), capacity()];
    let mut d = DynamicGasCost::new(
        s,
        Salt { cap: [Cell::new(caps[0]), Cell::new(caps[1])], fail: Cell::new(false) },
        any(),
    );
    let (a1, a2) = (if any() { A } else { B }, if any() { A } else { B });
    let (i, k, r) = ask(&mut d, first, a1, word());
    assert!(r == Ok(price(s, k, caps[i])), "C02: price");
    // a second price, of another kind, in a possibly different bucket
    let (i2, k2, r2) = ask(&mut d, second, a2, word());
    assert!(r2 == Ok(price(s, k2, caps[i2])), "C02: price after another query");
    let ids = d.get_bucket_ids();
    assert!(ids.len() == if i == i2 { 1 } else { 2 }, "C02: accessed buckets");
    let mut n = 0;
    while n < ids.len() {
        assert!(ids[n] == i as u32 + 7 || ids[n] == i2 as u32 + 7, "C02: accessed bucket ids");
        n += 1;
    }
    let w = (i != i2 && s == MegaSpecId::REX4, s == MegaSpecId::MINI_REX);

    core::mem::forget(ids);
    core::mem::forget(d);
    w
}

//@ case unwind=6
pub fn price_of_a_slot() {
    let w = two_prices(0, 1);
    witness!(w.0, "two buckets");
    witness!(w.1, "mini rex");
}

//@ case unwind=6
pub fn price_of_an_account() {
    let w = two_prices(1, 2);
    witness!(w.0, "two buckets");
    witness!(w.1, "mini rex");
}

//@ case unwind=6
pub fn price_of_a_contract() {
    let w = two_prices(2, 0);
    witness!(w.0, "two buckets");
    witness!(w.1, "mini rex");
}

/// Within one block the price is fixed by the capacity first seen; a new block sees new ones.
//@ case unwind=6
pub fn price_is_fixed_within_a_block() {
    let s = fee_spec();
    let caps = [capacity(), capacity()];
    let later = [capacity(), capacity()];
    let salt = Salt { cap: [Cell::new(caps[0]), Cell::new(caps[1])], fail: Cell::new(false) };
    let salt: &'static Salt = Box::leak(Box::new(salt));
    let mut d = DynamicGasCost::new(s, salt, any());
    let (a, b) = (A, A);
    let p1 = d.new_account_gas(a);
    salt.cap[0].set(later[0]);
    let p2 = d.new_account_gas(b);
    assert!(p1 == Ok(price(s, Kind::Account, caps[0])), "C02: price");
    assert!(p2 == p1, "C02: the price changed within a block");
    d.reset(any());
    assert!(d.get_bucket_ids().is_empty(), "C02: buckets of an earlier block are reported");
    let p3 = d.new_account_gas(a);
    assert!(p3 == Ok(price(s, Kind::Account, later[0])), "C02: a new block keeps an old price");
    witness!(p3 != p2, "price moved");
    core::mem::forget(d);
}

/// A failing lookup is an error, not a price, and is not remembered.
//@ case unwind=6
pub fn failed_lookup_is_not_a_price() {
    let s = fee_spec();
    let caps = [capacity(), capacity()];
    let salt = Salt { cap: [Cell::new(caps[0]), Cell::new(caps[1])], fail: Cell::new(true) };
    let salt: &'static Salt = Box::leak(Box::new(salt));
    let mut d = DynamicGasCost::new(s, salt, any());
    let kind: u8 = any();
    assume(kind < 3);
    let key = word();
    let r = match kind {
        0 => d.sstore_set_gas(A, key),
        1 => d.new_account_gas(A),
        _ => d.create_contract_gas(A),
    };
    assert!(r == Err(42), "C02: a failed capacity lookup must surface");
    assert!(d.get_bucket_ids().is_empty(), "C02: a failed lookup counts as an access");
    salt.fail.set(false);
    let r = d.new_account_gas(A);
    assert!(r == Ok(price(s, Kind::Account, caps[0])), "C02: price after a failed lookup");
    witness!(kind == 2, "contract");
    core::mem::forget(d);
}

/// With the default environment every bucket has the minimum size.
//@ case unwind=6
pub fn default_environment_is_minimal() {
    let s = fee_spec();
    let mut d = DynamicGasCost::new(s, EmptyExternalEnv, any());
    let key = word();
    let want = if s == MegaSpecId::MINI_REX { 2_000_000 } else { 0 };
    let r = d.sstore_set_gas(B, key);
    assert!(matches!(r, Ok(g) if g == want), "C02: minimal bucket, slot");
    let r = d.new_account_gas(B);
    assert!(matches!(r, Ok(g) if g == want), "C02: minimal bucket, account");
    let r = d.create_contract_gas(B);
    assert!(matches!(r, Ok(g) if g == want), "C02: minimal bucket, contract");
    witness!(want == 0, "rex");
    core::mem::forget(d);
}

/// However the block of a context is replaced, prices are those of the new block from then on.
//@ case unwind=6
pub fn a_new_block_has_new_prices() {
    use mega_evm::revm::{context::BlockEnv, context::ContextSetters, context::ContextTr};
    let caps = [capacity(), capacity()];
    let later = capacity();
    let salt = Salt { cap: [Cell::new(caps[0]), Cell::new(caps[1])], fail: Cell::new(false) };
    let salt: &'static Salt = Box::leak(Box::new(salt));
    let s = if any() { MegaSpecId::REX4 } else { MegaSpecId::MINI_REX };
    let mut ctx = MegaContext::new(Db::empty(), s).with_external_envs::<(&'static Salt, EmptyExternalEnv)>(
        ExternalEnvs { salt_env: salt, oracle_env: EmptyExternalEnv },
    );
    let p1 = ctx.dynamic_storage_gas_cost.borrow_mut().new_account_gas(A);
    assert!(p1 == Ok(price(s, Kind::Account, caps[0])), "C02: price in a context");
    salt.cap[0].set(later);
    let mut block = BlockEnv::default();
    block.number = U256::from(any::<u64>());
    let set: bool = any();
    if set {
        ctx.set_block(block);
    } else {
        ctx = ctx.with_block(block);
    }
    assert!(
        ctx.dynamic_storage_gas_cost.borrow().get_bucket_ids().is_empty(),
        "C02: buckets of an earlier block are reported"
    );
    let p2 = ctx.dynamic_storage_gas_cost.borrow_mut().new_account_gas(A);
    assert!(p2 == Ok(price(s, Kind::Account, later)), "C02: a new block keeps an old price");
    witness!(set && p1 != p2, "set");
    witness!(!set && p1 != p2, "with");
    core::mem::forget(ctx);
}
