//! Shared building blocks of the harnesses.
use crate::sym::{any, assume};
pub use alloy_primitives::{Address, Bytes, B256, U256};
pub use mega_evm::*;

/// A symbolic 256-bit word.
pub fn word() -> U256 {
    U256::from_limbs([any(), any(), any(), any()])
}

/// Word equality, limb by limb (no byte loop).
pub fn weq(a: U256, b: U256) -> bool {
    let (a, b) = (a.as_limbs(), b.as_limbs());
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])
}

/// Every specification of the system, in activation order.
pub const SPECS: [MegaSpecId; 7] = [
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];

/// An arbitrary specification.
pub fn spec() -> MegaSpecId {
    let i: u8 = any();
    assume((i as usize) < SPECS.len());
    SPECS[i as usize]
}

/// A database that knows a few accounts (no code cache, no storage but what is given).
#[derive(Debug, Clone)]
pub struct Db {
    pub accounts: [(Address, Option<revm::state::AccountInfo>); 3],
    pub slots: [(Address, U256, U256); 2],
}

/// Errors of [`Db`] (never raised).
#[derive(Debug, Clone)]
pub struct DbErr;
impl core::fmt::Display for DbErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::error::Error for DbErr {}
impl revm::context::DBErrorMarker for DbErr {}

pub fn aeq(a: &Address, b: &Address) -> bool {
    let w = |x: &Address| -> (u128, u32) {
        let p = x.as_ptr();
        unsafe { ((p as *const u128).read_unaligned(), (p.add(16) as *const u32).read_unaligned()) }
    };
    w(a) == w(b)
}

impl Db {
    pub fn empty() -> Self {
        Self {
            accounts: [(Address::ZERO, None), (Address::ZERO, None), (Address::ZERO, None)],
            slots: [(Address::ZERO, U256::ZERO, U256::ZERO); 2],
        }
    }
}

impl revm::Database for Db {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<revm::state::AccountInfo>, DbErr> {
        let mut i = 0;
        while i < 3 {
            if aeq(&self.accounts[i].0, &a) {
                return Ok(self.accounts[i].1.clone());
            }
            i += 1;
        }
        Ok(None)
    }
    fn code_by_hash(&mut self, _: B256) -> Result<revm::state::Bytecode, DbErr> {
        Ok(revm::state::Bytecode::default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        let mut i = 0;
        while i < 2 {
            if aeq(&self.slots[i].0, &a) && weq(self.slots[i].1, k) {
                return Ok(self.slots[i].2);
            }
            i += 1;
        }
        Ok(U256::ZERO)
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        Ok(B256::from(U256::from(n)))
    }
}

/// Stand-in for the standard precompile set (its members are cryptography, outside every claim).
pub fn no_precompiles() -> &'static revm::precompile::Precompiles {
    Box::leak(Box::new(revm::precompile::Precompiles::default()))
}

pub const A: Address = Address::new([0xa1; 20]);
pub const B: Address = Address::new([0xb2; 20]);
pub const C: Address = Address::new([0xc3; 20]);

/// Stand-ins for the reference counters of `Arc`: memory is never reclaimed (the symbolic heap is
/// unbounded), so counts need not be kept. `Arc::get_mut`/`try_unwrap` are not used by the code.
pub unsafe fn count_up<T: Copy, U: Copy>(_dst: *mut T, _val: U, _order: core::sync::atomic::Ordering) -> T {
    unsafe { core::mem::transmute_copy(&1usize) }
}
pub unsafe fn count_down<T: Copy, U: Copy>(_dst: *mut T, _val: U, _order: core::sync::atomic::Ordering) -> T {
    unsafe { core::mem::transmute_copy(&2usize) }
}

/// Stand-in for the hash: depends on every byte and its position.
pub fn cheap_hash<T: AsRef<[u8]>>(bytes: T) -> B256 {
    let b = bytes.as_ref();
    let mut h: u32 = b.len() as u32;
    let mut i = 0;
    while i < b.len() {
        h = h.rotate_left(1) ^ b[i] as u32;
        i += 1;
    }
    let mut out = [0u8; 32];
    out[28] = (h >> 24) as u8;
    out[29] = (h >> 16) as u8;
    out[30] = (h >> 8) as u8;
    out[31] = h as u8;
    B256::new(out)
}
