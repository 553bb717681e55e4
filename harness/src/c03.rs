//@ bounds: every assignment of activation conditions (timestamp, block, never) to the eight forks, every timestamp and block number, every limit value
//! C03: which rules a block runs under.
use crate::{
    common::*,
    sym::{any, assume},
    witness,
};
use alloy_hardforks::{EthereumHardfork, EthereumHardforks, ForkCondition};
use alloy_op_hardforks::{OpHardfork, OpHardforks};
use mega_evm::{alloy_hardforks, alloy_op_hardforks, revm};

const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];
const FORK_SPEC: [MegaSpecId; 8] = [
    MegaSpecId::MINI_REX,
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];

fn index(f: MegaHardfork) -> usize {
    match f {
        MegaHardfork::MiniRex => 0,
        MegaHardfork::MiniRex1 => 1,
        MegaHardfork::MiniRex2 => 2,
        MegaHardfork::Rex => 3,
        MegaHardfork::Rex1 => 4,
        MegaHardfork::Rex2 => 5,
        MegaHardfork::Rex3 => 6,
        MegaHardfork::Rex4 => 7,
        #[allow(unreachable_patterns)]
        _ => panic!("MODEL-UNSUPPORTED"),
    }
}

#[derive(Debug, Clone)]
struct Chain([ForkCondition; 8]);
impl EthereumHardforks for Chain {
    fn ethereum_fork_activation(&self, _: EthereumHardfork) -> ForkCondition {
        ForkCondition::Timestamp(0)
    }
}
impl OpHardforks for Chain {
    fn op_fork_activation(&self, _: OpHardfork) -> ForkCondition {
        ForkCondition::Timestamp(0)
    }
}
impl MegaHardforks for Chain {
    fn mega_fork_activation(&self, f: MegaHardfork) -> ForkCondition {
        self.0[index(f)]
    }
}

fn condition() -> ForkCondition {
    let k: u8 = any();
    let t: u64 = any();
    match k {
        0 => ForkCondition::Never,
        1 => ForkCondition::Block(t),
        _ => ForkCondition::Timestamp(t),
    }
}

fn chain() -> Chain {
    Chain([condition(), condition(), condition(), condition(), condition(), condition(), condition(), condition()])
}

fn active(c: &ForkCondition, ts: u64) -> bool {
    matches!(c, ForkCondition::Timestamp(t) if *t <= ts)
}

//@ case unwind=10
pub fn newest_active_fork_decides() {
    let c = chain();
    let ts: u64 = any();
    let mut newest = None;
    let mut i = 0;
    while i < 8 {
        if active(&c.0[i], ts) {
            newest = Some(i);
        }
        i += 1;
    }
    let f = c.hardfork(ts);
    let s = c.spec_id(ts);
    match newest {
        None => {
            assert!(f.is_none(), "C03: a fork without an active fork");
            assert!(s == MegaSpecId::EQUIVALENCE, "C03: before the first fork");
        }
        Some(i) => {
            assert!(f.is_some() && index(f.unwrap()) == i, "C03: the newest active fork decides");
            assert!(s == FORK_SPEC[i], "C03: specification of the newest active fork");
            assert!(FORKS[i].spec_id() == s, "C03: fork and chain disagree on the specification");
        }
    }
    witness!(newest == Some(1), "MiniRex1 rolls back to equivalence");
    witness!(newest == Some(7), "Rex4");
}

//@ case unwind=10
pub fn activation_predicates() {
    let c = chain();
    let ts: u64 = any();
    let got = [
        c.is_mini_rex_active_at_timestamp(ts),
        c.is_mini_rex_1_active_at_timestamp(ts),
        c.is_mini_rex_2_active_at_timestamp(ts),
        c.is_rex_active_at_timestamp(ts),
        c.is_rex_1_active_at_timestamp(ts),
        c.is_rex_2_active_at_timestamp(ts),
        c.is_rex_3_active_at_timestamp(ts),
        c.is_rex_4_active_at_timestamp(ts),
    ];
    let mut i = 0;
    while i < 8 {
        assert!(got[i] == active(&c.0[i], ts), "C03: fork activation predicate");
        i += 1;
    }
    // the first block of a fork
    let f: u8 = any();
    assume(f < 8);
    let (parent, number): (u64, u64) = (any(), any());
    let first = c.first_hardfork_block(FORKS[f as usize], parent, (number, ts));
    let now = active(&c.0[f as usize], ts);
    let before = active(&c.0[f as usize], parent);
    assert!(first == (now && (number == 1 || !before)), "C03: first block of a fork");
    witness!(first && number > 1, "first block");
}

/// The configuration type answers with what was configured last.
//@ case unwind=40 timeout=800
pub fn configuration_is_remembered() {
    let (c0, c1, c2) = (condition(), condition(), condition());
    let none: [(MegaHardfork, ForkCondition); 0] = [];
    let mut cfg = MegaHardforkConfig::from(none.into_iter());
    cfg.insert(MegaHardfork::Rex, c0);
    cfg.insert(MegaHardfork::Rex1, c1);
    assert!(cfg.mega_fork_activation(MegaHardfork::Rex) == c0, "C03: configured condition");
    cfg.insert(MegaHardfork::Rex, c2);
    assert!(cfg.mega_fork_activation(MegaHardfork::Rex) == c2, "C03: condition configured last");
    assert!(cfg.mega_fork_activation(MegaHardfork::Rex1) == c1, "C03: other condition kept");
    assert!(cfg.mega_fork_activation(MegaHardfork::MiniRex) == ForkCondition::Never, "C03: absent fork");
    let cfg = cfg.without(MegaHardfork::Rex);
    assert!(cfg.mega_fork_activation(MegaHardfork::Rex) == ForkCondition::Never, "C03: removed fork");
    assert!(cfg.mega_fork_activation(MegaHardfork::Rex1) == c1, "C03: kept after removal");
    witness!(c1 != ForkCondition::Never, "kept");
    core::mem::forget(cfg);
}

/// Documented per-transaction limits of each specification.
fn tx_limits(s: MegaSpecId) -> EvmTxRuntimeLimits {
    let no = u64::MAX;
    let (data, kv, compute, growth, env, oracle) = match s {
        MegaSpecId::EQUIVALENCE => (no, no, no, no, no, no),
        MegaSpecId::MINI_REX => (3_276_800, 125_000, 1_000_000_000, no, 20_000_000, 1_000_000),
        MegaSpecId::REX | MegaSpecId::REX1 | MegaSpecId::REX2 => {
            (13_107_200, 500_000, 200_000_000, 1_000, 20_000_000, 1_000_000)
        }
        _ => (13_107_200, 500_000, 200_000_000, 1_000, 20_000_000, 20_000_000),
    };
    EvmTxRuntimeLimits {
        tx_data_size_limit: data,
        tx_kv_updates_limit: kv,
        tx_compute_gas_limit: compute,
        tx_state_growth_limit: growth,
        block_env_access_compute_gas_limit: env,
        oracle_access_compute_gas_limit: oracle,
    }
}

//@ case unwind=10
pub fn limits_follow_the_specification() {
    let s = spec();
    assert!(EvmTxRuntimeLimits::from_spec(s) == tx_limits(s), "C03: transaction limits of a specification");
    let f: u8 = any();
    assume(f < 8);
    let gas: u64 = any();
    let b = BlockLimits::from_hardfork_and_block_gas_limit(FORKS[f as usize], gas);
    let s = FORK_SPEC[f as usize];
    assert!(b.to_evm_tx_runtime_limits() == tx_limits(s), "C03: transaction limits of a fork");
    let no = u64::MAX;
    let (data, kv, growth) = match s {
        MegaSpecId::EQUIVALENCE => (no, no, no),
        MegaSpecId::MINI_REX => (13_107_200, 500_000, no),
        _ => (13_107_200, 500_000, 1_000),
    };
    assert!(
        b.block_gas_limit == gas &&
            b.block_txs_data_limit == data &&
            b.block_kv_update_limit == kv &&
            b.block_state_growth_limit == growth &&
            b.block_compute_gas_limit == no &&
            b.tx_gas_limit == no &&
            b.tx_encode_size_limit == no &&
            b.block_txs_encode_size_limit == no &&
            b.tx_da_size_limit == no &&
            b.block_da_size_limit == no,
        "C03: block limits of a fork"
    );
    witness!(f == 7, "Rex4");
}

//@ case unwind=10
pub fn limits_survive_conversion() {
    let l = EvmTxRuntimeLimits {
        tx_data_size_limit: any(),
        tx_kv_updates_limit: any(),
        tx_compute_gas_limit: any(),
        tx_state_growth_limit: any(),
        block_env_access_compute_gas_limit: any(),
        oracle_access_compute_gas_limit: any(),
    };
    let (g, bg): (u64, u64) = (any(), any());
    let b = BlockLimits::no_limits().with_tx_gas_limit(g).with_block_gas_limit(bg).with_tx_runtime_limits(l);
    assert!(b.to_evm_tx_runtime_limits() == l, "C03: runtime limits round trip");
    assert!(b.tx_gas_limit == g && b.block_gas_limit == bg, "C03: other limits are kept");
    assert!(
        b.block_txs_data_limit == u64::MAX && b.block_kv_update_limit == u64::MAX && b.block_compute_gas_limit == u64::MAX && b.block_state_growth_limit == u64::MAX,
        "C03: block limits are not touched by transaction limits"
    );
    // each setter sets its own limit and nothing else
    let v: u64 = any();
    let w: u8 = any();
    assume(w < 16);
    let mut want = b;
    let got = match w {
        0 => { want.tx_gas_limit = v; b.with_tx_gas_limit(v) }
        1 => { want.block_gas_limit = v; b.with_block_gas_limit(v) }
        2 => { want.tx_encode_size_limit = v; b.with_tx_encode_size_limit(v) }
        3 => { want.block_txs_encode_size_limit = v; b.with_block_txs_encode_size_limit(v) }
        4 => { want.tx_da_size_limit = v; b.with_tx_da_size_limit(v) }
        5 => { want.block_da_size_limit = v; b.with_block_da_size_limit(v) }
        6 => { want.tx_data_limit = v; b.with_tx_data_limit(v) }
        7 => { want.block_txs_data_limit = v; b.with_block_txs_data_limit(v) }
        8 => { want.tx_kv_update_limit = v; b.with_tx_kv_update_limit(v) }
        9 => { want.block_kv_update_limit = v; b.with_block_kv_update_limit(v) }
        10 => { want.tx_compute_gas_limit = v; b.with_tx_compute_gas_limit(v) }
        11 => { want.block_compute_gas_limit = v; b.with_block_compute_gas_limit(v) }
        12 => { want.tx_state_growth_limit = v; b.with_tx_state_growth_limit(v) }
        13 => { want.block_state_growth_limit = v; b.with_block_state_growth_limit(v) }
        14 => { want.block_env_access_compute_gas_limit = v; b.with_block_env_access_compute_gas_limit(v) }
        _ => { want.oracle_access_compute_gas_limit = v; b.with_oracle_access_compute_gas_limit(v) }
    };
    assert!(got == want, "C03: a limit setter");
    let mut want = l;
    let got = match w {
        0 => { want.tx_data_size_limit = v; l.with_tx_data_size_limit(v) }
        1 => { want.tx_kv_updates_limit = v; l.with_tx_kv_updates_limit(v) }
        2 => { want.tx_compute_gas_limit = v; l.with_tx_compute_gas_limit(v) }
        3 => { want.tx_state_growth_limit = v; l.with_tx_state_growth_limit(v) }
        4 => { want.block_env_access_compute_gas_limit = v; l.with_block_env_access_compute_gas_limit(v) }
        _ => { want.oracle_access_compute_gas_limit = v; l.with_oracle_access_compute_gas_limit(v) }
    };
    assert!(got == want, "C03: a runtime limit setter");
    witness!(w == 9, "kv");
}

/// Every specification runs on Prague/Isthmus rules, and enabling is by age.
//@ case unwind=40
pub fn specifications_are_ordered() {
    let (a, b): (u8, u8) = (any(), any());
    assume(a < 7 && b < 7);
    let (x, y) = (SPECS[a as usize], SPECS[b as usize]);
    assert!(x.is_enabled(y) == (a >= b), "C03: a specification enables itself and all older ones");
    assert!(x.into_op_spec() == op_revm::OpSpecId::ISTHMUS, "C03: base rules");
    assert!(x.into_eth_spec() == revm::primitives::hardfork::SpecId::PRAGUE, "C03: base rules");
    witness!(a > b, "newer");
}

/// Names and specifications correspond.
//@ case unwind=40
pub fn specification_names() {
    const NAMES: [&str; 7] = ["Equivalence", "MiniRex", "Rex", "Rex1", "Rex2", "Rex3", "Rex4"];
    let a: u8 = any();
    assume(a < 7);
    let mut i = 0;
    while i < 7 {
        let n: &'static str = SPECS[i].into();
        assert!(n == NAMES[i], "C03: specification name");
        assert!(NAMES[i].parse::<MegaSpecId>().ok() == Some(SPECS[i]), "C03: name parses to its specification");
        i += 1;
    }
    witness!(a == 6, "all");
}
