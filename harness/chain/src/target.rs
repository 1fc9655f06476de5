use chainstate_types::{BlockIndex, BlockStatus, GenBlockIndex};
use common::chain::block::consensus_data::{PoSData, PoWData};
use common::chain::block::timestamp::BlockTimestamp;
use common::chain::block::{BlockReward, ConsensusData};
use common::chain::config::{Builder, ChainType};
use common::chain::*;
use common::primitives::per_thousand::PerThousand;
use common::primitives::{BlockCount, BlockHeight, Compact, Id, H256};
use common::{Uint256, Uint512};
use crypto::vrf::VRFReturn;
use serialization::Decode;
use std::time::Duration;

pub fn index(height: u64, time: u64, data: ConsensusData) -> BlockIndex {
    let prev: Id<GenBlock> = Id::new(H256([1; 32]));
    let t = BlockTimestamp::from_int_seconds(time);
    let b = Block::new(vec![], prev, t, data, BlockReward::new(vec![])).unwrap();
    let i = BlockIndex::new(&b, Uint256::ONE, prev, BlockHeight::new(height), t, 0, BlockStatus::new());
    i
}

fn pos_data(target: Compact) -> ConsensusData {
    let mut v = [0u8; 97];
    v[0] = 0;
    let vrf = VRFReturn::decode(&mut &v[..]).unwrap();
    ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256([3; 32])), vrf, target)))
}

const SPACING: u64 = 120;

/// the compact target every rule below leads to
fn clamp_target(prev: Uint256, avg: u64, limit: Uint256, change: u16) -> Compact {
    let p: Uint512 = prev.into();
    let n = |v: u64| Uint512::from_u64(v);
    let scaled = ((p * n(avg.max(1))).unwrap() / n(SPACING)).unwrap();
    let step = ((p * n(change as u64)).unwrap() / n(1000)).unwrap();
    let (lo, hi) = ((p - step).unwrap(), (p + step).unwrap());
    let t = if scaled < lo { lo } else if scaled > hi { hi } else { scaled };
    let t = Uint256::try_from(t).ok().filter(|t| *t < limit).unwrap_or(limit);
    Compact::from(t)
}

struct Case {
    count: usize,
    change: u16,
    target: Compact,
    height: u64,
    t0: u64,
    dt: u64,
}

fn retarget(c: Case) {
    sym::model_div(true);
    let limit = Uint256([u64::MAX, u64::MAX, u64::MAX, u64::MAX / 120]);
    let config = PoSChainConfig::new(limit, BlockCount::new(5), c.count, PerThousand::new(c.change).unwrap(), PoSConsensusVersion::V1);
    let up = ConsensusUpgrade::PoS { initial_difficulty: None, config: config.clone() };
    let cfg = Builder::new(ChainType::Regtest)
        .consensus_upgrades(NetUpgrades::initialize(vec![(BlockHeight::zero(), up)]).unwrap())
        .target_block_spacing(Duration::from_secs(SPACING))
        .build();
    sym::merge(false);
    let prev = index(c.height, c.t0 + c.dt, pos_data(c.target));
    // the block to average from is count - 1 blocks back, or the first one
    let back = c.count as u64 - 1;
    let (from, dist) = if c.height > back {
        sym::cover("many");
        (c.height - back, back)
    } else {
        sym::cover("few");
        (0, c.height)
    };
    let asked = std::cell::Cell::new(false);
    let got = consensus::calculate_target_required_from_block_index(
        &cfg,
        &PoSStatus::Ongoing(config),
        &GenBlockIndex::Block(prev),
        |i, h| {
            sym::check(i.block_height().into_int() == c.height, "history is walked from the previous block");
            sym::check(h.into_int() == from, "the average starts the configured number of blocks back");
            asked.set(true);
            Ok(GenBlockIndex::Block(index(from, c.t0, pos_data(c.target))))
        },
    );
    sym::check(asked.get(), "the average needs the block it starts from");
    let target = Uint256::try_from(c.target).unwrap();
    let avg = c.dt / dist;
    sym::cover(if avg > SPACING { "slow" } else { "fast" });
    match got {
        Ok(r) => sym::check(r == clamp_target(target, avg, limit, c.change), "the target is the previous one scaled by the block time within its limits"),
        Err(_) => sym::fail("a target can always be calculated"),
    }
}

const TARGETS: [u32; 4] = [0x03_000001, 0x03_7fffff, 0x04_123456, 0x06_00ffff];
const CHANGES: [u16; 4] = [0, 1, 20, 1000];

//@ prop=G02
//@ time=60
//@ covers=slow|fast
//@ bounds=five previous targets from the smallest to the limit, the last two blocks any 24-bit time apart, change limits of 0, 0.1, 2 and 100 %
//@ assumes=arithmetic of 512-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pos_retarget_time() {
    sym::merge(false);
    retarget(Case {
        count: 2,
        change: CHANGES[sym::choose("change", 4) as usize],
        target: Compact(TARGETS[sym::choose("target", 4) as usize]),
        height: 9,
        t0: 1_700_000_000,
        dt: sym::range("time", 0, (1 << 24) - 1),
    })
}

//@ prop=G02
//@ time=60
//@ covers=slow|fast
//@ bounds=previous targets of any 23-bit mantissa at two exponents, the last two blocks 0, 119, 121 or 100000 seconds apart, change limits of 2 and 100 %
//@ assumes=arithmetic of 512-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pos_retarget_target() {
    let size = [3u32, 6][sym::choose("exponent", 2)];
    let m = sym::u16("mantissa") as u32 | (sym::u8("mantissa top") as u32 & 0x7f) << 16;
    retarget(Case {
        count: 2,
        change: [20, 1000][sym::choose("change", 2)],
        target: Compact(size << 24 | m),
        height: 9,
        t0: 1_700_000_000,
        dt: [0, 119, 121, 100_000][sym::choose("time", 4)],
    })
}

//@ prop=G02
//@ time=60
//@ covers=many|few|slow|fast
//@ bounds=averages over 2 to 9 blocks, a previous block at height 1 to 10, any 12-bit time passed, any 32-bit start, one previous target
//@ assumes=arithmetic of 512-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pos_retarget_average() {
    retarget(Case {
        count: sym::concretize(sym::range("average over", 2, 9)) as usize,
        change: 20,
        target: Compact(0x03_00ffff),
        height: sym::concretize(sym::range("height", 1, 10)),
        t0: sym::u32("start time") as u64,
        dt: sym::range("time", 0, (1 << 12) - 1),
    })
}

//@ prop=G02
//@ time=60
//@ covers=limited|below
//@ bounds=30 previous targets around the limit, a slow or a fast last block, change limit 2 %
//@ assumes=arithmetic of 512-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pos_retarget_limit() {
    let size = 28 + sym::choose("exponent", 5) as u32;
    // in steps, as bits of large numbers
    let m = [1u32, 0xff, 0x8000, 0x012345, 0x022222, 0x7fffff][sym::choose("mantissa", 6)];
    let target = Compact(size << 24 | m);
    let limit = Uint256([u64::MAX, u64::MAX, u64::MAX, u64::MAX / 120]);
    sym::cover(if Uint256::try_from(target).unwrap() >= limit { "limited" } else { "below" });
    retarget(Case {
        count: 2,
        change: 20,
        target,
        height: 9,
        t0: 1_700_000_000,
        dt: [0, 119, 121, 1 << 40][sym::choose("time", 4)],
    })
}

//@ prop=G02
//@ time=30
//@ covers=at|after|ongoing|genesis
//@ bounds=an upgrade to staking at any 32-bit height with or without an initial difficulty
#[no_mangle]
pub extern "C" fn h_pos_initial() {
    let limit = Uint256([u64::MAX, u64::MAX, u64::MAX, u64::MAX / 120]);
    let config = PoSChainConfig::new(limit, BlockCount::new(5), 2, PerThousand::new(20).unwrap(), PoSConsensusVersion::V1);
    let first = Compact(sym::u32("initial difficulty"));
    let initial_difficulty = sym::flag("has initial").then_some(first);
    let at = 1 + sym::u32("upgrade height") as u64;
    let up = ConsensusUpgrade::PoS { initial_difficulty, config: config.clone() };
    let cfg = Builder::new(ChainType::Regtest)
        .consensus_upgrades(NetUpgrades::initialize(vec![(BlockHeight::zero(), ConsensusUpgrade::IgnoreConsensus), (BlockHeight::new(at), up)]).unwrap())
        .target_block_spacing(Duration::from_secs(SPACING))
        .build();
    let status = |h: u64| match cfg.consensus_upgrades().consensus_status(BlockHeight::new(h)) {
        RequiredConsensus::PoS(s) => Some(s),
        _ => None,
    };
    let never = |_: &BlockIndex, _: BlockHeight| panic!("the history is not needed");
    let own = Compact(0x03_123456);
    let run = |h: u64| {
        let prev = index(h - 1, 1000, pos_data(own));
        let steady = |_: &BlockIndex, h: BlockHeight| Ok(GenBlockIndex::Block(index(h.into_int(), 1000 - SPACING, pos_data(own))));
        consensus::calculate_target_required_from_block_index(&cfg, &status(h).unwrap(), &GenBlockIndex::Block(prev), steady).ok()
    };
    sym::check(status(at - 1).is_none(), "the upgrade does not apply before its height");
    if initial_difficulty.is_some() {
        sym::cover("at");
        sym::check(run(at) == Some(first), "the first block after an upgrade uses the initial difficulty");
        sym::cover("after");
        sym::check(run(at + 1) == Some(first), "the second block uses the initial difficulty again");
    } else {
        sym::cover("ongoing");
        sym::check(run(at + 1) == Some(own), "without an initial difficulty the target follows the previous block");
    }
    sym::check(run(at + 2) == Some(own), "later blocks follow the previous block");
    let g = GenBlockIndex::Genesis(std::sync::Arc::clone(cfg.genesis_block()));
    let ongoing = PoSStatus::Ongoing(config);
    sym::cover("genesis");
    let t = consensus::calculate_target_required_from_block_index(&cfg, &ongoing, &g, never).ok();
    sym::check(t == Some(Compact::from(limit)), "the block after genesis uses the limit");
}
