use crate::target::index;
use chainstate_types::{BlockIndex, GenBlockIndex};
use common::chain::block::consensus_data::PoWData;
use common::chain::block::timestamp::BlockTimestamp;
use common::chain::block::ConsensusData;
use common::chain::config::{Builder, ChainType};
use common::chain::*;
use common::primitives::{Amount, BlockHeight, Compact, H256};
use common::{Uint256, Uint512};

fn pow_data(bits: Compact) -> ConsensusData {
    ConsensusData::PoW(Box::new(PoWData::new(bits, 5)))
}

fn config(t: ChainType, first: Compact) -> ChainConfig {
    let up = ConsensusUpgrade::PoW { initial_difficulty: first };
    Builder::new(t).consensus_upgrades(NetUpgrades::initialize(vec![(BlockHeight::zero(), up)]).unwrap())
        .checkpoints(Default::default())
        .genesis_unittest(Destination::AnyoneCanSpend)
        .build()
}

const FORTNIGHT: u64 = 14 * 24 * 60 * 60;
const EASIEST: Compact = Compact(0x1d_00ffff);

//@ prop=G03
//@ time=60
//@ covers=kept|eased|regtest
//@ bounds=blocks at any 32-bit height that is no multiple of 2016, any 64-bit mantissa bits, any 32-bit times; main, test, signet and regression networks
#[no_mangle]
pub extern "C" fn h_pow_between() {
    let net = sym::choose("network", 4);
    let cfg = config([ChainType::Mainnet, ChainType::Signet, ChainType::Testnet, ChainType::Regtest][net], EASIEST);
    let height = 1 + sym::u32("height") as u64;
    sym::assume((height + 1) % 2016 != 0 || net == 3);
    let bits = Compact(sym::u32("bits"));
    let (t, now) = (sym::u32("previous time") as u64, sym::u32("time") as u64);
    let prev = GenBlockIndex::Block(index(height, t, pow_data(bits)));
    let none = |_: &BlockIndex, _: BlockHeight| panic!("the history is not needed");
    let now_t = BlockTimestamp::from_int_seconds(now);
    let got = consensus::calculate_work_required(&cfg, &prev, now_t, &PoWStatus::Ongoing, none).ok();
    if net == 2 && now > t + 20 * 60 {
        sym::cover("eased");
        sym::check(got == Some(EASIEST), "a test network allows the easiest block after twenty minutes without one");
    } else {
        sym::cover(if net == 3 { "regtest" } else { "kept" });
        sym::check(got == Some(bits), "the difficulty is kept between adjustments");
    }
    let at = consensus::calculate_work_required(&cfg, &prev, now_t, &PoWStatus::Threshold { initial_difficulty: Compact(77) }, none).ok();
    sym::check(at == Some(Compact(77)), "the first block of the upgrade uses the initial difficulty");
    let g = GenBlockIndex::Genesis(std::sync::Arc::clone(cfg.genesis_block()));
    let first = consensus::calculate_work_required(&cfg, &g, now_t, &PoWStatus::Ongoing, none).ok();
    sym::check(first == Some(EASIEST), "the block after genesis is the easiest");
}

fn adjust(bits: Compact, span: u64, height: u64, t0: u64) {
    sym::model_div(true);
    sym::merge(false);
    let cfg = config(ChainType::Mainnet, EASIEST);
    let prev = GenBlockIndex::Block(index(height, t0 + span, pow_data(bits)));
    let first = |i: &BlockIndex, h: BlockHeight| {
        sym::check(i.block_height().into_int() == height, "history is walked from the previous block");
        sym::check(h.into_int() == height - 2015, "the interval starts 2015 blocks back");
        Ok(GenBlockIndex::Block(index(h.into_int(), t0, pow_data(bits))))
    };
    let got = consensus::calculate_work_required(&cfg, &prev, BlockTimestamp::from_int_seconds(9), &PoWStatus::Ongoing, first).ok();
    let limit = Uint256::try_from(EASIEST).unwrap();
    let (least, most) = (FORTNIGHT / 4, FORTNIGHT * 4);
    sym::cover(if span < least { "much faster" } else if span > most { "much slower" } else { "between" });
    let s = span.max(least).min(most);
    let old = Uint256::try_from(bits).unwrap();
    // an overflow counts as the largest number
    let scaled = (old * Uint256::from_u64(s)).unwrap_or(Uint256::MAX);
    let t = (scaled / Uint256::from_u64(FORTNIGHT)).unwrap();
    let t = if t > limit {
        sym::cover("limit");
        limit
    } else {
        t
    };
    sym::check(got == Some(Compact::from(t)), "the target is scaled by the time the interval took, within a factor of four and the limit");
}

//@ prop=G03
//@ time=60
//@ covers=much faster|much slower|between|limit
//@ bounds=intervals of any 32-bit length with three previous targets, and seven lengths next to the limit
//@ assumes=arithmetic of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pow_adjust_time() {
    let b = [0x03_000001, 0x03_7fffff, 0x05_123456, 0x1c_7fffff][sym::choose("bits", 4)];
    if b == 0x1c_7fffff {
        let t = [0, 302_399, 302_400, 1_209_600, 4_838_400, 4_838_401, 1 << 40][sym::choose("length", 7)];
        adjust(Compact(b), t, 2016 * 3 - 1, 1_700_000_000)
    } else {
        let t = match sym::choose("pace", 3) {
            0 => sym::range("fast", 0, FORTNIGHT / 4 - 1),
            1 => sym::range("even", FORTNIGHT / 4, FORTNIGHT * 4 - 1),
            _ => FORTNIGHT * 4 + sym::u32("slow") as u64,
        };
        adjust(Compact(b), t, 2016 * 3 - 1, 1_700_000_000)
    }
}

//@ prop=G03
//@ time=60
//@ covers=much faster|much slower|between|limit
//@ bounds=previous targets of any 23-bit mantissa, seven interval lengths
//@ assumes=arithmetic of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_pow_adjust_target() {
    let t = [0, 1_209_600 - 1, 1_209_601, 4_838_400, 1 << 40][sym::choose("length", 5)];
    let size = [3u32, 5, 29][sym::choose("exponent", 3)];
    let m = if size == 29 {
        [0x10000, 0x3fff, 0x4000, 0xffff][sym::choose("mantissa", 4)]
    } else {
        sym::u16("mantissa") as u32 | (sym::u8("mantissa top") as u32 & 0x7f) << 16
    };
    adjust(Compact(size << 24 | m), t, 2016 * 3 - 1, 1_700_000_000)
}

//@ prop=G03
//@ time=30
//@ covers=found|not found|invalid
//@ bounds=every 256-bit hash and every compact target
#[no_mangle]
pub extern "C" fn h_pow_hash() {
    let hash = H256(sym::bytes::<32>("hash"));
    let e = [2u32, 3, 4, 20, 32, 33, 35][sym::choose("exponent", 7)];
    let m = sym::u32("mantissa");
    sym::assume(m < 1 << 24);
    let bits = Compact(e << 24 | m);
    match (consensus::check_proof_of_work(hash, bits), Uint256::try_from(bits)) {
        (Ok(ok), Ok(target)) => {
            sym::cover(if ok { "found" } else { "not found" });
            // from the most significant byte down
            let (mut less, mut same) = (false, true);
            let t = target.to_bytes();
            for i in (0..32).rev() {
                less = less | (same & (hash.0[i] < t[i]));
                same = same & (hash.0[i] == t[i]);
            }
            sym::check(ok == (less | same), "a block is found when its hash is not above the target");
        }
        (Err(_), Err(_)) => sym::cover("invalid"),
        _ => sym::fail("a hash is judged exactly when the target is valid"),
    }
}

fn check_kernel(hash: Uint256, target: Uint256, eff: u128, got: bool) {
    let w: Uint512 = target.into();
    let limit = (w * Uint512::from_u128(eff)).unwrap();
    let h: Uint512 = hash.into();
    sym::cover(if got { "wins" } else { "loses" });
    sym::check(got == (h <= limit), "a kernel wins when its hash is at most the target times the effective balance");
}

fn words(name: [&'static str; 4]) -> Uint256 {
    Uint256([sym::u64(name[0]), sym::u64(name[1]), sym::u64(name[2]), sym::u64(name[3])])
}

const SUPPLY: u128 = 599_990_800 * 100_000_000_000;

//@ prop=G04
//@ time=60
//@ covers=wins|loses|v0|v1
//@ bounds=every 256-bit hash and target with the pledges and balances listed, both protocol versions
//@ assumes=arithmetic of wide integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_kernel() {
    sym::model_div(true);
    sym::merge(false);
    let hash = words(["h0", "h1", "h2", "h3"]);
    let target = words(["t0", "t1", "t2", "t3"]);
    let (pledge, balance) = [(0u128, 0u128), (1, 1), (40_000, 50_000), (599_990, 599_991), (1, 200_000_000)][sym::choose("balance", 5)];
    let (p, b) = (pledge * 100_000_000_000, balance * 100_000_000_000);
    let am = Amount::from_atoms;
    let v = sym::flag("v1");
    let ver = if v { PoSConsensusVersion::V1 } else { PoSConsensusVersion::V0 };
    let got = consensus::check_pos_hash(ver, &hash, &target, am(p), am(b), am(SUPPLY)).is_ok();
    let eff = if v { effective(p, b, SUPPLY) } else { b };
    sym::cover(if v { "v1" } else { "v0" });
    check_kernel(hash, target, eff, got)
}

/// sigma - a/(a+1) * (sigma z^2 - s (z sigma - s (z - sigma))) / z^2 with z = supply/1000, rounded down once per division
fn effective(pledge: u128, balance: u128, supply: u128) -> u128 {
    let z = supply / 1000;
    let (s, g) = (pledge.min(z), balance.min(z));
    let w = |v: u128| Uint512::from_u128(v);
    let m = |a: Uint512, b: Uint512| (a * b).unwrap();
    let inner = (m(w(z), w(g)) - m(w(s), w(z - g))).unwrap();
    let t = (m(m(w(z), w(z)), w(g)) - m(w(s), inner)).unwrap();
    let t = m(t, w(75_375_728));
    let adj = ((t / w(1_075_375_728)).unwrap() / m(w(z), w(z))).unwrap();
    g - (adj.low_u64() as u128 | ((adj >> 64).low_u64() as u128) << 64)
}

//@ prop=G04
//@ time=60
//@ covers=saturated|unsaturated|refused|full
//@ enum=64
//@ bounds=pledges of 4 bits and balances of 5 bits, in units of 1, 2^36 and 2^70 atoms, saturation at 13 such units (the solver enumerates these values, the arithmetic of each is concrete)
//@ assumes=arithmetic of wide integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_effective_balance() {
    sym::model_div(true);
    sym::merge(false);
    let unit = [0u32, 36, 70][sym::choose("unit", 3)];
    let p = sym::concretize(sym::range("pledge", 0, 15)) as u128;
    let b = sym::concretize(sym::range("balance", 0, 31)) as u128;
    let z = 13u128;
    sym::cover(if b > z { "saturated" } else { "unsaturated" });
    let am = |v: u128| Amount::from_atoms(v << unit);
    let got = consensus::calculate_effective_pool_balance(am(p), am(b), am(z * 1000)).ok().map(|v| v.into_atoms());
    sym::check(got.is_some() == (p <= b && b < z * 1000), "an effective balance exists exactly when the pledge is part of a balance below the supply");
    let Some(e) = got else {
        sym::cover("refused");
        return;
    };
    if p >= z {
        sym::cover("full");
        sym::check(e == z << unit, "a saturated pool fully pledged counts with its whole share");
        return;
    }
    sym::check(e == effective(p << unit, b << unit, (z * 1000) << unit), "the effective balance is the documented function of pledge and balance");
}

//@ prop=G04
//@ time=20
//@ covers=
//@ bounds=balances of 128 bits without a supply
#[no_mangle]
pub extern "C" fn h_effective_no_supply() {
    let (p, b) = (sym::u128("pledge"), sym::u128("balance"));
    let am = Amount::from_atoms;
    sym::check(consensus::calculate_effective_pool_balance(am(p), am(b), Amount::ZERO).is_err(), "there is no balance without a supply");
}
