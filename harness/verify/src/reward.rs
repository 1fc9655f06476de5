use common::chain::{Block, DelegationId, Destination, PoolId, RewardDistributionVersion as Version};
use common::primitives::{per_thousand::PerThousand, Amount, Id, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use pos_accounting::{
    DefaultStorageTag, DelegationData, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingOperations,
    PoSAccountingUndo, PoSAccountingView, PoolData,
};
use std::collections::BTreeMap;
use tx_verifier::transaction_verifier::distribute_pos_reward;

type Db = PoSAccountingDB<InMemoryPoSAccounting, DefaultStorageTag>;

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}
fn h(k: u8) -> H256 {
    H256([k; 32])
}
fn pool(k: u8) -> PoolId {
    PoolId::new(h(k))
}
fn del(k: u8) -> DelegationId {
    DelegationId::new(h(k))
}

struct Pool {
    vrf: VRFPublicKey,
    pledge: u128,
    rewards: u128,
    /// delegations 1 and 2, each there or not
    shares: [Option<u128>; 2],
    cost: u128,
    margin: u16,
}

/// (a key costs a second to make, so it is made before any choice)
fn key() -> VRFPublicKey {
    VRFPrivateKey::new_using_random_bytes(&[3; 32], VRFKeyKind::Schnorrkel).unwrap().1
}

fn db(p: &Pool) -> Db {
    let vrf = &p.vrf;
    let any = Destination::AnyoneCanSpend;
    let data = |pledge, rewards| {
        PoolData::new(any.clone(), am(pledge), am(rewards), vrf.clone(), PerThousand::new(p.margin).unwrap(), am(p.cost))
    };
    let there = |k: u8| p.shares[k as usize].map(|v| (k + 1, v));
    let ds: Vec<_> = (0..2).filter_map(there).collect();
    let total = p.pledge + p.rewards + ds.iter().map(|d| d.1).sum::<u128>();
    // another pool with a delegation of its own, that must not change
    Db::new(InMemoryPoSAccounting::from_values(
        BTreeMap::from([(pool(1), data(p.pledge, p.rewards)), (pool(2), data(50, 6))]),
        BTreeMap::from([(pool(1), am(total)), (pool(2), am(66))]),
        ds.iter().map(|(k, v)| ((pool(1), del(*k)), am(*v))).chain([((pool(2), del(9)), am(10))]).collect(),
        ds.iter().map(|(k, v)| (del(*k), am(*v))).chain([(del(9), am(10))]).collect(),
        ds.iter().map(|(k, _)| (del(*k), DelegationData::new(pool(1), any.clone()))).chain([(del(9), DelegationData::new(pool(2), any.clone()))]).collect(),
    ))
}

/// pool balance, staker rewards, delegation balances and shares
type Books = (u128, u128, [u128; 2], [u128; 2], [u128; 4]);

fn atoms(v: Amount) -> u128 {
    v.into_atoms()
}

fn books<V: PoSAccountingView>(v: &V) -> Books {
    let b = |k| atoms(v.get_delegation_balance(del(k)).ok().unwrap());
    let s = |p, k| atoms(v.get_pool_delegation_share(pool(p), del(k)).ok().unwrap());
    let r = |p| atoms(v.get_pool_data(pool(p)).ok().flatten().unwrap().staker_rewards());
    let t = |p| atoms(v.get_pool_balance(pool(p)).ok().unwrap());
    (t(1), r(1), [b(1), b(2)], [s(1, 1), s(1, 2)], [t(2), r(2), b(9), s(2, 9)])
}

/// Distributes a reward and checks what holds whatever the numbers are; answers how much the staker and the delegations got.
fn run(p: &Pool, total: u128, version: Version) -> Option<(u128, [u128; 2])> {
    let base = db(p);
    let before = books(&base);
    let mut delta = PoSAccountingDelta::new(&base);
    let block: Id<Block> = Id::new(h(7));
    let undos: Vec<PoSAccountingUndo> = match distribute_pos_reward(&mut delta, block, pool(1), am(total), version) {
        Ok(u) => u,
        Err(_) => return None,
    };
    let after = books(&delta);
    let staker = after.1 - before.1;
    let got = [after.2[0] - before.2[0], after.2[1] - before.2[1]];
    sym::check(after.0 - before.0 == total, "the balance of the pool grows by the whole reward");
    sym::check(staker + got[0] + got[1] == total, "staker and delegations share the whole reward, no more and no less");
    sym::check(after.3[0] == before.3[0] + got[0] && after.3[1] == before.3[1] + got[1], "the share of a delegation grows with its balance");
    sym::check(after.4 == before.4, "another pool gets nothing");
    for k in 0..2 {
        sym::check(p.shares[k].is_some() || got[k] == 0, "only a delegation of the pool gets a part");
    }
    for u in undos.into_iter() {
        sym::check(delta.undo(u).is_ok(), "a distributed reward can be taken back");
    }
    sym::check(books(&delta) == before, "taking the reward back restores every balance");
    Some((staker, got))
}

fn version() -> Version {
    if sym::flag("v1") {
        Version::V1
    } else {
        Version::V0
    }
}

/// what the staker is due before the remainder of the division among delegations
fn due(p: &Pool, total: u128, version: Version) -> u128 {
    if total < p.cost {
        return total;
    }
    let rest = total - p.cost;
    let m = p.margin as u128;
    match version {
        Version::V0 => p.cost + rest * m / 1000,
        Version::V1 => {
            let stake = p.pledge + p.rewards;
            let all = stake + p.shares.iter().flatten().sum::<u128>();
            let own = rest * stake / all;
            p.cost + own + (rest - own) * m / 1000
        }
    }
}

fn judge(p: &Pool, total: u128, v: Version, r: Option<(u128, [u128; 2])>) {
    let stake = p.pledge + p.rewards;
    let b = p.shares.map(|s| s.unwrap_or(0));
    let all = b[0] + b[1];
    if stake + all == 0 && v == Version::V1 {
        return sym::check(r.is_none(), "a pool with nothing in it gets no reward");
    }
    let Some((staker, got)) = r else { return sym::fail("a reward can be distributed") };
    let d = due(p, total, v);
    sym::check(staker >= d, "the staker gets the cost of a block, the margin and what belongs to the stake");
    if total < p.cost {
        sym::cover("below the cost");
        return sym::check(staker == total, "a reward below the cost of a block is the staker's");
    }
    if all == 0 {
        sym::cover("no delegations");
        return sym::check(staker == total, "without delegations the reward is the staker's");
    }
    sym::cover("shared");
    let pot = total - d;
    for k in 0..2 {
        sym::check(got[k] == pot * b[k] / all, "each delegation gets its share in proportion, rounded down");
    }
}

fn pick(n: &'static str, of: &[u128]) -> u128 {
    of[sym::choose(n, of.len())]
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ time=120
//@ query_ms=100
//@ covers=shared|no delegations
//@ bounds=any cost and reward above it of 64 bits, no margin, each of two delegations one of several sizes, the old rule
#[no_mangle]
pub extern "C" fn h_reward_split() {
    split(&[0, 1000], &[0, 3]);
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ tier=thorough
//@ time=200
//@ query_ms=100
//@ covers=shared|no delegations
//@ bounds=as h_reward_split, with more sizes of shares
#[no_mangle]
pub extern "C" fn h_reward_split_more() {
    split(&[0, 1, 1000], &[0, 3, 7_000_000_001]);
}

fn split(a: &[u128], b: &[u128]) {
    let vrf = key();
    let share = |n: &'static str, of: &[u128]| if sym::flag(n) { Some(pick("share", of)) } else { None };
    let (cost, rest) = (sym::u64("cost") as u128, sym::u64("rest") as u128);
    let p = Pool {
        vrf,
        pledge: 40_000,
        rewards: 3,
        shares: [share("first", a), share("second", b)],
        cost,
        margin: 0,
    };
    sym::model_div(true);
    let r = run(&p, cost + rest, Version::V0);
    judge(&p, cost + rest, Version::V0, r);
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ time=120
//@ query_ms=300
//@ covers=below the cost|shared
//@ bounds=any cost of 64 bits, any reward of 32 bits above it or below it, margin one of 0, 1, 137 and 1000 per thousand, one delegation of one atom, the old rule
#[no_mangle]
pub extern "C" fn h_reward_staker_v0() {
    let vrf = key();
    staker(vrf, Version::V0, sym::u32("rest") as u128, &[0, 1, 137, 1000], &[6]);
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ time=120
//@ query_ms=300
//@ covers=below the cost|shared
//@ bounds=any cost of 64 bits, any reward of 16 bits above it or below it, margin 0 or 1000 per thousand, stake one of several sizes, one delegation of one atom, the new rule
#[no_mangle]
pub extern "C" fn h_reward_staker_v1() {
    let vrf = key();
    staker(vrf, Version::V1, sym::u16("rest") as u128, &[0, 1000], &[0, 6, 40_000]);
}

fn staker(vrf: VRFPublicKey, v: Version, rest: u128, margins: &[u128], pledges: &[u128]) {
    let cost = sym::u64("cost") as u128;
    let p = Pool {
        vrf,
        pledge: pick("pledge", pledges),
        rewards: 1,
        shares: [Some(1), None],
        cost,
        margin: pick("margin", margins) as u16,
    };
    let total = if sym::flag("below") {
        sym::assume(rest < cost);
        rest
    } else {
        cost + rest
    };
    sym::model_div(true);
    let r = run(&p, total, v);
    judge(&p, total, v, r);
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ time=120
//@ covers=shared|below the cost|no delegations
//@ bounds=rewards of 0 to 9, 255 and 202 coins, cost 0 or 5, margin 0, 137 or 999 per thousand, stake and two delegations one of several sizes, both rules
#[no_mangle]
pub extern "C" fn h_reward_small() {
    let vrf = key();
    let p = Pool {
        vrf,
        pledge: pick("pledge", &[0, 7, 40_000]),
        rewards: pick("earned", &[0, 3]),
        shares: [Some(pick("first", &[0, 1, 1000])), Some(pick("second", &[0, 3]))],
        cost: pick("cost", &[0, 5]),
        margin: pick("margin", &[0, 137, 999]) as u16,
    };
    let total = pick("total", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 20_200_000_000_000]);
    let v = version();
    let r = run(&p, total, v);
    judge(&p, total, v, r);
}

//@ prop=D04
//@ assumes=wide integer arithmetic is exact (C01)
//@ time=120
//@ query_ms=300
//@ covers=refused|distributed
//@ bounds=any cost and reward below 2^125, margin 0, 1 or 1000 per thousand, one delegation of one atom, the old rule
#[no_mangle]
pub extern "C" fn h_reward_wide() {
    let vrf = key();
    let (cost, rest) = (sym::u128("cost") >> 4, sym::u128("rest") >> 4);
    let p = Pool {
        vrf,
        pledge: 5,
        rewards: 0,
        shares: [Some(1), None],
        cost,
        margin: pick("margin", &[0, 1, 1000]) as u16,
    };
    sym::model_div(true);
    // the old rule multiplies before it divides
    let overflow = p.margin == 1000 && rest > u128::MAX / 1000;
    match run(&p, cost + rest, Version::V0) {
        None => {
            sym::cover("refused");
            sym::check(overflow, "a reward is refused only when it is out of range");
        }
        Some((staker, _)) => {
            sym::cover("distributed");
            sym::check(!overflow && staker >= cost, "the staker gets at least the cost of a block");
        }
    }
}
