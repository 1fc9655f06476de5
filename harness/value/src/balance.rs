use common::chain::{
    config::create_unit_test_config_builder,
    htlc::{HashedTimelockContract, HtlcSecretHash},
    output_value::OutputValue,
    stakelock::StakePoolData,
    timelock::OutputTimeLock,
    tokens::*,
    AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, DelegationId, Destination,
    OrderAccountCommand, OrderData, OrderId, OutPointSourceId, PoolId, TxInput, TxOutput, UtxoOutPoint,
};
use common::primitives::{
    per_thousand::PerThousand, time::Time, Amount, BlockCount, BlockHeight, Fee, Id, Subsidy, H256,
};
use constraints_value_accumulator::{AccumulatedFee, ConstrainedValueAccumulator as Acc};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use orders_accounting::{InMemoryOrdersAccounting, OrdersAccountingDB};
use pos_accounting::{DelegationData, InMemoryPoSAccounting, PoSAccountingDB, PoolData};
use std::collections::BTreeMap;
use tokens_accounting::{FungibleTokenData, InMemoryTokensAccounting, TokenData, TokensAccountingDB};

const M: u64 = 20;
const H: BlockHeight = BlockHeight::new(7);
const ANY: Destination = Destination::AnyoneCanSpend;

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}
fn h(k: u8) -> H256 {
    H256([k; 32])
}
fn tid(k: u8) -> TokenId {
    TokenId::new(h(k))
}

fn config(maturity: u64) -> ChainConfig {
    create_unit_test_config_builder().empty_consensus_reward_maturity_block_count(BlockCount::new(maturity)).build()
}

/// an amount far from overflow, so that sums of a few are exact
fn money(n: &'static str) -> u128 {
    sym::u128(n) >> 6
}

/// a small amount, at the scale of a coin
fn small(n: &'static str) -> u128 {
    (sym::u16(n) as u128) << 37
}

/// What a side of a transaction is worth: tokens, coins free to move, coins under a number of blocks.
#[derive(Clone, Default)]
struct Bag {
    tok: [u128; 2],
    coin: u128,
    locked: Vec<(u64, u128)>,
}

impl Bag {
    fn lock(&mut self, n: u64, v: u128) {
        if n == 0 {
            self.coin += v
        } else {
            self.locked.push((n, v))
        }
    }
    /// all coins that must stay locked for no more than n blocks
    fn upto(&self, n: u64) -> u128 {
        self.coin + self.locked.iter().map(|(k, v)| if *k <= n { *v } else { 0 }).sum::<u128>()
    }
    fn coins(&self) -> u128 {
        self.coin + self.locked.iter().map(|(_, v)| *v).sum::<u128>()
    }
}

struct World {
    vrf: VRFPublicKey,
    pledge: u128,
    reward: u128,
    delegated: u128,
    supply: u128,
    circulating: u128,
    ask: u128,
    give: u128,
    filled: u128,
    give_left: u128,
}

impl World {
    fn empty() -> Self {
        let (_, vrf) = VRFPrivateKey::new_using_random_bytes(&[3; 32], VRFKeyKind::Schnorrkel).unwrap();
        World {
            vrf,
            pledge: 0,
            reward: 0,
            delegated: 0,
            supply: 0,
            circulating: 0,
            ask: 8,
            give: 80,
            filled: 0,
            give_left: 80,
        }
    }

    fn from_inputs(&self, cfg: &ChainConfig, ins: &[(TxInput, Option<TxOutput>)]) -> Option<Acc> {
        let pool = PoolData::new(ANY, am(self.pledge), am(self.reward), self.vrf.clone(), PerThousand::new(10).unwrap(), am(3));
        let pos = InMemoryPoSAccounting::from_values(
            BTreeMap::from([(PoolId::new(h(1)), pool)]),
            BTreeMap::from([(PoolId::new(h(1)), am(self.pledge + self.reward + self.delegated))]),
            BTreeMap::from([((PoolId::new(h(1)), DelegationId::new(h(2))), am(self.delegated))]),
            BTreeMap::from([(DelegationId::new(h(2)), am(self.delegated))]),
            BTreeMap::from([(DelegationId::new(h(2)), DelegationData::new(PoolId::new(h(1)), ANY))]),
        );
        let token = FungibleTokenData::new_unchecked(
            vec![b'T'],
            4,
            vec![],
            TokenTotalSupply::Fixed(am(self.supply)),
            false,
            IsTokenFrozen::No(IsTokenFreezable::Yes),
            ANY,
        );
        let tokens = InMemoryTokensAccounting::from_values(
            BTreeMap::from([(tid(0), TokenData::FungibleToken(token))]),
            BTreeMap::from([(tid(0), am(self.circulating))]),
        );
        // asks for token 0, gives token 1
        let order = OrderData::new(ANY, OutputValue::TokenV1(tid(0), am(self.ask)), OutputValue::TokenV1(tid(1), am(self.give)));
        let mut left = BTreeMap::new();
        if self.ask > self.filled {
            left.insert(OrderId::new(h(4)), am(self.ask - self.filled));
        }
        let orders = InMemoryOrdersAccounting::from_values(
            BTreeMap::from([(OrderId::new(h(4)), order.into())]),
            left,
            BTreeMap::from([(OrderId::new(h(4)), am(self.give_left))]),
        );
        let (pos, tokens, orders) =
            (PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(pos), TokensAccountingDB::new(tokens), OrdersAccountingDB::new(orders));
        let (a, b): (Vec<_>, Vec<_>) = ins.iter().cloned().unzip();
        Acc::from_inputs(cfg, H, &orders, &pos, &tokens, &a, &b).ok()
    }
}

fn utxo(o: TxOutput) -> (TxInput, Option<TxOutput>) {
    (TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(6))), 0)), Some(o))
}

fn coins(v: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(am(v)), ANY)
}
fn token(k: u8, v: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::TokenV1(tid(k), am(v)), ANY)
}
fn htlc(v: OutputValue) -> TxOutput {
    let c = HashedTimelockContract {
        secret_hash: HtlcSecretHash([1; 20]),
        spend_key: ANY,
        refund_timelock: OutputTimeLock::ForBlockCount(50),
        refund_key: ANY,
    };
    TxOutput::Htlc(v, Box::new(c))
}
fn nft(k: u8) -> TxOutput {
    let metadata = Metadata {
        creator: None,
        name: vec![b'n'],
        description: vec![b'd'],
        ticker: vec![b'T'],
        icon_uri: None.into(),
        additional_metadata_uri: None.into(),
        media_uri: None.into(),
        media_hash: vec![1, 2, 3, 4],
    };
    TxOutput::IssueNft(tid(k), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata })), ANY)
}

/// The verdict on a balance: what is paid as a fee, or None if more goes out than comes in.
fn balance(cfg: &ChainConfig, maturity: u64, a: Option<Acc>, b: Option<Acc>) -> Option<u128> {
    let _ = maturity;
    let fee = a?.satisfy_with(b?).ok()?;
    fee.map_into_block_fees(cfg, H).ok().map(|f| f.0.into_atoms())
}

fn judge(got: Option<u128>, i: &Bag, o: &Bag) {
    let mut locks: Vec<u64> = o.locked.iter().map(|x| x.0).collect();
    locks.push(0);
    // every coin that leaves free, or under a short lock, needs a coin that is at least as free
    let fits = locks.iter().all(|n| o.upto(*n) <= i.upto(*n)) && o.coins() <= i.coins();
    let ok = fits && o.tok[0] <= i.tok[0] && o.tok[1] <= i.tok[1];
    match got {
        Some(fee) => {
            sym::cover("accepted");
            sym::check(ok, "no transaction puts out more of a currency, or of freer coins, than it takes in");
            sym::check(fee == i.coins() - o.coins(), "the fee is exactly the coins taken in and not put out");
        }
        None => {
            sym::cover("refused");
            sym::check(!ok, "a transaction that balances is accepted");
        }
    }
}

fn output(cfg: &ChainConfig, w: &World, n: &'static str, v: u128, b: &mut Bag) -> TxOutput {
    let fee = |a: Amount| a.into_atoms();
    match sym::choose(n, 16) {
        0 => {
            b.coin += v;
            coins(v)
        }
        1 => {
            b.tok[1] += v;
            token(1, v)
        }
        2 => {
            b.coin += v;
            TxOutput::Burn(OutputValue::Coin(am(v)))
        }
        3 => {
            b.tok[0] += v;
            TxOutput::Burn(OutputValue::TokenV1(tid(0), am(v)))
        }
        4 => {
            b.tok[0] += v;
            htlc(OutputValue::TokenV1(tid(0), am(v)))
        }
        5 => {
            b.coin += v;
            htlc(OutputValue::Coin(am(v)))
        }
        6 => {
            let l = sym::u64("lock");
            b.lock(l, v);
            TxOutput::LockThenTransfer(OutputValue::Coin(am(v)), ANY, OutputTimeLock::ForBlockCount(l))
        }
        7 => {
            b.coin += v;
            let t = match sym::choose("timelock", 3) {
                0 => OutputTimeLock::UntilHeight(BlockHeight::new(1 << 40)),
                1 => OutputTimeLock::UntilTime(common::chain::block::timestamp::BlockTimestamp::from_time(
                    Time::from_secs_since_epoch(1 << 40),
                )),
                _ => OutputTimeLock::ForSeconds(1 << 40),
            };
            TxOutput::LockThenTransfer(OutputValue::Coin(am(v)), ANY, t)
        }
        8 => {
            b.tok[1] += v;
            TxOutput::LockThenTransfer(OutputValue::TokenV1(tid(1), am(v)), ANY, OutputTimeLock::ForBlockCount(M))
        }
        9 => {
            b.coin += v;
            TxOutput::CreateStakePool(
                PoolId::new(h(9)),
                Box::new(StakePoolData::new(am(v), ANY, w.vrf.clone(), ANY, PerThousand::new(5).unwrap(), am(1))),
            )
        }
        10 => TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(1))),
        11 => TxOutput::CreateDelegationId(ANY, PoolId::new(h(1))),
        12 => {
            b.coin += v;
            TxOutput::DelegateStaking(am(v), DelegationId::new(h(2)))
        }
        13 => match sym::choose("issued", 3) {
            0 => {
                b.coin += fee(cfg.data_deposit_fee(H));
                TxOutput::DataDeposit(vec![1, 2])
            }
            1 => {
                b.coin += fee(cfg.nft_issuance_fee(H));
                nft(8)
            }
            _ => {
                b.coin += fee(cfg.fungible_token_issuance_fee());
                TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(TokenIssuanceV1 {
                    token_ticker: vec![b'T'],
                    number_of_decimals: 2,
                    metadata_uri: vec![b'u'],
                    total_supply: TokenTotalSupply::Unlimited,
                    authority: ANY,
                    is_freezable: IsTokenFreezable::No,
                })))
            }
        },
        14 => {
            b.tok[0] += v;
            TxOutput::CreateOrder(Box::new(OrderData::new(ANY, OutputValue::Coin(am(money("asked"))), OutputValue::TokenV1(tid(0), am(v)))))
        }
        _ => {
            b.coin += v;
            TxOutput::CreateOrder(Box::new(OrderData::new(ANY, OutputValue::TokenV1(tid(1), am(money("asked"))), OutputValue::Coin(am(v)))))
        }
    }
}

/// One spent output; None if it cannot be spent.
fn spent(w: &mut World, maturity: u64, n: &'static str, b: &mut Bag) -> ((TxInput, Option<TxOutput>), bool) {
    let v = money("in");
    let mut ok = true;
    let o = match sym::choose(n, 11) {
        0 => {
            b.coin += v;
            coins(v)
        }
        1 => {
            b.tok[0] += v;
            token(0, v)
        }
        2 => {
            b.tok[1] += v;
            TxOutput::LockThenTransfer(OutputValue::TokenV1(tid(1), am(v)), ANY, OutputTimeLock::ForBlockCount(3))
        }
        3 => {
            b.coin += v;
            TxOutput::LockThenTransfer(OutputValue::Coin(am(v)), ANY, OutputTimeLock::ForBlockCount(30))
        }
        4 => {
            b.coin += v;
            htlc(OutputValue::Coin(am(v)))
        }
        5 => {
            b.tok[0] += 1;
            nft(0)
        }
        6 => {
            (w.pledge, w.reward) = (v, money("reward"));
            b.lock(maturity, w.pledge + w.reward);
            TxOutput::CreateStakePool(
                PoolId::new(h(1)),
                Box::new(StakePoolData::new(am(1), ANY, w.vrf.clone(), ANY, PerThousand::new(5).unwrap(), am(1))),
            )
        }
        7 => {
            (w.pledge, w.reward) = (v, money("reward"));
            b.lock(maturity, w.pledge + w.reward);
            TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(1)))
        }
        8 => {
            ok = false;
            TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(7)))
        }
        9 => {
            ok = false;
            match sym::choose("unspendable", 5) {
                0 => TxOutput::Burn(OutputValue::Coin(am(v))),
                1 => TxOutput::CreateDelegationId(ANY, PoolId::new(h(1))),
                2 => TxOutput::DataDeposit(vec![1]),
                3 => TxOutput::CreateOrder(Box::new(OrderData::new(ANY, OutputValue::Coin(am(1)), OutputValue::Coin(am(v))))),
                _ => TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(TokenIssuanceV1 {
                    token_ticker: vec![b'T'],
                    number_of_decimals: 2,
                    metadata_uri: vec![b'u'],
                    total_supply: TokenTotalSupply::Unlimited,
                    authority: ANY,
                    is_freezable: IsTokenFreezable::No,
                }))),
            }
        }
        _ => return ((utxo(coins(1)).0, None), false),
    };
    (utxo(o), ok)
}

fn run(w: &World, cfg: &ChainConfig, maturity: u64, ins: &[(TxInput, Option<TxOutput>)], outs: &[TxOutput], i: &Bag, o: &Bag, ok: bool) {
    let a = w.from_inputs(cfg, ins);
    if !ok {
        sym::cover("not spendable");
        return sym::check(a.is_none(), "an output that is missing or not spendable brings in nothing");
    }
    sym::check(a.is_some(), "spendable outputs can be spent");
    let b = Acc::from_outputs(cfg, H, outs).ok();
    sym::check(b.is_some(), "amounts far from overflow add up");
    judge(balance(cfg, maturity, a, b), i, o);
}

//@ prop=D02
//@ time=60
//@ covers=accepted|refused|not spendable
//@ bounds=one spent output of any kind and another of coins, one output of any kind; any amounts below 2^122, any block-count lock, spend maturity 0 or 20 blocks
#[no_mangle]
pub extern "C" fn h_value_inputs() {
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let maturity = [0, M][sym::choose("maturity", 2)];
    let cfg = config(maturity);
    let (x, ok) = spent(&mut w, maturity, "kind", &mut i);
    let v = money("more");
    i.coin += v;
    let outs = [output(&cfg, &w, "put", money("out"), &mut o)];
    run(&w, &cfg, maturity, &[x, utxo(coins(v))], &outs, &i, &o, ok);
}

//@ prop=D02
//@ query_ms=300
//@ time=60
//@ covers=accepted|refused
//@ bounds=coins, two tokens and a decommissioned pool taken in, two outputs of any kind; amounts of 16-bit multiples of 2^37 atoms, any block-count lock
#[no_mangle]
pub extern "C" fn h_value_outputs() {
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let cfg = config(M);
    let (a, b, c) = (small("a"), small("b"), small("c"));
    (w.pledge, w.reward) = (small("pledge"), 5);
    i.coin += a;
    i.tok = [b, c];
    i.lock(M, w.pledge + 5);
    let ins = [
        utxo(TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(1)))),
        utxo(token(1, c)),
        utxo(coins(a)),
        utxo(token(0, b)),
    ];
    let outs = [output(&cfg, &w, "first", small("v1"), &mut o), output(&cfg, &w, "second", small("v2"), &mut o)];
    run(&w, &cfg, M, &ins, &outs, &i, &o, true);
}

const LOCKS: [u64; 6] = [M - 1, M, M + 1, 0, 1, u64::MAX];

//@ prop=D02
//@ time=60
//@ query_ms=300
//@ covers=accepted|refused
//@ bounds=free coins and a decommissioned pool taken in; two coin outputs under locks of 0, 1, 19, 20, 21 or 2^64-1 blocks and one free; amounts of 16 bits
#[no_mangle]
pub extern "C" fn h_value_locks() {
    let small = |n| sym::u16(n) as u128;
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let cfg = config(M);
    let a = small("a");
    (w.pledge, w.reward) = (small("pledge"), 5);
    i.coin += a;
    i.lock(M, w.pledge + w.reward);
    let ins = [utxo(TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(1)))), utxo(coins(a))];
    let mut outs = Vec::new();
    for n in ["lock1", "lock2"] {
        let (l, v) = (LOCKS[sym::choose(n, 6)], small("locked"));
        o.lock(l, v);
        outs.push(TxOutput::LockThenTransfer(OutputValue::Coin(am(v)), ANY, OutputTimeLock::ForBlockCount(l)));
    }
    let v = small("free");
    o.coin += v;
    outs.push(coins(v));
    run(&w, &cfg, M, &ins, &outs, &i, &o, true);
}

//@ prop=D02
//@ query_ms=300
//@ time=60
//@ query_ms=300
//@ covers=accepted|refused|overspent
//@ bounds=two withdrawals from one delegation and free coins taken in; one free and one locked coin output; any amounts below 2^122; spend maturity 0 or 20 blocks
#[no_mangle]
pub extern "C" fn h_value_delegation() {
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let maturity = [0, M][sym::choose("maturity", 2)];
    let cfg = config(maturity);
    w.delegated = money("delegated");
    let (x, y, v) = (money("x"), money("y"), money("v"));
    let take = |n, v| {
        let d = AccountSpending::DelegationBalance(DelegationId::new(h(2)), am(v));
        (TxInput::Account(AccountOutPoint::new(AccountNonce::new(n), d)), None)
    };
    i.lock(maturity, x);
    i.lock(maturity, y);
    i.coin += v;
    let ins = [take(0, x), utxo(coins(v)), take(1, y)];
    if x + y > w.delegated {
        sym::cover("overspent");
        return sym::check(w.from_inputs(&cfg, &ins).is_none(), "no more is withdrawn from a delegation than it holds");
    }
    let (a, b) = (money("free"), money("locked"));
    o.coin += a;
    o.lock(M, b);
    let outs = [coins(a), TxOutput::LockThenTransfer(OutputValue::Coin(am(b)), ANY, OutputTimeLock::ForBlockCount(M))];
    run(&w, &cfg, maturity, &ins, &outs, &i, &o, true);
}

//@ prop=D02
//@ time=60
//@ covers=accepted|refused|no fee
//@ bounds=free coins and tokens taken in beside one token command of any kind or two mints; one coin output and one token output; any amounts below 2^122
#[no_mangle]
pub extern "C" fn h_value_token_command() {
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let cfg = config(M);
    let (v, t) = (money("v"), money("t"));
    (w.supply, w.circulating) = (money("supply"), money("circulating"));
    sym::assume(w.circulating <= w.supply);
    let (x, y) = (money("mint"), money("mint2"));
    let fee = |a: Amount| a.into_atoms();
    let (cmds, cost, minted) = match sym::choose("command", 9) {
        0 => (vec![AccountCommand::MintTokens(tid(0), am(x))], fee(cfg.token_supply_change_fee(H)), x),
        1 => (vec![AccountCommand::UnmintTokens(tid(0))], fee(cfg.token_supply_change_fee(H)), 0),
        2 => (vec![AccountCommand::LockTokenSupply(tid(0))], fee(cfg.token_supply_change_fee(H)), 0),
        3 => (vec![AccountCommand::FreezeToken(tid(0), IsTokenUnfreezable::Yes)], fee(cfg.token_freeze_fee(H)), 0),
        4 => (vec![AccountCommand::UnfreezeToken(tid(0))], fee(cfg.token_freeze_fee(H)), 0),
        5 => (vec![AccountCommand::ChangeTokenAuthority(tid(0), ANY)], fee(cfg.token_change_authority_fee(H)), 0),
        6 => (vec![AccountCommand::ChangeTokenMetadataUri(tid(0), vec![1])], fee(cfg.token_change_metadata_uri_fee()), 0),
        7 => (
            vec![AccountCommand::UnmintTokens(tid(0)), AccountCommand::ChangeTokenMetadataUri(tid(0), vec![1])],
            fee(cfg.token_supply_change_fee(H)) + fee(cfg.token_change_metadata_uri_fee()),
            0,
        ),
        _ => (
            vec![AccountCommand::MintTokens(tid(0), am(x)), AccountCommand::MintTokens(tid(0), am(y))],
            2 * fee(cfg.token_supply_change_fee(H)),
            x + y,
        ),
    };
    let mut ins = vec![utxo(token(0, t))];
    for c in &cmds {
        ins.push((TxInput::AccountCommand(AccountNonce::new(0), c.clone()), None));
    }
    ins.push(utxo(coins(v)));
    let a = w.from_inputs(&cfg, &ins);
    if v < cost || w.circulating + minted > w.supply {
        sym::cover("no fee");
        return sym::check(a.is_none(), "a token command needs its fee, and mints within the supply");
    }
    sym::check(a.is_some(), "a token command whose fee is paid is accepted");
    i.coin = v - cost;
    i.tok = [t + minted, 0];
    (o.coin, o.tok[0]) = (money("out"), money("token out"));
    let b = Acc::from_outputs(&cfg, H, &[coins(o.coin), token(0, o.tok[0])]).ok();
    judge(balance(&cfg, M, a, b), &i, &o);
}

//@ prop=D02
//@ query_ms=300
//@ time=60
//@ covers=accepted|refused|bad order
//@ bounds=an order of 8 of one token for any amount of another, partly filled, then filled once more, concluded, or filled and concluded in one transaction, by either form of command; any amounts below 2^122, payout in whole multiples of an eighth of what the order gives, and not nothing
//@ assumes=payouts of fills are exact (L02)
#[no_mangle]
pub extern "C" fn h_value_order() {
    let (mut i, mut o) = (Bag::default(), Bag::default());
    let mut w = World::empty();
    let cfg = config(M);
    let (v, t) = (money("v"), money("t"));
    let part = sym::u128("part") >> 10;
    sym::assume(part > 0);
    w.give = part * 8;
    w.filled = sym::choose("filled", 4) as u128 * 2;
    w.give_left = part * (8 - w.filled);
    let fill = sym::choose("fill", 8) as u128 + 1;
    let id = OrderId::new(h(4));
    let old = sym::flag("old form");
    let cmd = |c: OrderAccountCommand| {
        if !old {
            return (TxInput::OrderAccountCommand(c), None);
        }
        let c = match c {
            OrderAccountCommand::FillOrder(i, a) => AccountCommand::FillOrder(i, a, ANY),
            OrderAccountCommand::ConcludeOrder(i) => AccountCommand::ConcludeOrder(i),
            OrderAccountCommand::FreezeOrder(_) => unreachable!(),
        };
        (TxInput::AccountCommand(AccountNonce::new(0), c), None)
    };
    let what = sym::choose("do", 4);
    let mut ins = vec![utxo(token(0, t)), utxo(coins(v))];
    let mut tok = [t, 0];
    let (mut need, mut ok) = (0, true);
    if what != 1 {
        ins.push(cmd(OrderAccountCommand::FillOrder(id, am(fill))));
        ok &= w.filled + fill <= 8;
        need += fill;
        tok[1] += part * fill;
        w.filled += if ok { fill } else { 0 };
    }
    if what == 1 || what == 2 {
        ins.push(cmd(OrderAccountCommand::ConcludeOrder(id)));
        tok[0] += w.filled;
        if ok {
            tok[1] += part * (8 - w.filled);
        }
    }
    if what == 3 && ok {
        // a second fill
        ins.push(cmd(OrderAccountCommand::FillOrder(id, am(1))));
        ok &= w.filled + 1 <= 8;
        need += 1;
        tok[1] += part;
    }
    if what != 1 && ok {
        w.filled -= fill;
    }
    sym::model_div(true);
    let a = w.from_inputs(&cfg, &ins);
    if !ok || tok[0] < need {
        sym::cover("bad order");
        return sym::check(a.is_none(), "an order is filled only as far as it asks, and by one who pays");
    }
    sym::check(a.is_some(), "an order that can be filled or concluded is");
    i.coin = v;
    i.tok = [tok[0] - need, tok[1]];
    (o.coin, o.tok) = (money("out"), [money("token0"), money("token1")]);
    let b = Acc::from_outputs(&cfg, H, &[token(1, o.tok[1]), coins(o.coin), token(0, o.tok[0])]).ok();
    judge(balance(&cfg, M, a, b), &i, &o);
}

//@ prop=D02
//@ time=60
//@ covers=fits|overflow
//@ bounds=two coin or token amounts of all 128 bits on the side of the inputs or of the outputs, or in fees and subsidy
#[no_mangle]
pub extern "C" fn h_value_overflow() {
    let w = World::empty();
    let cfg = config(M);
    let (x, y) = (sym::u128("x"), sym::u128("y"));
    let one = |v| match sym::flag("token") {
        true => token(0, v),
        false => coins(v),
    };
    let (a, b) = (one(x), one(y));
    let alike = matches!((&a, &b), (TxOutput::Transfer(OutputValue::Coin(_), _), TxOutput::Transfer(OutputValue::Coin(_), _)) | (TxOutput::Transfer(OutputValue::TokenV1(..), _), TxOutput::Transfer(OutputValue::TokenV1(..), _)));
    let fits = !alike || x.checked_add(y).is_some();
    match fits {
        true => sym::cover("fits"),
        false => sym::cover("overflow"),
    }
    let got = match sym::choose("side", 3) {
        0 => w.from_inputs(&cfg, &[utxo(a.clone()), utxo(b.clone())]).is_some(),
        1 => Acc::from_outputs(&cfg, H, &[a.clone(), b.clone()]).is_ok(),
        _ => {
            let r = Acc::from_block_reward(Fee(am(x)), Subsidy(am(y)));
            sym::check(r.is_some() == x.checked_add(y).is_some(), "fees and subsidy add up, or are refused");
            if let Some(r) = r {
                // the reward pays out at most what it is
                let v = sym::u128("paid");
                let o = Acc::from_outputs(&cfg, H, &[coins(v)]).ok();
                let got = balance(&cfg, M, Some(r), o);
                sym::check(got == (x + y).checked_sub(v), "a block reward is at most the fees and the subsidy");
            }
            return;
        }
    };
    sym::check(got == fits, "amounts that overflow are refused, and no others");
}

//@ prop=D02
//@ time=60
//@ covers=fits|overflow
//@ bounds=the fees of two transactions, each of any 128-bit amount with a free and a locked part, combined
#[no_mangle]
pub extern "C" fn h_value_fees() {
    let mut w = World::empty();
    let cfg = config(M);
    let mut total = Some(0u128);
    let mut all = AccumulatedFee::new();
    let mut failed = false;
    for n in ["x", "y"] {
        let v = sym::u128(n);
        w.pledge = sym::u128("pledge") >> 1;
        let a = w.from_inputs(&cfg, &[utxo(coins(v)), utxo(TxOutput::ProduceBlockFromStake(ANY, PoolId::new(h(1))))]);
        let f = a.and_then(|a| a.satisfy_with(Acc::new()).ok()).unwrap();
        total = total.and_then(|t| t.checked_add(v)).and_then(|t| t.checked_add(w.pledge));
        match all.clone().combine(f) {
            Ok(x) => all = x,
            Err(_) => failed = true,
        }
    }
    let got = if failed { None } else { all.map_into_block_fees(&cfg, H).ok() };
    match total {
        Some(_) => sym::cover("fits"),
        None => sym::cover("overflow"),
    }
    sym::check(got.map(|f| f.0.into_atoms()) == total, "the fees of a block are the exact sum of those of its transactions");
}
