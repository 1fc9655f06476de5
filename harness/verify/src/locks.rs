use common::chain::{
    block::{timestamp::BlockTimestamp, BlockRewardTransactable},
    htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash},
    output_value::OutputValue,
    signature::{
        inputsig::{
            authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend as HtlcSpend,
            standard_signature::StandardInputSignature, InputWitness,
        },
        sighash::sighashtype::SigHashType,
        EvaluatedInputWitness,
    },
    stakelock::StakePoolData,
    timelock::OutputTimeLock,
    tokens::*,
    AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, DelegationId, Destination, OrderAccountCommand,
    OrderData, OrderId, OutPointSourceId, PoolId, SignedTransaction, TxOutput, UtxoOutPoint,
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockCount, BlockHeight, Id, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use mintscript::{
    checker::{StandardTimelockChecker, TimelockChecker, TimelockContext, TimelockError},
    script::{DissatisfiedScript, HashChallenge, ScriptCondition, ScriptVisitor, Threshold, WitnessScript},
    translate::{InputInfoProvider, SignatureInfoProvider, SignatureOnlyTx, TimelockOnly, TranslationError},
    InputInfo, TranslateInput,
};
use serialization::Encode;
use std::cell::RefCell;
use tx_verifier::timelock_check::{check_output_maturity_setting, check_timelock};

fn h(k: u8) -> H256 {
    H256([k; 32])
}
fn dest(k: u8) -> Destination {
    Destination::ScriptHash(Id::new(h(k)))
}
fn outpoint() -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(1))), 0)
}

fn lock() -> OutputTimeLock {
    match sym::choose("lock", 4) {
        0 => OutputTimeLock::UntilHeight(BlockHeight::new(sym::u64("until height"))),
        1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(sym::u64("until time"))),
        2 => OutputTimeLock::ForBlockCount(sym::u64("for blocks")),
        _ => OutputTimeLock::ForSeconds(sym::u64("for seconds")),
    }
}

#[derive(Clone, Copy)]
struct When {
    source_height: u64,
    source_time: u64,
    height: u64,
    time: u64,
}

impl When {
    fn any() -> Self {
        When {
            source_height: sym::u64("source height"),
            source_time: sym::u64("source time"),
            height: sym::u64("height"),
            time: sym::u64("time"),
        }
    }
    fn open(&self, l: &OutputTimeLock) -> bool {
        match l {
            OutputTimeLock::UntilHeight(x) => self.height >= x.into_int(),
            OutputTimeLock::UntilTime(x) => self.time >= x.as_int_seconds(),
            // a height beyond half the range is never reached
            OutputTimeLock::ForBlockCount(n) => {
                let open_at = self.source_height as u128 + *n as u128;
                open_at <= i64::MAX as u128 && self.height as u128 >= open_at
            }
            OutputTimeLock::ForSeconds(n) => self.time as u128 >= self.source_time as u128 + *n as u128,
        }
    }
}

impl TimelockContext for When {
    type Error = std::convert::Infallible;
    fn spending_height(&self) -> BlockHeight {
        BlockHeight::new(self.height)
    }
    fn spending_time(&self) -> BlockTimestamp {
        BlockTimestamp::from_int_seconds(self.time)
    }
    fn source_height(&self) -> Result<BlockHeight, Self::Error> {
        Ok(BlockHeight::new(self.source_height))
    }
    fn source_time(&self) -> Result<BlockTimestamp, Self::Error> {
        Ok(BlockTimestamp::from_int_seconds(self.source_time))
    }
}

//@ prop=D03
//@ time=20
//@ covers=open|closed
//@ bounds=any lock of the four kinds, any heights and times of the output and of the spend
#[no_mangle]
pub extern "C" fn h_timelock() {
    let (l, w) = (lock(), When::any());
    let r = check_timelock(
        &BlockHeight::new(w.source_height),
        &BlockTimestamp::from_int_seconds(w.source_time),
        &l,
        &BlockHeight::new(w.height),
        &BlockTimestamp::from_int_seconds(w.time),
        &outpoint(),
    );
    let open = w.open(&l);
    if open {
        sym::cover("open")
    } else {
        sym::cover("closed")
    }
    sym::check(r.is_ok() == open, "a time lock opens exactly when the height or time it names is reached");
    let mut c = w;
    sym::check(StandardTimelockChecker.check_timelock(&mut c, &l).is_ok() == open, "the checker of scripts agrees");
}

//@ prop=D03
//@ time=20
//@ covers=long enough|too short
//@ bounds=any lock of the four kinds, any number of blocks required
#[no_mangle]
pub extern "C" fn h_maturity() {
    let (l, need) = (lock(), sym::u64("required"));
    let ok = matches!(l, OutputTimeLock::ForBlockCount(n) if n >= need);
    let r = check_output_maturity_setting(&l, BlockCount::new(need), outpoint());
    if ok {
        sym::cover("long enough")
    } else {
        sym::cover("too short")
    }
    sym::check(r.is_ok() == ok, "an output that must mature is locked for at least the required number of blocks");
}

/// Records which leaves of a script are visited; each has a verdict of its own.
struct Visitor {
    verdicts: [bool; 6],
    seen: Vec<u64>,
}

#[derive(Debug)]
struct No;
impl std::fmt::Display for No {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for No {}

impl ScriptVisitor for Visitor {
    type SignatureError = No;
    type TimelockError = No;
    type HashlockError = No;
    fn visit_signature(&mut self, d: &Destination, _: &EvaluatedInputWitness) -> Result<(), No> {
        match d {
            Destination::ScriptHash(id) => self.leaf(id.to_hash().0[0] as u64),
            _ => Err(No),
        }
    }
    fn visit_timelock(&mut self, l: &OutputTimeLock) -> Result<(), No> {
        match l {
            OutputTimeLock::ForBlockCount(k) => self.leaf(*k),
            _ => Err(No),
        }
    }
    fn visit_hashlock(&mut self, _: &HashChallenge, p: &[u8; 32]) -> Result<(), No> {
        self.leaf(p[0] as u64)
    }
}

impl Visitor {
    fn leaf(&mut self, k: u64) -> Result<(), No> {
        self.seen.push(k);
        if self.verdicts[k as usize] {
            Ok(())
        } else {
            Err(No)
        }
    }
}

fn leaf(k: u8) -> WitnessScript {
    match k % 3 {
        0 => WitnessScript::timelock(OutputTimeLock::ForBlockCount(k as u64)),
        1 => WitnessScript::signature(dest(k), EvaluatedInputWitness::NoSignature(None)),
        _ => WitnessScript::hashlock(HashChallenge::Hash160([7; 20]), [k; 32]),
    }
}

const NOT: ScriptCondition = ScriptCondition::Dissatisfied(DissatisfiedScript::False);

//@ prop=D03
//@ time=60
//@ covers=satisfied|refused|nested
//@ bounds=an n-of-k of up to three conditions, each left out, a leaf or an n-of-2 of leaves; every leaf passes or fails as it likes
#[no_mangle]
pub extern "C" fn h_script() {
    let verdicts = [0u8; 6].map(|_| sym::boolean("verdict"));
    let k = sym::choose("conditions", 4);
    let need = sym::range("needed", 0, 3) as usize;
    let (mut next, mut conds) = (0u8, vec![]);
    // what must hold, in the order of the script
    let (mut given, mut want, mut good) = (0usize, vec![], true);
    for _ in 0..k {
        match sym::choose("condition", 3) {
            0 => conds.push(NOT),
            1 => {
                given += 1;
                want.push(next as u64);
                conds.push(ScriptCondition::Satisfied(leaf(next)));
                next += 1;
            }
            _ => {
                sym::assume(next <= 4);
                sym::cover("nested");
                given += 1;
                let both = sym::flag("both");
                let inner_need = sym::range("inner needed", 0, 2) as usize;
                let second = if both { ScriptCondition::Satisfied(leaf(next + 1)) } else { NOT };
                let inner = Threshold::new(inner_need, vec![ScriptCondition::Satisfied(leaf(next)), second]);
                want.push(next as u64);
                if both {
                    want.push(next as u64 + 1);
                }
                good &= inner_need == 1 + both as usize;
                conds.push(ScriptCondition::Satisfied(WitnessScript::Threshold(inner.unwrap())));
                next += 2;
            }
        }
    }
    let made = WitnessScript::threshold(need, conds);
    sym::check(made.is_ok() == (need <= k), "no more conditions can be required than there are");
    let Ok(script) = made else { return };
    let mut v = Visitor { verdicts, seen: vec![] };
    let ok = script.verify(&mut v).is_ok();
    let all = want.iter().all(|k| verdicts[*k as usize]);
    if ok {
        sym::cover("satisfied");
        sym::check(v.seen == want, "every condition claimed is checked once, in order");
    } else {
        sym::cover("refused");
        sym::check(v.seen.len() <= want.len() && v.seen[..] == want[..v.seen.len()], "conditions are checked in order");
    }
    sym::check(
        ok == (given == need && good && all),
        "a script holds exactly when each threshold is met exactly and all that is claimed holds",
    );
}

struct Ctx<'a> {
    info: InputInfo<'a>,
    witness: InputWitness,
    /// what the books were asked, and what they know
    known: bool,
    asked: RefCell<Vec<(u8, H256)>>,
}

impl InputInfoProvider for Ctx<'_> {
    fn input_info(&self) -> &InputInfo<'_> {
        &self.info
    }
    fn witness(&self) -> &InputWitness {
        &self.witness
    }
}

impl Ctx<'_> {
    fn ask(&self, k: u8, id: H256) -> Option<Destination> {
        self.asked.borrow_mut().push((k, id));
        self.known.then(|| dest(k))
    }
}

impl SignatureInfoProvider for Ctx<'_> {
    fn get_pool_decommission_destination(&self, id: &PoolId) -> Result<Option<Destination>, pos_accounting::Error> {
        Ok(self.ask(101, id.to_hash()))
    }
    fn get_delegation_spend_destination(&self, id: &DelegationId) -> Result<Option<Destination>, pos_accounting::Error> {
        Ok(self.ask(102, id.to_hash()))
    }
    fn get_tokens_authority(&self, id: &TokenId) -> Result<Option<Destination>, tokens_accounting::Error> {
        Ok(self.ask(103, id.to_hash()))
    }
    fn get_orders_conclude_destination(&self, id: &OrderId) -> Result<Option<Destination>, orders_accounting::Error> {
        Ok(self.ask(104, id.to_hash()))
    }
}

/// What a spend must show.
#[derive(Clone, PartialEq, Debug)]
enum Must {
    Sign(Destination),
    Wait(OutputTimeLock),
    Reveal([u8; 20]),
}

/// All that an accepted script demands, and the signatures and secrets offered for it.
struct Demands {
    must: Vec<Must>,
    offered: Vec<EvaluatedInputWitness>,
    secrets: Vec<[u8; 32]>,
}

impl ScriptVisitor for Demands {
    type SignatureError = No;
    type TimelockError = No;
    type HashlockError = No;
    fn visit_signature(&mut self, d: &Destination, w: &EvaluatedInputWitness) -> Result<(), No> {
        self.must.push(Must::Sign(d.clone()));
        self.offered.push(w.clone());
        Ok(())
    }
    fn visit_timelock(&mut self, l: &OutputTimeLock) -> Result<(), No> {
        self.must.push(Must::Wait(*l));
        Ok(())
    }
    fn visit_hashlock(&mut self, c: &HashChallenge, p: &[u8; 32]) -> Result<(), No> {
        match c {
            HashChallenge::Hash160(x) => self.must.push(Must::Reveal(*x)),
            _ => return Err(No),
        }
        self.secrets.push(*p);
        Ok(())
    }
}

fn demands(s: Result<WitnessScript, TranslationError>) -> Option<Demands> {
    let mut d = Demands { must: vec![], offered: vec![], secrets: vec![] };
    s.ok()?.verify(&mut d).ok()?;
    Some(d)
}

const SECRET: [u8; 32] = [55; 32];

struct Case {
    ctx: Ctx<'static>,
    /// what must be shown in a transaction, in a block reward; None when no spend is possible
    tx: Option<Vec<Must>>,
    reward: Option<Vec<Must>>,
    /// the book that has to be asked, and about what
    book: Option<(u8, H256)>,
    htlc_spend: bool,
}

fn case() -> Case {
    let l = lock();
    let v = OutputValue::Coin(Amount::from_atoms(sym::u128("amount")));
    let id = h(sym::range("id", 1, 3) as u8);
    let sig = |d: u8| Some(vec![Must::Sign(dest(d))]);
    let known = sym::boolean("known");
    let signed = sym::flag("signed");
    let mut witness = if signed {
        InputWitness::Standard(StandardInputSignature::new(SigHashType::all(), vec![9, sym::u8("signature")]))
    } else {
        InputWitness::NoSignature(None)
    };
    let (mut htlc_spend, mut book) = (false, None);
    let mut from_book = |k: u8| {
        book = Some((k, id));
        if known {
            sig(k)
        } else {
            None
        }
    };
    let utxo = |o: TxOutput| InputInfo::Utxo { outpoint: Box::leak(Box::new(outpoint())), utxo: o, utxo_source: None };
    let (info, tx, reward) = match sym::choose("input", 17) {
        0 => (utxo(TxOutput::Transfer(v, dest(1))), sig(1), None),
        1 => (utxo(TxOutput::LockThenTransfer(v, dest(1), l)), Some(vec![Must::Wait(l), Must::Sign(dest(1))]), None),
        2 => {
            let (_, vrf) = VRFPrivateKey::new_using_random_bytes(&[3; 32], VRFKeyKind::Schnorrkel).unwrap();
            let a = Amount::from_atoms(5);
            let data = StakePoolData::new(a, dest(2), vrf, dest(3), PerThousand::new(5).unwrap(), a);
            (utxo(TxOutput::CreateStakePool(PoolId::new(id), Box::new(data))), sig(3), sig(2))
        }
        3 => (utxo(TxOutput::ProduceBlockFromStake(dest(2), PoolId::new(id))), from_book(101), sig(2)),
        4 => {
            let nft = Metadata {
                creator: None,
                name: vec![1],
                description: vec![2],
                ticker: vec![3],
                icon_uri: None.into(),
                additional_metadata_uri: None.into(),
                media_uri: None.into(),
                media_hash: vec![4],
            };
            let nft = NftIssuance::V0(NftIssuanceV0 { metadata: nft });
            (utxo(TxOutput::IssueNft(TokenId::new(id), Box::new(nft), dest(1))), sig(1), None)
        }
        5 => {
            // a contract: the secret and the spend key, or the lock and the refund key
            let hash: [u8; 20] = sym::bytes("hash");
            let secret_hash = HtlcSecretHash(hash);
            let c = HashedTimelockContract { secret_hash, spend_key: dest(4), refund_timelock: l, refund_key: dest(5) };
            htlc_spend = true;
            let tx = match sym::choose("way", 3) {
                0 => {
                    let w = HtlcSpend::Spend(HtlcSecret::new(SECRET), vec![8, 9]).encode();
                    witness = InputWitness::Standard(StandardInputSignature::new(SigHashType::all(), w));
                    Some(vec![Must::Reveal(hash), Must::Sign(dest(4))])
                }
                1 => {
                    let w = HtlcSpend::Refund(vec![8, 9]).encode();
                    witness = InputWitness::Standard(StandardInputSignature::new(SigHashType::all(), w));
                    Some(vec![Must::Wait(l), Must::Sign(dest(5))])
                }
                _ => None,
            };
            (utxo(TxOutput::Htlc(v, Box::new(c))), tx, None)
        }
        6 => {
            let a = Amount::from_atoms(1);
            let o = match sym::choose("unspendable", 6) {
                0 => TxOutput::DelegateStaking(a, DelegationId::new(id)),
                1 => TxOutput::CreateDelegationId(dest(1), PoolId::new(id)),
                2 => TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(TokenIssuanceV1 {
                    token_ticker: vec![1],
                    number_of_decimals: 1,
                    metadata_uri: vec![],
                    total_supply: TokenTotalSupply::Unlimited,
                    authority: dest(1),
                    is_freezable: IsTokenFreezable::Yes,
                }))),
                3 => TxOutput::Burn(v),
                4 => TxOutput::DataDeposit(vec![1]),
                _ => TxOutput::CreateOrder(Box::new(OrderData::new(dest(1), v.clone(), v))),
            };
            (utxo(o), None, None)
        }
        7 => {
            let spend = AccountSpending::DelegationBalance(DelegationId::new(id), Amount::from_atoms(sym::u128("amount")));
            let o = Box::leak(Box::new(AccountOutPoint::new(AccountNonce::new(sym::u64("nonce")), spend)));
            (InputInfo::Account { outpoint: o }, from_book(102), None)
        }
        k @ 8..=14 => {
            let t = TokenId::new(id);
            let command = match k {
                8 => AccountCommand::MintTokens(t, Amount::from_atoms(sym::u128("amount"))),
                9 => AccountCommand::UnmintTokens(t),
                10 => AccountCommand::LockTokenSupply(t),
                11 => AccountCommand::FreezeToken(t, IsTokenUnfreezable::Yes),
                12 => AccountCommand::UnfreezeToken(t),
                13 => AccountCommand::ChangeTokenMetadataUri(t, vec![1]),
                _ => AccountCommand::ChangeTokenAuthority(t, dest(66)),
            };
            (InputInfo::AccountCommand { command: Box::leak(Box::new(command)) }, from_book(103), None)
        }
        15 => {
            // the old order commands: a fill needs no signature
            let (command, must) = if sym::flag("fill") {
                let a = Amount::from_atoms(sym::u128("amount"));
                (AccountCommand::FillOrder(OrderId::new(id), a, dest(66)), Some(vec![]))
            } else {
                (AccountCommand::ConcludeOrder(OrderId::new(id)), from_book(104))
            };
            (InputInfo::AccountCommand { command: Box::leak(Box::new(command)) }, must, None)
        }
        _ => {
            let o = OrderId::new(id);
            let (command, must) = match sym::choose("order", 3) {
                0 => (
                    OrderAccountCommand::FillOrder(o, Amount::from_atoms(sym::u128("amount"))),
                    Some(vec![Must::Sign(Destination::AnyoneCanSpend)]),
                ),
                1 => (OrderAccountCommand::FreezeOrder(o), from_book(104)),
                _ => (OrderAccountCommand::ConcludeOrder(o), from_book(104)),
            };
            (InputInfo::OrderAccountCommand { command: Box::leak(Box::new(command)) }, must, None)
        }
    };
    Case { ctx: Ctx { info, witness, known, asked: RefCell::new(vec![]) }, tx, reward, book, htlc_spend }
}

/// the witness handed to the signature check is the one that came with the input
fn witness_kept(c: &Case, d: &Demands) {
    let sent = match &c.ctx.witness {
        InputWitness::NoSignature(x) => EvaluatedInputWitness::NoSignature(x.clone()),
        InputWitness::Standard(s) if c.htlc_spend => {
            EvaluatedInputWitness::Standard(StandardInputSignature::new(s.sighash_type(), vec![8, 9]))
        }
        InputWitness::Standard(s) => EvaluatedInputWitness::Standard(s.clone()),
    };
    sym::check(d.offered.iter().all(|w| *w == sent), "the signature checked is the one given for this input");
    sym::check(d.secrets.iter().all(|s| *s == SECRET), "the secret checked is the one given for this input");
}

fn is_sign(m: &Must) -> bool {
    matches!(m, Must::Sign(_))
}

fn is_wait(m: &Must) -> bool {
    matches!(m, Must::Wait(_))
}

//@ prop=D03
//@ time=120
//@ covers=spendable|not spendable|asked
//@ bounds=an input of any kind, any lock, amounts and nonce, signed or not; both ways of spending a hashed contract
#[no_mangle]
pub extern "C" fn h_spend_in_transaction() {
    let c = case();
    let got = demands(<SignedTransaction as TranslateInput<Ctx>>::translate_input(&c.ctx));
    match (&got, &c.tx) {
        (Some(d), Some(m)) => {
            sym::cover("spendable");
            sym::check(d.must == *m, "a transaction input must show exactly what its kind calls for");
            witness_kept(&c, d);
        }
        (None, None) => sym::cover("not spendable"),
        _ => sym::fail("an input can be spent in a transaction exactly when its kind allows it"),
    }
    if let Some(b) = c.book {
        sym::cover("asked");
        sym::check(c.ctx.asked.borrow()[..] == [b], "the owner is looked up under the id the input names");
    }
    let only = demands(<SignatureOnlyTx as TranslateInput<Ctx>>::translate_input(&c.ctx));
    let want = c.tx.clone().map(|m| m.into_iter().filter(is_sign).collect::<Vec<_>>());
    sym::check(only.as_ref().map(|d| d.must.clone()) == want, "a signature-only check asks for the same signatures");
    if let Some(d) = &only {
        witness_kept(&c, d);
    }
}

//@ prop=D03
//@ time=60
//@ covers=locked|free|not spendable
//@ bounds=as in h_spend_in_transaction
#[no_mangle]
pub extern "C" fn h_spend_time_only() {
    let mut c = case();
    c.ctx.known = true;
    sym::assume(c.book.is_none() || c.tx.is_some());
    let got = demands(<TimelockOnly as TranslateInput<Ctx>>::translate_input(&c.ctx));
    let want = c.tx.clone().map(|m| m.into_iter().filter(is_wait).collect::<Vec<_>>());
    match &want {
        Some(w) if !w.is_empty() => sym::cover("locked"),
        Some(_) => sym::cover("free"),
        None => sym::cover("not spendable"),
    }
    sym::check(got.map(|d| d.must) == want, "a check of time locks alone asks for the same locks");
}

//@ prop=D03
//@ time=60
//@ covers=spendable|not spendable
//@ bounds=as in h_spend_in_transaction, in a block reward
#[no_mangle]
pub extern "C" fn h_spend_in_reward() {
    let c = case();
    let got = demands(<BlockRewardTransactable as TranslateInput<Ctx>>::translate_input(&c.ctx));
    match (&got, &c.reward) {
        (Some(d), Some(m)) => {
            sym::cover("spendable");
            sym::check(d.must == *m, "a block reward spends a stake with the key of its staker");
            witness_kept(&c, d);
        }
        (None, None) => sym::cover("not spendable"),
        _ => sym::fail("only a stake can be spent in a block reward"),
    }
}
