use chainstate_types::{storage_result, BlockIndex, BlockStatus, GenBlockIndex, TipStorageTag};
use common::chain::{
    block::{timestamp::BlockTimestamp, BlockReward, ConsensusData},
    config::create_unit_test_config_builder,
    make_delegation_id, make_order_id, make_pool_id, make_token_id,
    output_value::OutputValue,
    signature::inputsig::InputWitness,
    stakelock::StakePoolData,
    timelock::OutputTimeLock,
    tokens::*,
    AccountCommand, AccountNonce, AccountSpending, AccountType, Block, ChainConfig, DelegationId, Destination, GenBlock,
    OrderAccountCommand, OrderId, OutPointSourceId, PoolId, SignedTransaction, Transaction, TxInput, TxOutput,
    UtxoOutPoint,
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, Idable, H256};
use common::Uint256;
use crypto::vrf::{VRFKeyKind, VRFReturn, VRFPrivateKey, VRFPublicKey};
use orders_accounting::*;
use pos_accounting::*;
use std::{collections::BTreeMap, result::Result};
use tokens_accounting::{TokenData, *};
use tx_verifier::{
    flush_to_storage,
    transaction_verifier::{CachedBlockUndo, CachedUtxosBlockUndo, TransactionSourceForConnect},
    TransactionSource, TransactionVerifier, TransactionVerifierStorageError as Error, TransactionVerifierStorageMut,
    TransactionVerifierStorageRef,
};
use utxo::{ConsumedUtxoCache, FlushableUtxoView, Utxo, UtxoSource, UtxosStorageRead};

const ANY: Destination = Destination::AnyoneCanSpend;
const OTHER: Destination = Destination::PublicKeyHash(common::address::pubkeyhash::PublicKeyHash([7; 20]));
const RICH: u128 = 1 << 70;

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}
fn h(k: u8) -> H256 {
    H256([k; 32])
}
fn tid() -> TokenId {
    TokenId::new(h(1))
}
fn did() -> DelegationId {
    DelegationId::new(h(2))
}
fn pid() -> PoolId {
    PoolId::new(h(3))
}
fn oid() -> OrderId {
    OrderId::new(h(4))
}
/// coins, tokens, the stake, a locked output, more coins
fn out(index: u32) -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(1))), index)
}
fn token(v: u128) -> OutputValue {
    OutputValue::TokenV1(tid(), am(v))
}
fn coin(v: u128) -> OutputValue {
    OutputValue::Coin(am(v))
}
fn pay(v: OutputValue) -> TxOutput {
    TxOutput::Transfer(v, ANY)
}

/// The whole state in memory; everything is compared.
#[derive(Clone, PartialEq)]
struct Base {
    utxos: BTreeMap<UtxoOutPoint, Utxo>,
    best: Id<GenBlock>,
    pos: InMemoryPoSAccounting,
    /// the same, from the changes reported block by block
    sealed: InMemoryPoSAccounting,
    tokens: InMemoryTokensAccounting,
    orders: InMemoryOrdersAccounting,
    nonces: BTreeMap<AccountType, AccountNonce>,
    aux: BTreeMap<TokenId, Vec<u8>>,
    issued: BTreeMap<Id<Transaction>, TokenId>,
    undo: BTreeMap<TransactionSource, CachedUtxosBlockUndo>,
    undo_pos: BTreeMap<TransactionSource, CachedBlockUndo<PoSAccountingUndo>>,
    undo_tokens: BTreeMap<TransactionSource, CachedBlockUndo<TokenAccountingUndo>>,
    undo_orders: BTreeMap<TransactionSource, CachedBlockUndo<OrdersAccountingUndo>>,
}

impl UtxosStorageRead for Base {
    type Error = storage_result::Error;
    fn get_utxo(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, storage_result::Error> {
        Ok(self.utxos.get(o).cloned())
    }
    fn get_best_block_for_utxos(&self) -> Result<Id<GenBlock>, storage_result::Error> {
        Ok(self.best)
    }
}

impl PoSAccountingStorageRead<TipStorageTag> for Base {
    type Error = pos_accounting::Error;
    fn get_pool_balance(&self, p: PoolId) -> Result<Option<Amount>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_balance(&self.pos, p)
    }
    fn get_pool_data(&self, p: PoolId) -> Result<Option<PoolData>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_data(&self.pos, p)
    }
    fn get_delegation_balance(&self, d: DelegationId) -> Result<Option<Amount>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_delegation_balance(&self.pos, d)
    }
    fn get_delegation_data(&self, d: DelegationId) -> Result<Option<DelegationData>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_delegation_data(&self.pos, d)
    }
    fn get_pool_delegations_shares(
        &self,
        p: PoolId,
    ) -> Result<Option<BTreeMap<DelegationId, Amount>>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_delegations_shares(&self.pos, p)
    }
    fn get_pool_delegation_share(&self, p: PoolId, d: DelegationId) -> Result<Option<Amount>, pos_accounting::Error> {
        PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_delegation_share(&self.pos, p, d)
    }
}

impl TokensAccountingStorageRead for Base {
    type Error = storage_result::Error;
    fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, storage_result::Error> {
        self.tokens.get_token_data(id)
    }
    fn get_circulating_supply(&self, id: &TokenId) -> Result<Option<Amount>, storage_result::Error> {
        self.tokens.get_circulating_supply(id)
    }
}

impl OrdersAccountingStorageRead for Base {
    type Error = orders_accounting::Error;
    fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, orders_accounting::Error> {
        self.orders.get_order_data(id)
    }
    fn get_ask_balance(&self, id: &OrderId) -> Result<Option<Amount>, orders_accounting::Error> {
        self.orders.get_ask_balance(id)
    }
    fn get_give_balance(&self, id: &OrderId) -> Result<Option<Amount>, orders_accounting::Error> {
        self.orders.get_give_balance(id)
    }
    fn get_all_order_ids(&self) -> Result<std::collections::BTreeSet<OrderId>, orders_accounting::Error> {
        self.orders.get_all_order_ids()
    }
}

impl TransactionVerifierStorageRef for Base {
    type Error = Error;
    fn get_token_id_from_issuance_tx(&self, t: Id<Transaction>) -> Result<Option<TokenId>, Error> {
        Ok(self.issued.get(&t).copied())
    }
    fn get_gen_block_index(&self, _: &Id<GenBlock>) -> Result<Option<GenBlockIndex>, storage_result::Error> {
        Ok(None)
    }
    fn get_undo_data(&self, s: TransactionSource) -> Result<Option<CachedUtxosBlockUndo>, Error> {
        Ok(self.undo.get(&s).cloned())
    }
    fn get_token_aux_data(&self, t: &TokenId) -> Result<Option<TokenAuxiliaryData>, Error> {
        use serialization::DecodeAll;
        Ok(self.aux.get(t).map(|d| TokenAuxiliaryData::decode_all(&mut d.as_slice()).unwrap()))
    }
    fn get_pos_accounting_undo(&self, s: TransactionSource) -> Result<Option<CachedBlockUndo<PoSAccountingUndo>>, Error> {
        Ok(self.undo_pos.get(&s).cloned())
    }
    fn get_tokens_accounting_undo(
        &self,
        s: TransactionSource,
    ) -> Result<Option<CachedBlockUndo<TokenAccountingUndo>>, Error> {
        Ok(self.undo_tokens.get(&s).cloned())
    }
    fn get_account_nonce_count(&self, a: AccountType) -> Result<Option<AccountNonce>, Error> {
        Ok(self.nonces.get(&a).copied())
    }
    fn get_orders_accounting_undo(
        &self,
        s: TransactionSource,
    ) -> Result<Option<CachedBlockUndo<OrdersAccountingUndo>>, Error> {
        Ok(self.undo_orders.get(&s).cloned())
    }
}

impl FlushableUtxoView for Base {
    type Error = utxo::Error;
    fn batch_write(&mut self, c: ConsumedUtxoCache) -> Result<(), utxo::Error> {
        let mut db = utxo::UtxosDBInMemoryImpl::new(self.best, std::mem::take(&mut self.utxos));
        utxo::UtxosDB::new(&mut db).batch_write(c).unwrap();
        self.utxos = db.utxos().clone();
        self.best = UtxosStorageRead::get_best_block_for_utxos(&db).unwrap();
        Ok(())
    }
}
impl FlushablePoSAccountingView for Base {
    type Error = pos_accounting::Error;
    fn batch_write_delta(&mut self, d: PoSAccountingDeltaData) -> Result<DeltaMergeUndo, pos_accounting::Error> {
        PoSAccountingDB::<_, DefaultStorageTag>::new(&mut self.pos).batch_write_delta(d)
    }
}
impl FlushableTokensAccountingView for Base {
    type Error = tokens_accounting::Error;
    fn batch_write_tokens_data(
        &mut self,
        d: TokensAccountingDeltaData,
    ) -> Result<TokensAccountingDeltaUndoData, tokens_accounting::Error> {
        TokensAccountingDB::new(&mut self.tokens).batch_write_tokens_data(d)
    }
}
impl FlushableOrdersAccountingView for Base {
    type Error = orders_accounting::Error;
    fn batch_write_orders_data(
        &mut self,
        d: OrdersAccountingDeltaData,
    ) -> Result<OrdersAccountingDeltaUndoData, orders_accounting::Error> {
        OrdersAccountingDB::new(&mut self.orders).batch_write_orders_data(d)
    }
}

impl TransactionVerifierStorageMut for Base {
    fn set_token_aux_data(&mut self, t: &TokenId, d: &TokenAuxiliaryData) -> Result<(), Error> {
        use serialization::Encode;
        sym::check(self.aux.insert(*t, d.encode()).is_none(), "a token is recorded once");
        Ok(())
    }
    fn del_token_aux_data(&mut self, t: &TokenId) -> Result<(), Error> {
        self.aux.remove(t);
        Ok(())
    }
    fn set_token_id(&mut self, x: &Id<Transaction>, t: &TokenId) -> Result<(), Error> {
        self.issued.insert(*x, *t);
        Ok(())
    }
    fn del_token_id(&mut self, x: &Id<Transaction>) -> Result<(), Error> {
        self.issued.remove(x);
        Ok(())
    }
    fn set_utxo_undo_data(&mut self, s: TransactionSource, u: &CachedUtxosBlockUndo) -> Result<(), Error> {
        self.undo.insert(s, u.clone());
        Ok(())
    }
    fn del_utxo_undo_data(&mut self, s: TransactionSource) -> Result<(), Error> {
        self.undo.remove(&s);
        Ok(())
    }
    fn set_pos_accounting_undo_data(
        &mut self,
        s: TransactionSource,
        u: &CachedBlockUndo<PoSAccountingUndo>,
    ) -> Result<(), Error> {
        self.undo_pos.insert(s, u.clone());
        Ok(())
    }
    fn del_pos_accounting_undo_data(&mut self, s: TransactionSource) -> Result<(), Error> {
        self.undo_pos.remove(&s);
        Ok(())
    }
    fn apply_accounting_delta(&mut self, _: TransactionSource, d: &PoSAccountingDeltaData) -> Result<(), Error> {
        PoSAccountingDB::<_, DefaultStorageTag>::new(&mut self.sealed).batch_write_delta(d.clone())?;
        Ok(())
    }
    fn set_account_nonce_count(&mut self, a: AccountType, n: AccountNonce) -> Result<(), Error> {
        self.nonces.insert(a, n);
        Ok(())
    }
    fn del_account_nonce_count(&mut self, a: AccountType) -> Result<(), Error> {
        self.nonces.remove(&a);
        Ok(())
    }
    fn set_tokens_accounting_undo_data(
        &mut self,
        s: TransactionSource,
        u: &CachedBlockUndo<TokenAccountingUndo>,
    ) -> Result<(), Error> {
        self.undo_tokens.insert(s, u.clone());
        Ok(())
    }
    fn del_tokens_accounting_undo_data(&mut self, s: TransactionSource) -> Result<(), Error> {
        self.undo_tokens.remove(&s);
        Ok(())
    }
    fn set_orders_accounting_undo_data(
        &mut self,
        s: TransactionSource,
        u: &CachedBlockUndo<OrdersAccountingUndo>,
    ) -> Result<(), Error> {
        self.undo_orders.insert(s, u.clone());
        Ok(())
    }
    fn del_orders_accounting_undo_data(&mut self, s: TransactionSource) -> Result<(), Error> {
        self.undo_orders.remove(&s);
        Ok(())
    }
}

/// The numbers of the state that vary.
#[derive(Clone)]
struct Given {
    nonce: Option<u64>,
    supply: u64,
    max: u64,
    locked: bool,
    frozen: bool,
    may: bool,
    order_frozen: bool,
    ask: u64,
    share: u64,
    until: u64,
    lockable: bool,
    mine: bool,
}

impl Given {
    fn any() -> Given {
        Given {
            nonce: None,
            supply: 40,
            max: 100,
            locked: false,
            frozen: false,
            may: true,
            order_frozen: false,
            ask: 60,
            share: 30,
            until: 0,
            lockable: false,
            mine: true,
        }
    }
    fn owner(&self) -> Destination {
        if self.mine {
            ANY
        } else {
            OTHER
        }
    }
    fn token(&self) -> FungibleTokenData {
        FungibleTokenData::new_unchecked(
            b"T".to_vec(),
            0,
            b"x".to_vec(),
            if self.lockable { TokenTotalSupply::Lockable } else { TokenTotalSupply::Fixed(am(self.max.into())) },
            self.locked,
            if self.frozen {
                IsTokenFrozen::Yes(if self.may { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No })
            } else {
                IsTokenFrozen::No(if self.may { IsTokenFreezable::Yes } else { IsTokenFreezable::No })
            },
            self.owner(),
        )
    }
    fn base(&self, vrf: &VRFPublicKey) -> Base {
        let src = UtxoSource::Blockchain(BlockHeight::new(1));
        let stake = StakePoolData::new(am(500), ANY, vrf.clone(), self.owner(), PerThousand::new(10).unwrap(), am(1));
        let outs = [
            pay(coin(RICH)),
            TxOutput::Transfer(token(9), ANY),
            TxOutput::CreateStakePool(pid(), Box::new(stake.clone())),
            TxOutput::LockThenTransfer(coin(5), self.owner(), OutputTimeLock::UntilHeight(BlockHeight::new(self.until))),
            pay(coin(77)),
        ];
        let pos = InMemoryPoSAccounting::from_values(
            BTreeMap::from([(pid(), PoolData::from(stake))]),
            BTreeMap::from([(pid(), am(500 + self.share as u128))]),
            BTreeMap::from([((pid(), did()), am(self.share.into()))]),
            BTreeMap::from([(did(), am(self.share.into()))]),
            BTreeMap::from([(did(), DelegationData::new(pid(), self.owner()))]),
        );
        let accounts = [AccountType::Delegation(did()), AccountType::Token(tid()), AccountType::Order(oid())];
        Base {
            utxos: outs.into_iter().enumerate().map(|(k, o)| (out(k as u32), Utxo::new(o, src.clone()))).collect(),
            best: Id::new(h(9)),
            sealed: pos.clone(),
            pos,
            tokens: InMemoryTokensAccounting::from_values(
                BTreeMap::from([(tid(), TokenData::FungibleToken(self.token()))]),
                BTreeMap::from([(tid(), am(self.supply.into()))]),
            ),
            orders: InMemoryOrdersAccounting::from_values(
                BTreeMap::from([(oid(), OrderData::new_generic(self.owner(), coin(100), token(50), self.order_frozen))]),
                BTreeMap::from([(oid(), am(self.ask.into()))]),
                BTreeMap::from([(oid(), am(45))]),
            ),
            nonces: self.nonce.iter().flat_map(|n| accounts.map(|a| (a, AccountNonce::new(*n)))).collect(),
            aux: BTreeMap::new(),
            issued: BTreeMap::new(),
            undo: BTreeMap::new(),
            undo_pos: BTreeMap::new(),
            undo_tokens: BTreeMap::new(),
            undo_orders: BTreeMap::new(),
        }
    }
}

fn index(height: u64) -> BlockIndex {
    let t = BlockTimestamp::from_int_seconds(1000);
    let b = Block::new(vec![], Id::new(h(9)), t, ConsensusData::None, BlockReward::new(vec![])).unwrap();
    BlockIndex::new(&b, Uint256::ONE, Id::new(h(9)), BlockHeight::new(height), t, 0, BlockStatus::new())
}

fn sign(ins: Vec<TxInput>, outs: Vec<TxOutput>) -> SignedTransaction {
    let sigs = ins.iter().map(|_| InputWitness::NoSignature(None)).collect();
    SignedTransaction::new(Transaction::new(0, ins, outs).unwrap(), sigs).unwrap()
}

fn config() -> ChainConfig {
    create_unit_test_config_builder().build()
}

fn flush<C, S, U, A, T, O>(base: &Base, v: TransactionVerifier<C, S, U, A, T, O>) -> Base
where
    C: AsRef<ChainConfig>,
    S: TransactionVerifierStorageRef,
    U: utxo::UtxosView,
    A: PoSAccountingView,
    T: TokensAccountingView,
    O: OrdersAccountingView,
    <S as UtxosStorageRead>::Error: From<U::Error>,
{
    let delta = v.consume().unwrap();
    let mut b = base.clone();
    flush_to_storage(&mut b, delta).unwrap();
    b
}

fn time() -> BlockTimestamp {
    BlockTimestamp::from_int_seconds(2000)
}

/// What a transaction of the given kind does to the state, if it is allowed.
struct Case {
    ins: Vec<TxInput>,
    outs: Vec<TxOutput>,
    allowed: bool,
    /// the account whose nonce it uses
    account: Option<AccountType>,
}

fn utxo_in(k: u32) -> TxInput {
    TxInput::Utxo(out(k))
}

/// The state after the transaction.
fn after(base: &Base, c: &Case, t: &SignedTransaction, height: u64, nonce: u64) -> Base {
    let mut b = base.clone();
    for i in &c.ins {
        if let TxInput::Utxo(o) = i {
            b.utxos.remove(o);
        }
    }
    let id = OutPointSourceId::Transaction(t.transaction().get_id());
    for (k, o) in c.outs.iter().enumerate() {
        if matches!(
            o,
            TxOutput::Transfer(..)
                | TxOutput::LockThenTransfer(..)
                | TxOutput::CreateStakePool(..)
                | TxOutput::IssueNft(..)
                | TxOutput::Htlc(..)
        ) {
            let u = Utxo::new(o.clone(), UtxoSource::Blockchain(BlockHeight::new(height)));
            b.utxos.insert(UtxoOutPoint::new(id.clone(), k as u32), u);
        }
    }
    if let Some(a) = c.account {
        b.nonces.insert(a, AccountNonce::new(nonce));
    }
    b
}

/// the parts of the state that are not undo records
fn same(a: &Base, b: &Base) {
    sym::check(a.utxos == b.utxos, "outputs are spent and made as the transaction says");
    sym::check(a.pos == b.pos, "pools and delegations change as the transaction says");
    sym::check(a.sealed == b.sealed, "the reported changes of pools are the changes made");
    sym::check(a.tokens == b.tokens, "tokens change as the transaction says");
    sym::check(a.orders == b.orders, "orders change as the transaction says");
    sym::check(a.nonces == b.nonces, "only the nonce used is stored");
    sym::check(a.best == b.best, "the best block stays");
}

fn run(base: &Base, c: Case, expected: impl FnOnce(&mut Base), height: u64, nonce: u64) {
    let cfg = config();
    let idx = index(height);
    let src = TransactionSourceForConnect::for_chain(&idx);
    let t = sign(c.ins.clone(), c.outs.clone());
    let mut v = TransactionVerifier::new(base, &cfg);
    let r = v.connect_transaction(&src, &t, &time());
    sym::check(r.is_ok() == c.allowed, "a transaction is accepted exactly if its rules hold");
    if r.is_err() {
        sym::cover("refused");
        return;
    }
    sym::cover("accepted");
    let mut want = after(base, &c, &t, height, nonce);
    expected(&mut want);
    let way = sym::choose("way", 3);
    let from = TransactionSource::from(&src);
    match way {
        // written, and taken back by a later verifier
        0 => {
            sym::check(v.connect_transaction(&src, &t, &time()).is_err(), "a transaction is not accepted twice");
            let b = {
                let mut v = TransactionVerifier::new(base, &cfg);
                v.connect_transaction(&src, &t, &time()).unwrap();
                flush(base, v)
            };
            same(&b, &want);
            let mut v = TransactionVerifier::new(&b, &cfg);
            sym::check(v.disconnect_transaction(&from, &t).is_ok(), "a transaction can be taken back");
            sym::check(flush(&b, v) == *base, "taking a transaction back restores everything");
        }
        // taken back at once
        1 => {
            sym::check(v.disconnect_transaction(&from, &t).is_ok(), "a transaction can be taken back at once");
            if sym::flag("again") {
                sym::check(v.connect_transaction(&src, &t, &time()).is_ok(), "a transaction taken back is accepted again");
                same(&flush(base, v), &want);
            } else {
                sym::check(flush(base, v) == *base, "taking a transaction back at once restores everything");
            }
        }
        // through a child
        _ => {
            let mut p = TransactionVerifier::new(base, &cfg);
            let delta = {
                let mut v = p.derive_child();
                v.connect_transaction(&src, &t, &time()).unwrap();
                v.consume().unwrap()
            };
            flush_to_storage(&mut p, delta).unwrap();
            let undone = sym::flag("undone");
            if undone {
                let delta = {
                    let mut v = p.derive_child();
                    sym::check(v.disconnect_transaction(&from, &t).is_ok(), "a child takes a transaction back");
                    v.consume().unwrap()
                };
                flush_to_storage(&mut p, delta).unwrap();
                sym::check(flush(base, p) == *base, "taking a transaction back through a child restores everything");
            } else {
                let b = flush(base, p);
                same(&b, &want);
                sym::check(b == flush(base, v), "a transaction has the same effect through a child");
            }
        }
    }
}

/// the nonce stored and whether the one given is the next
fn nonces(g: &mut Given) -> (u64, bool) {
    let given = [0, 1, 6, u64::MAX][sym::choose("nonce", 4)];
    g.nonce = if sym::boolean("used before") { Some(sym::u64("stored")) } else { None };
    (given, match g.nonce {
        None => given == 0,
        Some(n) => n != u64::MAX && given == n + 1,
    })
}

fn vrf() -> VRFPublicKey {
    VRFPrivateKey::new_using_random_bytes(&[3; 32], VRFKeyKind::Schnorrkel).unwrap().1
}

//@ prop=D06
//@ time=120
//@ covers=accepted|refused
//@ bounds=one transaction with one token command of any kind on a token in any state, any stored nonce and supply
#[no_mangle]
pub extern "C" fn h_connect_token() {
    let vrf = vrf();
    let mut g = Given::any();
    let (n, next) = nonces(&mut g);
    g.supply = sym::range("supply", 0, 1 << 40);
    g.max = sym::range("max", 0, 1 << 40);
    sym::assume(g.supply <= g.max && g.supply > 0);
    g.locked = sym::boolean("locked");
    g.frozen = sym::boolean("frozen");
    g.may = sym::boolean("may");
    g.lockable = sym::boolean("lockable");
    // only a token whose supply may be locked can be
    sym::assume(!g.locked || g.lockable);
    g.mine = sym::flag("mine");
    let base = g.base(&vrf);
    let next = next && g.mine;
    let live = next && !g.frozen;
    let supply = |b: &mut Base, v: u128| {
        if v == 0 {
            b.tokens.del_circulating_supply(&tid()).unwrap()
        } else {
            b.tokens.set_circulating_supply(&tid(), &am(v)).unwrap()
        }
    };
    let data = |b: &mut Base, g: Given| b.tokens.set_token_data(&tid(), &TokenData::FungibleToken(g.token())).unwrap();
    let (cmd, outs, allowed) = match sym::choose("command", 7) {
        0 => (
            AccountCommand::MintTokens(tid(), am(5)),
            vec![pay(token(5))],
            live && !g.locked && (g.lockable || g.supply + 5 <= g.max),
        ),
        1 => (
            AccountCommand::UnmintTokens(tid()),
            vec![TxOutput::Burn(token(3)), pay(token(6))],
            live && !g.locked && g.supply >= 3,
        ),
        2 => (AccountCommand::LockTokenSupply(tid()), vec![pay(coin(1))], live && g.lockable && !g.locked),
        3 => (AccountCommand::FreezeToken(tid(), IsTokenUnfreezable::Yes), vec![pay(coin(1))], live && g.may),
        4 => (AccountCommand::UnfreezeToken(tid()), vec![pay(coin(1))], next && g.frozen && g.may),
        5 => (AccountCommand::ChangeTokenAuthority(tid(), OTHER), vec![pay(coin(1))], live),
        _ => (AccountCommand::ChangeTokenMetadataUri(tid(), b"http://a.b".to_vec()), vec![pay(coin(1))], live),
    };
    let mut ins = vec![utxo_in(0), TxInput::from_command(AccountNonce::new(n), cmd.clone())];
    if matches!(cmd, AccountCommand::UnmintTokens(_)) {
        ins.push(utxo_in(1));
    }
    let c = Case { ins, outs, allowed, account: Some(AccountType::Token(tid())) };
    let effect = |b: &mut Base| match cmd {
        AccountCommand::MintTokens(..) => supply(b, g.supply as u128 + 5),
        AccountCommand::UnmintTokens(..) => supply(b, g.supply as u128 - 3),
        AccountCommand::LockTokenSupply(_) => data(b, Given { locked: true, ..g.clone() }),
        AccountCommand::FreezeToken(..) => data(b, Given { frozen: true, may: true, ..g.clone() }),
        AccountCommand::UnfreezeToken(_) => data(b, Given { frozen: false, may: true, ..g.clone() }),
        AccountCommand::ChangeTokenAuthority(..) => data(b, Given { mine: false, ..g.clone() }),
        _ => {
            let d = FungibleTokenData::new_unchecked(
                b"T".to_vec(),
                0,
                b"http://a.b".to_vec(),
                if g.lockable { TokenTotalSupply::Lockable } else { TokenTotalSupply::Fixed(am(g.max.into())) },
                g.locked,
                IsTokenFrozen::No(if g.may { IsTokenFreezable::Yes } else { IsTokenFreezable::No }),
                ANY,
            );
            b.tokens.set_token_data(&tid(), &TokenData::FungibleToken(d)).unwrap()
        }
    };
    run(&base, c, effect, 5, n);
}

/// pools and delegations of a state: the stake and the balance, and what of the delegation remains
fn pos(b: &mut Base, pool: Option<(PoolData, u128)>, share: u128, more: Vec<(DelegationId, DelegationData)>, new: Vec<(PoolId, PoolData, u128)>) {
    let nz = |v: u128| if v == 0 { vec![] } else { vec![v] };
    let mut data: BTreeMap<_, _> = pool.iter().map(|(d, _)| (pid(), d.clone())).collect();
    let mut balance: BTreeMap<_, _> = pool.iter().map(|(_, v)| (pid(), am(*v))).collect();
    for (p, d, v) in new {
        data.insert(p, d);
        balance.insert(p, am(v));
    }
    b.pos = InMemoryPoSAccounting::from_values(
        data,
        balance,
        nz(share).into_iter().map(|v| ((pid(), did()), am(v))).collect(),
        nz(share).into_iter().map(|v| (did(), am(v))).collect(),
        [(did(), DelegationData::new(pid(), ANY))].into_iter().chain(more).collect(),
    );
    b.sealed = b.pos.clone();
}

//@ prop=D06
//@ time=120
//@ covers=accepted|refused
//@ bounds=one transaction that withdraws from or adds to a delegation, makes a pool or delegation or closes a pool, any stored nonce and balance
#[no_mangle]
pub extern "C" fn h_connect_pool() {
    let vrf = vrf();
    let cfg = config();
    let mut g = Given::any();
    let kind = sym::choose("kind", 5);
    let (n, next) = if kind == 0 { nonces(&mut g) } else { (0, true) };
    g.share = sym::range("share", 1, 1 << 40);
    let share = g.share as u128;
    g.mine = sym::flag("mine") || !matches!(kind, 0 | 4);
    let base = g.base(&vrf);
    let min = cfg.min_stake_pool_pledge().into_atoms();
    let stake = |v: u128| StakePoolData::new(am(v), ANY, vrf.clone(), OTHER, PerThousand::new(20).unwrap(), am(2));
    let old = (PoolData::from(StakePoolData::new(am(500), ANY, vrf.clone(), ANY, PerThousand::new(10).unwrap(), am(1))), 500 + share);
    let mature = |at| OutputTimeLock::ForBlockCount(cfg.staking_pool_spend_maturity_block_count(at).to_int());
    let height = 5;
    let lock = mature(BlockHeight::new(height));
    let ins = vec![utxo_in(0)];
    let made = make_pool_id(&ins).unwrap();
    let deleg = make_delegation_id(&ins).unwrap();
    match kind {
        0 => {
            let spend = TxInput::from_account(AccountNonce::new(n), AccountSpending::DelegationBalance(did(), am(7)));
            let outs = vec![TxOutput::LockThenTransfer(coin(7), ANY, lock)];
            let c = Case { ins: vec![spend], outs, allowed: next && g.mine && share >= 7, account: Some(AccountType::Delegation(did())) };
            run(&base, c, |b| pos(b, Some((old.0, 493 + share)), share - 7, vec![], vec![]), height, n)
        }
        1 => {
            let c = Case { ins, outs: vec![TxOutput::DelegateStaking(am(11), did())], allowed: true, account: None };
            run(&base, c, |b| pos(b, Some((old.0, 511 + share)), share + 11, vec![], vec![]), height, n)
        }
        2 => {
            let pledge = min - sym::choose("missing", 2) as u128;
            let id = if sym::flag("right id") { made } else { pid() };
            let outs = vec![TxOutput::CreateStakePool(id, Box::new(stake(pledge)))];
            let c = Case { ins, outs, allowed: pledge == min && id == made, account: None };
            run(&base, c, |b| pos(b, Some(old), share, vec![], vec![(made, stake(min).into(), min)]), height, n)
        }
        3 => {
            let outs = vec![TxOutput::CreateDelegationId(OTHER, if sym::flag("known pool") { pid() } else { made })];
            let allowed = matches!(outs[0], TxOutput::CreateDelegationId(_, p) if p == pid());
            let c = Case { ins, outs, allowed, account: None };
            run(&base, c, |b| pos(b, Some(old), share, vec![(deleg, DelegationData::new(pid(), OTHER))], vec![]), height, n)
        }
        _ => {
            let v = 499 + sym::choose("withdrawn", 3) as u128;
            let outs = vec![TxOutput::LockThenTransfer(coin(v), ANY, lock)];
            let c = Case { ins: vec![utxo_in(2)], outs, allowed: g.mine && v <= 500, account: None };
            run(&base, c, |b| pos(b, None, share, vec![], vec![]), height, n)
        }
    }
}

//@ prop=D06
//@ time=120
//@ covers=accepted|refused
//@ bounds=one transaction that makes, fills, closes or freezes an order, frozen or not, over a token frozen or not, any amount left to ask below 2^40
#[no_mangle]
pub extern "C" fn h_connect_order() {
    let vrf = vrf();
    let mut g = Given::any();
    g.ask = sym::range("ask", 1, 100);
    g.order_frozen = sym::boolean("frozen");
    g.frozen = sym::boolean("token frozen");
    g.mine = sym::flag("mine");
    let base = g.base(&vrf);
    let set = |b: &mut Base, ask: u128, give: u128| {
        b.orders.set_ask_balance(&oid(), &am(ask)).unwrap();
        b.orders.set_give_balance(&oid(), &am(give)).unwrap();
        if ask == 0 {
            b.orders.del_ask_balance(&oid()).unwrap()
        }
        if give == 0 {
            b.orders.del_give_balance(&oid()).unwrap()
        }
    };
    let ask = g.ask as u128;
    let ins = vec![utxo_in(0)];
    let made = make_order_id(&ins).unwrap();
    let (mut all, mut outs) = (ins.clone(), vec![]);
    let kind = sym::choose("kind", 4);
    let allowed = match kind {
        0 => {
            let o = common::chain::OrderData::new(OTHER, token(8), coin(6));
            outs.push(TxOutput::CreateOrder(Box::new(o)));
            !g.frozen
        }
        1 => {
            all.push(TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(oid(), am(10))));
            outs.push(pay(token(5)));
            !g.order_frozen && !g.frozen && ask >= 10
        }
        2 => {
            all.push(TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(oid())));
            outs.push(pay(token(45)));
            outs.push(pay(coin(100 - 60)));
            !g.frozen && g.mine
        }
        _ => {
            all.push(TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(oid())));
            outs.push(pay(coin(1)));
            !g.order_frozen && g.mine
        }
    };
    let effect = |b: &mut Base| match kind {
        0 => {
            let o = orders_accounting::OrderData::new_generic(OTHER, token(8), coin(6), false);
            b.orders.set_order_data(&made, &o).unwrap();
            b.orders.set_ask_balance(&made, &am(8)).unwrap();
            b.orders.set_give_balance(&made, &am(6)).unwrap();
        }
        1 => set(b, ask - 10, 40),
        2 => {
            b.orders.del_order_data(&oid()).unwrap();
            set(b, 0, 0)
        }
        _ => {
            let o = orders_accounting::OrderData::new_generic(g.owner(), coin(100), token(50), true);
            b.orders.set_order_data(&oid(), &o).unwrap()
        }
    };
    run(&base, Case { ins: all, outs, allowed, account: None }, effect, 5, 0);
}

//@ prop=D06
//@ time=120
//@ covers=accepted|refused
//@ bounds=one transaction that pays, locks, burns, issues or deposits coins or tokens, frozen or not, or spends an output locked to any height at any height below 2^40
#[no_mangle]
pub extern "C" fn h_connect_outputs() {
    let vrf = vrf();
    let cfg = config();
    let mut g = Given::any();
    g.frozen = sym::boolean("frozen");
    let height = sym::range("height", 2, 1 << 40);
    let v = if sym::flag("tokens") { token(9) } else { coin(9) };
    let tokens = v == token(9);
    let mut ins = vec![utxo_in(0)];
    if tokens {
        ins.push(utxo_in(1));
    }
    let kind = sym::choose("kind", 9);
    let lock = OutputTimeLock::ForSeconds(1);
    let id = make_token_id(&cfg, BlockHeight::new(height), &ins).unwrap();
    let issue = TokenIssuanceV1 {
        token_ticker: b"ABC".to_vec(),
        number_of_decimals: 2,
        metadata_uri: b"http://a.b".to_vec(),
        total_supply: TokenTotalSupply::Lockable,
        authority: OTHER,
        is_freezable: IsTokenFreezable::Yes,
    };
    let nft = NftIssuanceV0 {
        metadata: Metadata {
            creator: None,
            name: b"N".to_vec(),
            description: b"D".to_vec(),
            ticker: b"T".to_vec(),
            icon_uri: None::<Vec<u8>>.into(),
            additional_metadata_uri: None::<Vec<u8>>.into(),
            media_uri: None::<Vec<u8>>.into(),
            media_hash: vec![1; 20],
        },
    };
    let (outs, mut allowed) = match kind {
        0 => (vec![pay(v.clone())], true),
        1 => (vec![TxOutput::LockThenTransfer(v.clone(), OTHER, lock)], true),
        2 => (vec![TxOutput::Burn(v.clone())], true),
        3 => (
            vec![TxOutput::Htlc(
                v.clone(),
                Box::new(common::chain::htlc::HashedTimelockContract {
                    secret_hash: common::chain::htlc::HtlcSecretHash([1; 20].into()),
                    spend_key: ANY,
                    refund_timelock: lock,
                    refund_key: OTHER,
                }),
            )],
            true,
        ),
        4 => (vec![TxOutput::DataDeposit(vec![1, 2])], true),
        5 => (vec![TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(issue.clone())))], true),
        6 => {
            let right = sym::flag("right id");
            let out = TxOutput::IssueNft(if right { id } else { tid() }, Box::new(NftIssuance::V0(nft)), OTHER);
            (vec![out], right)
        }
        7 => {
            g.until = sym::u64("until");
            ins.push(utxo_in(3));
            g.mine = sym::flag("mine");
            (vec![pay(v.clone())], height >= g.until && g.mine)
        }
        _ => {
            ins.push(utxo_in(9));
            (vec![pay(v.clone())], false)
        }
    };
    allowed &= !(tokens && g.frozen);
    let base = g.base(&vrf);
    let effect = |b: &mut Base| {
        if kind == 5 {
            let data = FungibleTokenData::new_unchecked(
                issue.token_ticker,
                2,
                issue.metadata_uri,
                issue.total_supply,
                false,
                IsTokenFrozen::No(IsTokenFreezable::Yes),
                OTHER,
            );
            b.tokens.set_token_data(&id, &TokenData::FungibleToken(data)).unwrap()
        }
    };
    run(&base, Case { ins, outs, allowed, account: None }, effect, height, 0);
}

fn spend_from(t: &SignedTransaction, k: u32) -> TxInput {
    TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(t.transaction().get_id()), k))
}

//@ prop=D06
//@ time=120
//@ covers=both|second refused|chain|mempool|parent and child|written|one verifier
//@ bounds=two transactions, independent, dependent, in conflict or with nonces of the same account, in one verifier, in a verifier and its child, or with the state written between; taken back in any order
#[no_mangle]
pub extern "C" fn h_connect_two() {
    let vrf = vrf();
    let mut g = Given::any();
    g.nonce = if sym::boolean("used before") { Some(sym::u64("stored")) } else { None };
    g.share = sym::range("share", 1, 1 << 40);
    let next = match g.nonce {
        None => Some(0),
        Some(n) => n.checked_add(1),
    };
    let base = g.base(&vrf);
    let cfg = config();
    let withdraw = |n: u64, v: u128| {
        let spend = TxInput::from_account(AccountNonce::new(n), AccountSpending::DelegationBalance(did(), am(v)));
        let lock = cfg.staking_pool_spend_maturity_block_count(BlockHeight::new(5)).to_int();
        sign(vec![spend], vec![TxOutput::LockThenTransfer(coin(v), ANY, OutputTimeLock::ForBlockCount(lock))])
    };
    let command = |n: u64, k: u32, c| sign(vec![utxo_in(k), TxInput::from_command(AccountNonce::new(n), c)], vec![pay(coin(1))]);
    let first = sign(vec![utxo_in(0)], vec![pay(coin(5)), pay(coin(RICH - 6))]);
    // the transactions, whether each is accepted, and whether the second depends on the first
    let (a, b, good, dependent) = match sym::choose("pair", 6) {
        0 => (first, sign(vec![utxo_in(4)], vec![pay(coin(70))]), [true, true], false),
        1 => {
            let b = sign(vec![spend_from(&first, 1)], vec![pay(coin(2))]);
            (first, b, [true, true], true)
        }
        2 => (first, sign(vec![utxo_in(4), utxo_in(0)], vec![pay(coin(70))]), [true, false], false),
        3 => {
            let b = sign(vec![spend_from(&first, 2)], vec![pay(coin(2))]);
            (first, b, [true, false], false)
        }
        4 => {
            let second = sym::choose("second nonce", 3) as u64;
            let right = next == Some(0) && g.share >= 9;
            (withdraw(0, 9), withdraw(second, 6), [right, right && second == 1 && g.share >= 15], false)
        }
        _ => {
            let mint = AccountCommand::FreezeToken(tid(), IsTokenUnfreezable::Yes);
            let b = sign(vec![utxo_in(4), utxo_in(1)], vec![pay(token(9))]);
            (command(1, 0, mint), b, [next == Some(1), false], false)
        }
    };
    let chain = sym::flag("in a block");
    sym::cover(if chain { "chain" } else { "mempool" });
    let (idx, tip) = (index(5), GenBlockIndex::Block(index(4)));
    let src = if chain { TransactionSourceForConnect::for_chain(&idx) } else { TransactionSourceForConnect::for_mempool(&tip) };
    let from = TransactionSource::from(&src);
    let id = |t: &SignedTransaction| t.transaction().get_id();
    let way = sym::choose("way", 3);

    // both connected, or the second refused
    let state = {
        let mut v = TransactionVerifier::new(&base, &cfg);
        let r = v.connect_transaction(&src, &a, &time());
        sym::check(r.is_ok() == good[0], "the first is accepted exactly if its rules hold");
        if r.is_err() {
            return;
        }
        match way {
            0 => {
                sym::cover("one verifier");
                let r = v.connect_transaction(&src, &b, &time());
                sym::check(r.is_ok() == good[1], "the second is accepted exactly if its rules hold");
                if r.is_err() {
                    sym::cover("second refused");
                    return;
                }
                sym::cover("both");
                if !chain {
                    let can = |t| v.can_disconnect_transaction(&from, &id(t)).unwrap();
                    sym::check(can(&b), "a transaction that none depends on can be taken back");
                    sym::check(can(&a) != dependent, "a transaction that another depends on cannot be taken back");
                }
                if sym::flag("at once") {
                    if sym::flag("wrong order") && dependent {
                        sym::check(v.disconnect_transaction(&from, &a).is_err(), "not before the one that depends on it");
                        return;
                    }
                    sym::check(v.disconnect_transaction(&from, &b).is_ok(), "the second can be taken back");
                    let one = flush(&base, TransactionVerifier::new(&base, &cfg));
                    sym::check(one == base, "nothing is written by looking");
                    sym::check(v.disconnect_transaction(&from, &a).is_ok(), "the first can be taken back");
                    sym::check(flush(&base, v) == base, "taking both back restores everything");
                    return;
                }
                flush(&base, v)
            }
            1 => {
                sym::cover("parent and child");
                let delta = {
                    let mut c = v.derive_child();
                    let r = c.connect_transaction(&src, &b, &time());
                    sym::check(r.is_ok() == good[1], "the second is accepted in a child exactly if its rules hold");
                    if r.is_err() {
                        drop(c);
                        let mut alone = TransactionVerifier::new(&base, &cfg);
                        alone.connect_transaction(&src, &a, &time()).unwrap();
                        sym::check(flush(&base, v) == flush(&base, alone), "a refused child leaves its parent alone");
                        return;
                    }
                    c.consume().unwrap()
                };
                flush_to_storage(&mut v, delta).unwrap();
                flush(&base, v)
            }
            _ => {
                sym::cover("written");
                // only one kind of source can be written twice
                let mid = flush(&base, v);
                let mut v = TransactionVerifier::new(&mid, &cfg);
                let r = v.connect_transaction(&src, &b, &time());
                sym::check(r.is_ok() == good[1], "the second is accepted later exactly if its rules hold");
                return;
            }
        }
    };
    let both = {
        let mut v = TransactionVerifier::new(&base, &cfg);
        v.connect_transaction(&src, &a, &time()).unwrap();
        v.connect_transaction(&src, &b, &time()).unwrap();
        flush(&base, v)
    };
    sym::check(state == both, "a child and its parent have the effect of one");
    let mut v = TransactionVerifier::new(&state, &cfg);
    if sym::flag("children take back") {
        for t in [&b, &a] {
            let delta = {
                let mut c = v.derive_child();
                sym::check(c.disconnect_transaction(&from, t).is_ok(), "a child takes back what was written");
                c.consume().unwrap()
            };
            flush_to_storage(&mut v, delta).unwrap();
        }
    } else {
        if dependent && sym::flag("wrong order") {
            sym::check(v.disconnect_transaction(&from, &a).is_err(), "a transaction others depend on stays");
            return;
        }
        sym::check(v.disconnect_transaction(&from, &b).is_ok(), "the second can be taken back later");
        sym::check(v.disconnect_transaction(&from, &a).is_ok(), "the first can be taken back later");
    }
    sym::check(flush(&state, v) == base, "taking back what was written restores everything");
}

//@ prop=D06
//@ time=120
//@ query_ms=300
//@ assumes=wide integer arithmetic is exact (C01)
//@ covers=staked|no stake
//@ bounds=a block with an empty reward, or a stake of a pool with one delegation of one atom, any fees of 16 bits; taken back at once or after it was written
#[no_mangle]
pub extern "C" fn h_connect_reward() {
    let vrf = vrf();
    // verified elsewhere
    let data = <VRFReturn as serialization::DecodeAll>::decode_all(&mut [0; 97].as_slice()).unwrap();
    sym::model_div(true);
    let cfg = config();
    let mut g = Given::any();
    g.share = 1;
    let base = g.base(&vrf);
    let staked = sym::flag("staked");
    let t = BlockTimestamp::from_int_seconds(1000);
    let (data, outs) = if staked {
        let pos = common::chain::block::consensus_data::PoSData::new(
            vec![utxo_in(2)],
            vec![InputWitness::NoSignature(None)],
            pid(),
            data,
            common::primitives::Compact(0x1d00ffff),
        );
        sym::cover("staked");
        (ConsensusData::PoS(Box::new(pos)), vec![TxOutput::ProduceBlockFromStake(ANY, pid())])
    } else {
        sym::cover("no stake");
        let lock = OutputTimeLock::ForBlockCount(500);
        (ConsensusData::None, vec![TxOutput::LockThenTransfer(coin(1), ANY, lock)])
    };
    let b = Block::new(vec![], Id::new(h(9)), t, data, BlockReward::new(outs.clone())).unwrap();
    let idx = BlockIndex::new(&b, Uint256::ONE, Id::new(h(9)), BlockHeight::new(5), t, 0, BlockStatus::new());
    let b = common::primitives::id::WithId::new(b);
    let fees = sym::u16("fees") as u128;
    let mut v = TransactionVerifier::new(&base, &cfg);
    let reward = b.block_reward_transactable();
    let r = v.connect_block_reward(&idx, reward, common::primitives::Fee(am(fees)), time());
    sym::check(r.is_ok(), "a block reward is connected");
    let total = cfg.block_subsidy_at_height(&BlockHeight::new(5)).into_atoms() + fees;
    let written = sym::flag("written");
    if written {
        let state = flush(&base, v);
        let mut utxos = base.utxos.clone();
        if staked {
            utxos.remove(&out(2));
        }
        let made = UtxoOutPoint::new(OutPointSourceId::BlockReward((*common::primitives::id::WithId::id(&b)).into()), 0);
        utxos.insert(made, Utxo::new(outs[0].clone(), UtxoSource::Blockchain(BlockHeight::new(5))));
        sym::check(state.utxos == utxos, "the reward's outputs are made and its stake spent");
        let pool = |s: &InMemoryPoSAccounting| {
            let b = PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_balance(s, pid()).unwrap().unwrap();
            b.into_atoms()
        };
        let more = if staked { total } else { 0 };
        sym::check(pool(&state.pos) == pool(&base.pos) + more, "the pool gets all of the subsidy and the fees");
        sym::check(state.pos == state.sealed, "the reported changes are the changes made");
        let rest = Base { utxos, pos: state.pos.clone(), sealed: state.pos.clone(), ..base.clone() };
        let undone = Base { undo: BTreeMap::new(), undo_pos: BTreeMap::new(), ..state.clone() };
        sym::check(rest == undone, "a reward changes nothing else");
        let mut v = TransactionVerifier::new(&state, &cfg);
        sym::check(v.disconnect_block_reward(&b).is_ok(), "a block reward can be taken back");
        sym::check(flush(&state, v) == base, "taking a reward back restores everything");
    } else {
        sym::check(v.disconnect_block_reward(&b).is_ok(), "a block reward can be taken back at once");
        sym::check(flush(&base, v) == base, "taking a reward back at once restores everything");
    }
}
