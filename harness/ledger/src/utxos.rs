
use common::chain::{
    block::{BlockReward, BlockRewardTransactable},
    htlc::{HashedTimelockContract, HtlcSecretHash},
    output_value::OutputValue,
    timelock::OutputTimeLock,
    tokens::{IsTokenFreezable, Metadata, NftIssuance, NftIssuanceV0, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply},
    AccountCommand, AccountNonce, AccountSpending, DelegationId, Destination, GenBlock, OrderAccountCommand, OrderData,
    OrderId, OutPointSourceId, PoolId, Transaction, TxInput, TxOutput, UtxoOutPoint,
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, Idable, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use std::collections::BTreeMap;
use utxo::*;

type Db = UtxosDB<UtxosDBInMemoryImpl>;
type Map = [Option<Utxo>; 2];

fn block(k: u8) -> Id<GenBlock> {
    Id::new(H256([k; 32]))
}

/// the two outpoints followed: output 0 of a transaction and output 1 of a block reward
fn op(k: usize) -> UtxoOutPoint {
    match k {
        0 => UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(H256([1; 32]))), 0),
        _ => UtxoOutPoint::new(OutPointSourceId::BlockReward(block(1)), 1),
    }
}

fn coin(v: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(Amount::from_atoms(v)), Destination::AnyoneCanSpend)
}

fn utxo(n: &'static str) -> Utxo {
    let v = sym::u128(n);
    Utxo::new_for_blockchain(coin(v), BlockHeight::new(v as u64))
}

fn db(m: &Map) -> Db {
    let store = (0..2).filter_map(|k| m[k].clone().map(|u| (op(k), u))).collect::<BTreeMap<_, _>>();
    UtxosDB::new(UtxosDBInMemoryImpl::new(block(0), store))
}

fn start() -> Map {
    [
        if sym::flag("has0") { Some(utxo("v0")) } else { None },
        if sym::flag("has1") { Some(utxo("v1")) } else { None },
    ]
}

fn same<V: UtxosView>(v: &V, m: &Map, best: u8, msg: &'static str) {
    for k in 0..2 {
        sym::check(v.utxo(&op(k)).ok() == Some(m[k].clone()), msg);
        sym::check(v.has_utxo(&op(k)).ok() == Some(m[k].is_some()), msg);
    }
    sym::check(v.best_block_hash().ok() == Some(block(best)), "the best block of a view is the last one set or flushed into it");
}

/// One operation on a cache and on the model.
fn step<P: UtxosView>(c: &mut UtxosCache<P>, m: &mut Map, best: &mut u8, k: usize) {
    let o = op(k);
    match sym::choose("op", 6) {
        0 => {
            let r = c.spend_utxo(&o);
            match m[k].take() {
                Some(u) => {
                    sym::cover("spent");
                    sym::check(r == Ok(u), "spending an unspent output succeeds and returns that output")
                }
                None => {
                    sym::cover("no double spend");
                    sym::check(
                        matches!(r, Err(Error::NoUtxoFound) | Err(Error::UtxoAlreadySpent(_))),
                        "spending an output that does not exist or is already spent is an error",
                    )
                }
            }
        }
        1 => {
            // the caller adds without overwriting only what is not unspent below this cache
            sym::assume(m[k].is_none() || c.has_utxo_in_cache(&o));
            let u = utxo("added");
            let r = c.add_utxo(&o, u.clone(), false);
            if m[k].is_some() {
                sym::check(r == Err(Error::OverwritingUtxo), "adding over an unspent output is refused");
            } else {
                sym::cover("added");
                sym::check(r == Ok(()), "adding an output that is not there succeeds");
                m[k] = Some(u);
            }
        }
        2 => {
            let u = utxo("overwritten");
            sym::check(c.add_utxo(&o, u.clone(), true) == Ok(()), "an overwriting add succeeds");
            m[k] = Some(u);
        }
        3 => {
            let was = c.has_utxo_in_cache(&o);
            if c.uncache(&o).is_ok() {
                sym::cover("uncached");
                sym::check(was && !c.has_utxo_in_cache(&o), "an uncached output is no longer held");
            }
        }
        4 => {
            let got = c.get_mut_utxo(&o).map(|u| u.cloned());
            sym::check(got == Ok(m[k].clone()), "an output read through the cache is the one a plain set holds");
        }
        _ => {
            *best += 1;
            c.set_best_block(block(*best));
        }
    }
}

//@ prop=D01
//@ time=60
//@ covers=spent|no double spend|added|uncached
//@ bounds=one cache over a store with two outpoints (each there or not, any amount and height), 4 operations on the first and one on the second, then a flush
//@ assumes=an output is added without overwriting only where it is not already unspent below the cache
#[no_mangle]
pub extern "C" fn h_utxo_cache() {
    let mut m = start();
    let mut base = db(&m);
    let mut best = 0;
    let mut c = UtxosCache::new(&base).ok().unwrap();
    for i in 0..5 {
        step(&mut c, &mut m, &mut best, if i == 2 { 1 } else { 0 });
        same(&c, &m, best, "a cache answers as a plain set of outputs would");
    }
    let used = c.consume();
    sym::check(base.batch_write(used) == Ok(()), "a cache can always be written to the store below it");
    same(&base, &m, best, "after a flush the store holds exactly the unspent outputs");
}

fn stack(lower: usize, upper: usize) {
    let mut m: Map = [if sym::flag("has0") { Some(utxo("v0")) } else { None }, None];
    let mut base = db(&m);
    let mut best = 0;
    let mut c1 = UtxosCache::new(&base).ok().unwrap();
    for _ in 0..lower {
        step(&mut c1, &mut m, &mut best, 0);
    }
    let (mut m2, mut best2) = (m.clone(), best);
    let mut c2 = UtxosCache::new(&c1).ok().unwrap();
    for _ in 0..upper {
        step(&mut c2, &mut m2, &mut best2, 0);
    }
    same(&c2, &m2, best2, "an upper cache answers as a plain set of outputs would");
    same(&c1, &m, best, "an upper cache does not change the one below before it is flushed");
    let used = c2.consume();
    if sym::flag("flush") {
        sym::cover("kept");
        sym::check(c1.batch_write(used) == Ok(()), "a cache can always be written to the cache below it");
        m = m2;
        best = best2;
    } else {
        sym::cover("dropped");
    }
    same(&c1, &m, best, "after a flush the lower cache answers as the upper one did");
    step(&mut c1, &mut m, &mut best, 0);
    same(&c1, &m, best, "after a flush the lower cache keeps answering as a plain set would");
    let used = c1.consume();
    sym::check(base.batch_write(used) == Ok(()), "a cache can always be written to the store below it");
    same(&base, &m, best, "after two flushes the store holds exactly the unspent outputs");
}

//@ prop=D01
//@ time=60
//@ covers=spent|no double spend|added|kept|dropped
//@ bounds=two caches over a store, one outpoint: 1 operation on the lower, 3 on the upper, flushed down or dropped, 1 more on the lower, then flushed to the store
//@ assumes=an output is added without overwriting only where it is not already unspent below the cache
#[no_mangle]
pub extern "C" fn h_utxo_stack13() {
    stack(1, 3);
}

//@ prop=D01
//@ time=60
//@ covers=spent|no double spend|added|kept|dropped
//@ bounds=two caches over a store, one outpoint: 2 operations on the lower, 2 on the upper, flushed down or dropped, 1 more on the lower, then flushed to the store
//@ assumes=an output is added without overwriting only where it is not already unspent below the cache
#[no_mangle]
pub extern "C" fn h_utxo_stack22() {
    stack(2, 2);
}

//@ prop=D01
//@ tier=thorough
//@ ttime=300
//@ covers=spent|no double spend|added|kept|dropped
//@ bounds=two caches over a store, one outpoint: 2 operations on the lower, 3 on the upper, flushed down or dropped, 1 more on the lower, then flushed to the store
//@ assumes=an output is added without overwriting only where it is not already unspent below the cache
#[no_mangle]
pub extern "C" fn h_utxo_stack23() {
    stack(2, 3);
}

fn output(n: usize, k: u8) -> (TxOutput, bool) {
    let d = Destination::AnyoneCanSpend;
    let v = OutputValue::Coin(Amount::from_atoms(1000 + k as u128));
    let id = H256([40 + k; 32]);
    match n {
        0 => (TxOutput::Transfer(v, d), true),
        1 => (TxOutput::LockThenTransfer(v, d, OutputTimeLock::ForBlockCount(5)), true),
        2 => (TxOutput::Burn(v), false),
        3 => {
            let (_, vrf) = VRFPrivateKey::new_using_random_bytes(&[k; 32], VRFKeyKind::Schnorrkel).unwrap();
            let data = common::chain::stakelock::StakePoolData::new(
                Amount::from_atoms(5),
                d.clone(),
                vrf,
                d,
                PerThousand::new(1).unwrap(),
                Amount::from_atoms(7),
            );
            (TxOutput::CreateStakePool(PoolId::new(id), Box::new(data)), true)
        }
        4 => (TxOutput::ProduceBlockFromStake(d, PoolId::new(id)), true),
        5 => (TxOutput::CreateDelegationId(d, PoolId::new(id)), false),
        6 => (TxOutput::DelegateStaking(Amount::from_atoms(3), DelegationId::new(id)), false),
        7 => {
            let t = TokenIssuanceV1 {
                token_ticker: vec![b'T'],
                number_of_decimals: 2,
                metadata_uri: vec![b'u'],
                total_supply: TokenTotalSupply::Unlimited,
                authority: d,
                is_freezable: IsTokenFreezable::No,
            };
            (TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(t))), false)
        }
        8 => {
            let metadata = Metadata {
                creator: None,
                name: vec![b'n'],
                description: vec![b'd'],
                ticker: vec![b'T'],
                icon_uri: None.into(),
                additional_metadata_uri: None.into(),
                media_uri: None.into(),
                media_hash: vec![1, 2, 3, 4],
            };
            (TxOutput::IssueNft(TokenId::new(id), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata })), d), true)
        }
        9 => (TxOutput::DataDeposit(vec![k, 2, 3]), false),
        10 => {
            let h = HashedTimelockContract {
                secret_hash: HtlcSecretHash([k; 20]),
                spend_key: d.clone(),
                refund_timelock: OutputTimeLock::ForBlockCount(5),
                refund_key: d,
            };
            (TxOutput::Htlc(v, Box::new(h)), true)
        }
        _ => (TxOutput::CreateOrder(Box::new(OrderData::new(d, v.clone(), v))), false),
    }
}

fn account_input(n: usize) -> TxInput {
    match n {
        0 => TxInput::Account(common::chain::AccountOutPoint::new(
            AccountNonce::new(1),
            AccountSpending::DelegationBalance(DelegationId::new(H256([7; 32])), Amount::from_atoms(1)),
        )),
        1 => TxInput::AccountCommand(AccountNonce::new(2), AccountCommand::UnmintTokens(TokenId::new(H256([7; 32])))),
        _ => TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(OrderId::new(H256([7; 32])))),
    }
}

fn undo(r: &UtxosTxUndoWithSources) -> Vec<Option<Utxo>> {
    r.utxos().to_vec()
}

//@ prop=D01
//@ time=60
//@ covers=connected|refused
//@ bounds=a transaction with any one kind of output between two transfers, spending a subset of two followed outpoints (each there or not, any amount) around one account input of any kind, connected in a cache over a store; then disconnected, in the same or in a second cache
//@ assumes=hash functions do not collide on the transactions built
#[no_mangle]
pub extern "C" fn h_utxo_tx() {
    let m = start();
    let mut base = db(&m);
    let which = sym::choose("spends", 4);
    let mut inputs = Vec::new();
    if which & 1 == 1 {
        inputs.push(TxInput::Utxo(op(0)));
    }
    let acc = sym::choose("account", 4);
    if acc < 3 {
        inputs.push(account_input(acc));
    }
    if which & 2 == 2 {
        inputs.push(TxInput::Utxo(op(1)));
    }
    let (mid, kept) = output(sym::choose("kind", 12), 1);
    let outs = vec![coin(11), mid, coin(12)];
    let tx = Transaction::new(0, inputs.clone(), outs.clone()).unwrap();
    let id = tx.get_id();
    let height = sym::u64("height");
    let source = UtxoSource::Blockchain(BlockHeight::new(height));

    let mut c = UtxosCache::new(&base).ok().unwrap();
    let r = c.connect_transaction(&tx, source.clone());
    let ok = (0..2).all(|k| which >> k & 1 == 0 || m[k].is_some());
    if !ok {
        sym::cover("refused");
        return sym::check(r.is_err(), "a transaction that spends a missing output is refused");
    }
    sym::cover("connected");
    let r = match r {
        Ok(r) => r,
        Err(_) => return sym::fail("a transaction whose inputs are all unspent connects"),
    };
    let want: Vec<Option<Utxo>> = inputs
        .iter()
        .map(|i| i.utxo_outpoint().and_then(|o| if *o == op(0) { m[0].clone() } else { m[1].clone() }))
        .collect();
    sym::check(undo(&r) == want, "the undo data of a transaction is its spent outputs, in order of its inputs");

    let after: Map = [0, 1].map(|k| if which >> k & 1 == 1 { None } else { m[k].clone() });
    same(&c, &after, 0, "a connected transaction spends its inputs and nothing else");
    let created = |v: &UtxosCache<&Db>, live: bool, msg: &'static str| {
        for (i, o) in outs.iter().enumerate() {
            let here = live && (i != 1 || kept);
            let got = v.utxo(&UtxoOutPoint::new(OutPointSourceId::Transaction(id), i as u32));
            let want = if here { Some(Utxo::new(o.clone(), source.clone())) } else { None };
            sym::check(got.ok() == Some(want), msg);
        }
    };
    created(&c, true, "a connected transaction adds its spendable outputs, and only those");
    let again = UtxosCache::new(&c).ok().unwrap().connect_transaction(&tx, source.clone());
    sym::check(again.is_err() || which == 0, "a transaction cannot be connected twice");

    let (undo, sources) = r.consume();
    let ops: Vec<_> = (0..2).filter(|k| which >> k & 1 == 1).map(|k| op(k).source_id()).collect();
    sym::check(sources == ops, "the sources of a transaction are those of the outputs it spends");
    if sym::flag("flushed") {
        let used = c.consume();
        sym::check(base.batch_write(used) == Ok(()), "a connected transaction can be flushed");
        c = UtxosCache::new(&base).ok().unwrap();
        created(&c, true, "a flushed transaction's outputs are in the store");
    }
    sym::check(c.disconnect_transaction(&tx, undo) == Ok(()), "a connected transaction can be disconnected");
    created(&c, false, "a disconnected transaction leaves none of its outputs");
    same(&c, &m, 0, "disconnecting a transaction restores what it spent");
    let used = c.consume();
    sym::check(base.batch_write(used) == Ok(()), "a disconnected transaction can be flushed");
    same(&base, &m, 0, "after connecting, disconnecting and flushing the store is as before");
}

//@ prop=D01
//@ time=60
//@ covers=connected|refused|bad output
//@ bounds=a block reward with one or two outputs of any kind, spending none or one of two followed outpoints (each there or not, any amount), connected and disconnected in a cache over a store, with or without a flush between
#[no_mangle]
pub extern "C" fn h_utxo_reward() {
    let m = start();
    let mut base = db(&m);
    let which = sym::choose("spends", 3);
    let inputs: Option<Vec<TxInput>> = (which < 2).then(|| vec![TxInput::Utxo(op(which))]);
    let (o1, kept) = output(sym::choose("kind", 12), 1);
    let outs = if sym::flag("two") { vec![coin(11), o1] } else { vec![o1] };
    let b = block(9);
    let height = BlockHeight::new(sym::u64("height"));
    let t = BlockRewardTransactable::new(inputs.as_deref(), Some(&outs), None);
    let mut c = UtxosCache::new(&base).ok().unwrap();
    let r = c.connect_block_transactable(&t, &b, height);
    if which < 2 && m[which].is_none() {
        sym::cover("refused");
        return sym::check(r.is_err(), "a block reward that spends a missing output is refused");
    }
    if !kept {
        sym::cover("bad output");
        return sym::check(r.is_err(), "a block reward cannot hold an output that is not spendable");
    }
    sym::cover("connected");
    let r = match r {
        Ok(r) => r,
        Err(_) => return sym::fail("a block reward whose inputs are unspent and whose outputs are spendable connects"),
    };
    let want = (which < 2).then(|| vec![m[which].clone().unwrap()]);
    sym::check(r.as_ref().map(|r| r.inner().to_vec()) == want, "the undo data of a block reward is what it spent");
    let after: Map = [0, 1].map(|k| if which == k { None } else { m[k].clone() });
    same(&c, &after, 0, "a connected block reward spends its inputs and nothing else");
    let created = |v: &UtxosCache<&Db>, live: bool, msg: &'static str| {
        for (i, o) in outs.iter().enumerate() {
            let got = v.utxo(&UtxoOutPoint::new(OutPointSourceId::BlockReward(b), i as u32));
            let want = live.then(|| Utxo::new_for_blockchain(o.clone(), height));
            sym::check(got.ok() == Some(want), msg);
        }
    };
    created(&c, true, "a connected block reward adds its outputs");
    if sym::flag("flushed") {
        let used = c.consume();
        sym::check(base.batch_write(used) == Ok(()), "a connected reward can be flushed");
        c = UtxosCache::new(&base).ok().unwrap();
        created(&c, true, "a flushed reward's outputs are in the store");
    }
    sym::check(c.disconnect_block_transactable(&t, &b, r) == Ok(()), "a connected block reward can be disconnected");
    created(&c, false, "a disconnected block reward leaves none of its outputs");
    same(&c, &m, 0, "disconnecting a block reward restores what it spent");
    let used = c.consume();
    sym::check(base.batch_write(used) == Ok(()), "a disconnected reward can be flushed");
    same(&base, &m, 0, "after connecting, disconnecting and flushing a reward the store is as before");
}

//@ prop=D01
//@ time=60
//@ covers=ok
//@ bounds=two transactions of one block, the second spending an output of the first and any subset of two followed outpoints; connected in order, undone in reverse order, across caches flushed in between or not
#[no_mangle]
pub extern "C" fn h_utxo_chain() {
    let m = [Some(utxo("v0")), Some(utxo("v1"))];
    let mut base = db(&m);
    let (a, b) = (sym::choose("first", 3), sym::choose("second", 3));
    sym::assume(a == 2 || a != b);
    let first: Vec<_> = (a < 2).then(|| TxInput::Utxo(op(a))).into_iter().collect();
    let t1 = Transaction::new(0, first, vec![coin(11), output(2, 0).0, coin(12)]).unwrap();
    let i = [0u32, 2][sym::choose("index", 2)];
    let link = UtxoOutPoint::new(OutPointSourceId::Transaction(t1.get_id()), i);
    let mut second = vec![TxInput::Utxo(link.clone())];
    if b < 2 {
        second.push(TxInput::Utxo(op(b)));
    }
    let t2 = Transaction::new(0, second, vec![coin(13)]).unwrap();
    let src = UtxoSource::Blockchain(BlockHeight::new(5));
    let mut c = UtxosCache::new(&base).ok().unwrap();
    sym::check(c.connect_transaction(&t2, src.clone()).is_err(), "a transaction cannot spend an output not yet created");
    drop(c);
    let mut c = UtxosCache::new(&base).ok().unwrap();
    let u1 = c.connect_transaction(&t1, src.clone());
    let u2 = c.connect_transaction(&t2, src.clone());
    let (u1, u2) = match (u1, u2) {
        (Ok(u1), Ok(u2)) => (u1.consume(), u2.consume()),
        _ => return sym::fail("a chain of two transactions connects"),
    };
    sym::cover("ok");
    let mut block_undo = UtxosBlockUndo::default();
    let w = |u: &(UtxosTxUndo, Vec<OutPointSourceId>)| UtxosTxUndoWithSources::new(u.0.inner().to_vec(), u.1.clone());
    sym::check(block_undo.insert_tx_undo(t1.get_id(), w(&u1)).is_ok(), "undo data of each transaction is taken once");
    sym::check(block_undo.insert_tx_undo(t2.get_id(), w(&u2)).is_ok(), "undo data of each transaction is taken once");
    sym::check(block_undo.insert_tx_undo(t2.get_id(), w(&u2)).is_err(), "undo data of a transaction is not replaced");
    let used = block_undo.consume();
    sym::check(
        used.tx_undos.get(&t1.get_id()) == Some(&u1.0) && used.tx_undos.get(&t2.get_id()) == Some(&u2.0),
        "block undo data returns what was put in",
    );
    sym::check(
        used.child_parent_dependencies.contains(&(t2.get_id(), t1.get_id()))
            && used.parent_child_dependencies.contains(&(t1.get_id(), t2.get_id())),
        "block undo data records that the second transaction needs the first",
    );

    if sym::flag("flushed") {
        let used = c.consume();
        sym::check(base.batch_write(used) == Ok(()), "two connected transactions can be flushed");
        c = UtxosCache::new(&base).ok().unwrap();
    }
    sym::check(c.utxo(&link).ok() == Some(None), "an output spent in its own block is spent");
    sym::check(UtxosCache::new(&c).ok().unwrap().spend_utxo(&link).is_err(), "an output spent in its own block is not spent again");
    sym::check(c.disconnect_transaction(&t2, u2.0) == Ok(()), "the second transaction can be undone");
    sym::check(c.utxo(&link).ok().flatten().is_some(), "undoing the spender brings the output back");
    if sym::flag("flushed between") {
        let used = c.consume();
        sym::check(base.batch_write(used) == Ok(()), "a partly undone block can be flushed");
        c = UtxosCache::new(&base).ok().unwrap();
    }
    sym::check(c.disconnect_transaction(&t1, u1.0) == Ok(()), "the first transaction can be undone");
    sym::check(c.utxo(&link).ok() == Some(None), "undoing a transaction removes its outputs");
    same(&c, &m, 0, "undoing both transactions restores the set");
    let used = c.consume();
    sym::check(base.batch_write(used) == Ok(()), "an undone block can be flushed");
    same(&base, &m, 0, "after undoing both transactions the store is as before");
}

//@ prop=D01
//@ time=30
//@ bounds=a plain block reward with two outputs added to a cache where each is there or not, with and without the overwrite check
#[no_mangle]
pub extern "C" fn h_utxo_plain_reward() {
    let r = BlockReward::new(vec![coin(21), coin(22)]);
    let o = |i| UtxoOutPoint::new(OutPointSourceId::BlockReward(block(9)), i);
    let mut store = BTreeMap::new();
    let check = sym::flag("checked");
    if check && sym::flag("there") {
        store.insert(o(1), utxo("old"));
    }
    let mut base: Db = UtxosDB::new(UtxosDBInMemoryImpl::new(block(0), store));
    let mut c = UtxosCache::new(&base).ok().unwrap();
    let h = UtxoSource::Blockchain(BlockHeight::new(sym::u64("height")));
    sym::check(c.add_utxos_from_block_reward(&r, h.clone(), &block(9), check) == Ok(()), "a reward can always be added");
    let spend = sym::flag("spend");
    if spend {
        sym::check(c.spend_utxo(&o(1)) == Ok(Utxo::new(coin(22), h.clone())), "a reward output is spendable");
    }
    let used = c.consume();
    sym::check(base.batch_write(used) == Ok(()), "an added reward can be flushed");
    let want = |v, live: bool| live.then(|| Utxo::new(coin(v), h.clone()));
    sym::check(base.utxo(&o(0)).ok() == Some(want(21, true)), "after a flush the reward's outputs are in the store");
    sym::check(base.utxo(&o(1)).ok() == Some(want(22, !spend)), "after a flush a spent reward output is not in the store");

}
