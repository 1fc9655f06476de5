use common::chain::{
    tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenTotalSupply},
    Destination,
};
use common::primitives::{Amount, H256};
use std::collections::BTreeMap;
use tokens_accounting::*;

type Db = TokensAccountingDB<InMemoryTokensAccounting>;

fn tid(k: u8) -> TokenId {
    TokenId::new(H256([k; 32]))
}

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}

/// The reference: what a token is, how much of it circulates.
#[derive(Clone, Copy, PartialEq)]
struct Tok {
    supply: TokenTotalSupply,
    locked: bool,
    frozen: IsTokenFrozen,
    authority: u8,
    uri: u8,
    circ: u128,
}

#[derive(Clone, Copy, PartialEq)]
struct Model {
    t: Option<Tok>,
}

fn dest(k: u8) -> Destination {
    if k == 0 {
        Destination::AnyoneCanSpend
    } else {
        Destination::ScriptHash(common::primitives::Id::new(H256([k; 32])))
    }
}

fn data(t: &Tok) -> TokenData {
    TokenData::FungibleToken(FungibleTokenData::new_unchecked(
        vec![b'T'],
        4,
        vec![t.uri],
        t.supply,
        t.locked,
        t.frozen,
        dest(t.authority),
    ))
}

fn db(m: &Model, other: &Tok) -> InMemoryTokensAccounting {
    let (mut d, mut c) = (BTreeMap::new(), BTreeMap::new());
    let mut put = |k: u8, t: &Tok| {
        d.insert(tid(k), data(t));
        if t.circ > 0 {
            c.insert(tid(k), am(t.circ));
        }
    };
    put(2, other);
    if let Some(t) = &m.t {
        put(1, t);
    }
    InMemoryTokensAccounting::from_values(d, c)
}

fn same<V: TokensAccountingView>(v: &V, m: &Model, other: &Tok, msg: &'static str) {
    let one = |k: u8, t: &Option<Tok>| {
        sym::check(v.get_token_data(&tid(k)).ok() == Some(t.as_ref().map(data)), msg);
        let c = v.get_circulating_supply(&tid(k)).ok().map(|x| x.into_atoms());
        sym::check(c == Some(t.map_or(0, |t| t.circ)), msg);
    };
    one(1, &m.t);
    one(2, &Some(*other));
}

fn supply(n: &'static str) -> TokenTotalSupply {
    match sym::choose(n, 3) {
        0 => TokenTotalSupply::Fixed(am(sym::u128("limit") >> 1)),
        1 => TokenTotalSupply::Lockable,
        _ => TokenTotalSupply::Unlimited,
    }
}

fn frozen() -> IsTokenFrozen {
    match sym::choose("frozen", 4) {
        0 => IsTokenFrozen::No(IsTokenFreezable::No),
        1 => IsTokenFrozen::No(IsTokenFreezable::Yes),
        2 => IsTokenFrozen::Yes(IsTokenUnfreezable::No),
        _ => IsTokenFrozen::Yes(IsTokenUnfreezable::Yes),
    }
}

const TOP: u128 = i128::MAX as u128;

fn start() -> Model {
    if sym::flag("absent") {
        return Model { t: None };
    }
    let supply = supply("supply");
    let circ = sym::u128("circulating");
    sym::assume(circ <= TOP);
    if let TokenTotalSupply::Fixed(l) = supply {
        sym::assume(circ <= l.into_atoms());
    }
    let locked = matches!(supply, TokenTotalSupply::Lockable) && sym::flag("locked");
    Model { t: Some(Tok { supply, locked, frozen: frozen(), authority: 0, uri: 0, circ }) }
}

/// One operation on the cache and on the reference; its undo if it was accepted.
fn step<P: TokensAccountingView>(c: &mut TokensAccountingCache<P>, m: &mut Model) -> Option<TokenAccountingUndo> {
    let id = tid(1);
    let live = m.t.filter(|t| matches!(t.frozen, IsTokenFrozen::No(_)));
    let (r, want) = match sym::choose("op", 8) {
        0 => {
            let t = Tok {
                supply: supply("new supply"),
                locked: false,
                frozen: IsTokenFrozen::No(IsTokenFreezable::Yes),
                authority: 0,
                uri: 0,
                circ: 0,
            };
            (c.issue_token(id, data(&t)), m.t.is_none().then_some(t))
        }
        1 => {
            let x = sym::u128("mint");
            let want = live.and_then(|t| {
                let n = t.circ.checked_add(x).filter(|n| *n <= TOP)?;
                let ok = match t.supply {
                    TokenTotalSupply::Fixed(l) => n <= l.into_atoms(),
                    TokenTotalSupply::Lockable => !t.locked,
                    TokenTotalSupply::Unlimited => true,
                };
                ok.then_some(Tok { circ: n, ..t })
            });
            let r = c.mint_tokens(id, am(x));
            let over = m.t.map_or(false, |t| t.circ.checked_add(x).map_or(true, |n| n > TOP));
            if r.is_ok() && over {
                // the value accounting of the transaction reads the supply and refuses the transaction
                sym::cover("unrepresentable");
                sym::check(c.get_circulating_supply(&id).is_err(), "a supply beyond the representable range cannot be read");
                sym::assume(false);
            }
            (r, want)
        }
        2 => {
            let x = sym::u128("unmint");
            (c.unmint_tokens(id, am(x)), live.filter(|t| !t.locked && x <= t.circ).map(|t| Tok { circ: t.circ - x, ..t }))
        }
        3 => {
            let want = live
                .filter(|t| matches!(t.supply, TokenTotalSupply::Lockable) && !t.locked)
                .map(|t| Tok { locked: true, ..t });
            (c.lock_circulating_supply(id), want)
        }
        4 => {
            let u = if sym::flag("unfreezable") { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No };
            let want = m.t.filter(|t| t.frozen == IsTokenFrozen::No(IsTokenFreezable::Yes));
            (c.freeze_token(id, u), want.map(|t| Tok { frozen: IsTokenFrozen::Yes(u), ..t }))
        }
        5 => {
            let want = m.t.filter(|t| t.frozen == IsTokenFrozen::Yes(IsTokenUnfreezable::Yes));
            (c.unfreeze_token(id), want.map(|t| Tok { frozen: IsTokenFrozen::No(IsTokenFreezable::Yes), ..t }))
        }
        6 => (c.change_authority(id, dest(7)), live.map(|t| Tok { authority: 7, ..t })),
        _ => {
            let u = sym::u8("uri");
            (c.change_metadata_uri(id, vec![u]), live.map(|t| Tok { uri: u, ..t }))
        }
    };
    match r {
        Ok(u) => {
            sym::cover("accepted");
            match want {
                Some(w) => *m = Model { t: Some(w) },
                None => sym::fail("an operation the token's state does not allow is accepted"),
            }
            Some(u)
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(want.is_none(), "an operation the token's state allows is refused");
            None
        }
    }
}

const OTHER: Tok = Tok {
    supply: TokenTotalSupply::Lockable,
    locked: false,
    frozen: IsTokenFrozen::No(IsTokenFreezable::Yes),
    authority: 0,
    uri: 3,
    circ: 1000,
};

fn ops(n: usize) {
    let m0 = start();
    let store = Db::new(db(&m0, &OTHER));
    let mut m = m0;
    let mut c = TokensAccountingCache::new(&store);
    let mut done = vec![];
    for _ in 0..n {
        let before = m;
        if let Some(u) = step(&mut c, &mut m) {
            done.push((u, before));
        }
        same(&c, &m, &OTHER, "the view is the reference state");
    }
    while let Some((u, before)) = done.pop() {
        sym::check(c.undo(u).is_ok(), "an accepted operation can be undone");
        same(&c, &before, &OTHER, "undoing restores the state before the operation");
    }
}

//@ prop=L03
//@ time=100
//@ covers=accepted|refused|unrepresentable
//@ bounds=any token state with any 128-bit amounts, two operations of any kinds in a row with any amounts, undone in reverse; another token beside it
#[no_mangle]
pub extern "C" fn h_token_ops2() {
    ops(2)
}

//@ prop=L03
//@ tier=thorough
//@ ttime=1500
//@ covers=accepted|refused|unrepresentable
//@ bounds=three operations in a row
#[no_mangle]
pub extern "C" fn h_token_ops3() {
    ops(3)
}

//@ prop=L03
//@ time=100
//@ covers=accepted|refused|unrepresentable
//@ bounds=two operations, one in each of two stacked caches, flushed into the parent cache and then into the store, any amounts
#[no_mangle]
pub extern "C" fn h_token_flush() {
    let m0 = start();
    let mut store = Db::new(db(&m0, &OTHER));
    let mut m = m0;
    let delta = {
        let mut c = TokensAccountingCache::new(&store);
        let _ = step(&mut c, &mut m);
        let inner = {
            let mut c2 = TokensAccountingCache::new(&c);
            let _ = step(&mut c2, &mut m);
            same(&c2, &m, &OTHER, "a stacked cache shows its own and its parent's changes");
            c2.consume()
        };
        sym::check(c.batch_write_tokens_data(inner).is_ok(), "a cache can be flushed into its parent");
        same(&c, &m, &OTHER, "flushing into the parent cache keeps the state");
        c.consume()
    };
    sym::check(store.batch_write_tokens_data(delta).is_ok(), "the changes can be written to the store");
    same(&store, &m, &OTHER, "the store shows the changes");
}
