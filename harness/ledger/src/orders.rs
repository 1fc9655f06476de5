use common::chain::{output_value::OutputValue, tokens::TokenId, Destination, OrderId, OrdersVersion};
use common::primitives::{Amount, H256};
use common::Uint256;
use orders_accounting::*;
use std::collections::BTreeMap;

type Db = OrdersAccountingDB<InMemoryOrdersAccounting>;

fn oid(k: u8) -> OrderId {
    OrderId::new(H256([k; 32]))
}

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}

/// The reference: an order is its original amounts, its frozen flag and the two remaining balances.
#[derive(Clone, Copy, PartialEq)]
struct Ord {
    ask: u128,
    give: u128,
    frozen: bool,
    ask_left: u128,
    give_left: u128,
}

#[derive(Clone, Copy)]
struct Model {
    o: Option<Ord>,
}

fn order_data(ask: u128, give: u128, frozen: bool) -> OrderData {
    OrderData::new_generic(
        Destination::AnyoneCanSpend,
        OutputValue::Coin(am(ask)),
        OutputValue::TokenV1(TokenId::new(H256([9; 32])), am(give)),
        frozen,
    )
}

fn db(m: &Model, other: &Ord) -> InMemoryOrdersAccounting {
    let (mut d, mut a, mut g) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut put = |k: u8, o: &Ord| {
        d.insert(oid(k), order_data(o.ask, o.give, o.frozen));
        if o.ask_left > 0 {
            a.insert(oid(k), am(o.ask_left));
        }
        if o.give_left > 0 {
            g.insert(oid(k), am(o.give_left));
        }
    };
    put(2, other);
    if let Some(o) = &m.o {
        put(1, o);
    }
    InMemoryOrdersAccounting::from_values(d, a, g)
}

fn same<V: OrdersAccountingView>(v: &V, m: &Model, other: &Ord, msg: &'static str) {
    let one = |k: u8, o: &Option<Ord>| {
        let (d, a, g) = (v.get_order_data(&oid(k)), v.get_ask_balance(&oid(k)), v.get_give_balance(&oid(k)));
        let want = o.map_or((None, 0, 0), |o| (Some(order_data(o.ask, o.give, o.frozen)), o.ask_left, o.give_left));
        let a = a.ok().map(|x| x.into_atoms());
        let g = g.ok().map(|x| x.into_atoms());
        sym::check(d.ok() == Some(want.0), msg);
        sym::check(a == Some(want.1), msg);
        sym::check(g == Some(want.2), msg);
    };
    one(1, &m.o);
    one(2, &Some(*other));
    let ids = v.get_all_order_ids().ok().map(|s| s.into_iter().collect::<Vec<_>>());
    let want = if m.o.is_some() { vec![oid(1), oid(2)] } else { vec![oid(2)] };
    sym::check(ids == Some(want), msg);
}

/// what a fill pays out, from the definition: the whole part of give * fill / ask
fn payout(m: &Ord, fill: u128, v: OrdersVersion) -> Option<u128> {
    let (ask, give) = match v {
        OrdersVersion::V0 => (m.ask_left, m.give_left),
        OrdersVersion::V1 => (m.ask, m.give),
    };
    if m.frozen || fill > m.ask_left || ask == 0 {
        return None;
    }
    // the amounts here are below 2^16
    let r = (give as u32 * fill as u32 / ask as u32) as u128;
    if v == OrdersVersion::V1 && r == 0 {
        return None;
    }
    Some(r)
}

/// An order reached by one earlier fill of a fresh order (so that the balances are consistent).
fn start(asks: u64, gives: u64) -> Model {
    if sym::flag("absent") {
        return Model { o: None };
    }
    let ask = 1 + sym::choose("ask", asks as usize) as u128;
    let give = sym::range("give", 1, gives) as u128;
    let ask_left = sym::choose("ask left", 1 + ask as usize) as u128;
    let give_left = sym::range("give left", 0, gives) as u128;
    sym::assume(give_left <= give);
    // what the original price leaves at least (rounding is in the order's favour)
    sym::assume(give_left as u32 * ask as u32 >= ask_left as u32 * give as u32);
    Model { o: Some(Ord { ask, give, frozen: sym::boolean("frozen"), ask_left, give_left }) }
}

fn ver() -> OrdersVersion {
    if sym::flag("v0") {
        OrdersVersion::V0
    } else {
        OrdersVersion::V1
    }
}

/// One operation on the cache and on the model; the undo if it was accepted.
fn step<P: OrdersAccountingView>(c: &mut OrdersAccountingCache<P>, m: &mut Model, asks: u64, gives: u64, v: OrdersVersion, fix: bool) -> Option<OrdersAccountingUndo> {
    let id = oid(1);
    let (r, want) = match sym::choose("op", 4) {
        0 => {
            let ask = sym::range("new ask", 0, asks) as u128;
            let give = sym::range("new give", 0, gives) as u128;
            let r = c.create_order(id, order_data(ask, give, false));
            let want = (m.o.is_none() && ask > 0 && give > 0)
                .then_some(Model { o: Some(Ord { ask, give, frozen: false, ask_left: ask, give_left: give }) });
            (r, want)
        }
        1 => {
            let mut fill = sym::range("fill", 0, 2 * asks + 1);
            if fix {
                fill = sym::concretize(fill);
            }
            let fill = fill as u128;
            let want = m.o.and_then(|o| {
                payout(&o, fill, v).map(|p| Model { o: Some(Ord { ask_left: o.ask_left - fill, give_left: o.give_left - p, ..o }) })
            });
            let pays = calculate_fill_order(&*c, id, am(fill), v).ok().map(|x| x.into_atoms());
            let r = c.fill_order(id, am(fill), v);
            if let (Some(w), Some(o)) = (&want, &m.o) {
                sym::check(pays == w.o.map(|n| o.give_left - n.give_left), "a fill pays out the whole part of give * fill / ask");
            }
            if let (true, Some(Model { o: Some(w) })) = (fix, want) {
                sym::concretize(w.give_left as u64);
            }
            (r, want)
        }
        2 => (c.freeze_order(id), m.o.filter(|o| !o.frozen).map(|o| Model { o: Some(Ord { frozen: true, ..o }) })),
        _ => (c.conclude_order(id), m.o.map(|_| Model { o: None })),
    };
    match r {
        Ok(u) => {
            sym::cover("accepted");
            match want {
                Some(w) => *m = w,
                None => sym::fail("an operation the order's state does not allow is accepted"),
            }
            Some(u)
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(want.is_none(), "an operation the order's state allows is refused");
            None
        }
    }
}

const OTHER: Ord = Ord { ask: 5, give: 7, frozen: false, ask_left: 3, give_left: 5 };

fn ops(n: usize, asks: u64, gives: u64) {
    sym::model_div(true);
    let m0 = start(asks, gives);
    let v = ver();
    let store = Db::new(db(&m0, &OTHER));
    let mut m = m0;
    let mut c = OrdersAccountingCache::new(&store);
    same(&c, &m, &OTHER, "a fresh cache shows its parent");
    let mut done = vec![];
    for i in 0..n {
        let before = m;
        if let Some(u) = step(&mut c, &mut m, asks, gives, v, i + 1 < n) {
            done.push((u, before));
        }
        same(&c, &m, &OTHER, "the view is the reference state");
    }
    while let Some((u, before)) = done.pop() {
        sym::check(c.undo(u).is_ok(), "an accepted operation can be undone");
        same(&c, &before, &OTHER, "undoing restores the state before the operation");
    }
}

//@ prop=L01
//@ time=100
//@ covers=accepted|refused
//@ bounds=any order state with amounts up to 15 (ask up to 7), one operation of any kind with any amounts up to 15, undone; another order beside it
//@ assumes=division of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_order_op() {
    ops(1, 7, 15)
}

//@ prop=L01
//@ time=100
//@ covers=accepted|refused
//@ bounds=two operations in a row (ask up to 3, give up to 7), undone in reverse
//@ assumes=division of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_order_ops2() {
    ops(2, 3, 7)
}

//@ prop=L01
//@ time=100
//@ covers=accepted|refused
//@ bounds=two operations, one in each of two stacked caches, flushed into the parent cache and then into the store (ask up to 2, give up to 5)
//@ assumes=division of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_order_flush() {
    sym::model_div(true);
    let m0 = start(2, 5);
    let v = ver();
    let mut store = Db::new(db(&m0, &OTHER));
    let mut m = m0;
    let delta = {
        let mut c = OrdersAccountingCache::new(&store);
        let _ = step(&mut c, &mut m, 2, 5, v, true);
        let inner = {
            let mut c2 = OrdersAccountingCache::new(&c);
            let _ = step(&mut c2, &mut m, 2, 5, v, false);
            same(&c2, &m, &OTHER, "a stacked cache shows its own and its parent's changes");
            c2.consume()
        };
        sym::check(c.batch_write_orders_data(inner).is_ok(), "a cache can be flushed into its parent");
        same(&c, &m, &OTHER, "flushing into the parent cache keeps the state");
        c.consume()
    };
    sym::check(store.batch_write_orders_data(delta).is_ok(), "the changes can be written to the store");
    same(&store, &m, &OTHER, "the store shows the changes");
}

//@ prop=L02
//@ time=60
//@ covers=paid|none
//@ bounds=every 128-bit ask, give and fill amount, against the definition over 256-bit integers
//@ assumes=division of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_fill_price() {
    sym::model_div(true);
    let (ask, give, fill) = (sym::u128("ask"), sym::u128("give"), sym::u128("fill"));
    let r = calculate_filled_amount(am(ask), am(give), am(fill)).map(|x| x.into_atoms());
    let w = Uint256::from_u128;
    let exact = (w(give) * w(fill)).and_then(|p| p / w(ask)).and_then(|q| u128::try_from(q).ok());
    match r {
        Some(_) => sym::cover("paid"),
        None => sym::cover("none"),
    }
    sym::check(r == exact, "the payout is the whole part of give * fill / ask, or an error if that is no amount");
}

//@ prop=L02
//@ time=60
//@ bounds=5-bit give, fill and ask amounts with fill not above ask, at three scales up to 2^112
//@ assumes=division of 256-bit integers is exact (C01)
#[no_mangle]
pub extern "C" fn h_fill_small() {
    sym::model_div(true);
    let s = [0u32, 60, 112][sym::choose("scale", 3)];
    let ask = sym::range("ask", 1, 31) as u32;
    let give = sym::range("give", 0, 31) as u32;
    let fill = sym::range("fill", 0, 31) as u32;
    sym::assume(fill <= ask);
    let r = calculate_filled_amount(am((ask as u128) << s), am(give as u128), am((fill as u128) << s));
    let r = match r.map(|x| x.into_atoms()) {
        Some(r) if r < 32 => r as u32,
        _ => return sym::fail("a price exists and is not above what the order gives"),
    };
    sym::check(ask * r <= give * fill && give * fill < ask * r + ask, "the payout is the whole part of give * fill / ask");
    sym::check(r <= give, "a fill never pays out more than the order gives");
    sym::check(fill != ask || r == give, "filling everything pays out everything");
}
