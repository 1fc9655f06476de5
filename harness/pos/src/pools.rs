use common::chain::{DelegationId, Destination, PoolId};
use common::primitives::{per_thousand::PerThousand, Amount, H256};
use crypto::vrf::VRFPublicKey;
use pos_accounting::*;
use serialization::Decode;
use std::collections::BTreeMap;

type Db = PoSAccountingDB<InMemoryPoSAccounting, DefaultStorageTag>;

// The pool and the delegation under test, beside another pool with delegations whose ids lie around theirs.
fn pid(k: u8) -> PoolId {
    PoolId::new(H256([k; 32]))
}
fn did(k: u8) -> DelegationId {
    DelegationId::new(H256([k; 32]))
}
const P: u8 = 5;
const P2: u8 = 6;
/// the last possible id, so that ranges over ids have to include their end
const D: u8 = 0xff;
/// the first possible id, in the same pool
const D0: u8 = 0;
const D2: u8 = 1;

const TOP: u128 = i128::MAX as u128;

fn am(v: u128) -> Amount {
    Amount::from_atoms(v)
}

/// encoding of the ristretto base point, a valid key
const KEY: [u8; 33] = [
    0, 0xe2, 0xf2, 0xae, 0x0a, 0x6a, 0xbc, 0x4e, 0x71, 0xa8, 0x84, 0xa9, 0x61, 0xc5, 0x00, 0x51, 0x5f, 0x58, 0xe3, 0x0b,
    0x6a, 0xa5, 0x82, 0xdd, 0x8d, 0xb6, 0xa6, 0x59, 0x45, 0xe0, 0x8d, 0x2d, 0x76,
];

#[derive(Clone)]
struct Env {
    vrf: VRFPublicKey,
    /// amounts of all 128 bits, or of 16
    wide: bool,
}

#[derive(Clone, Copy, PartialEq)]
struct Model {
    /// pledge and staker rewards
    pool: Option<(u128, u128)>,
    pool_bal: u128,
    /// the delegation's balance, which is also its share in the pool
    del: bool,
    del_bal: u128,
    /// a second delegation to the same pool
    del0_bal: u128,
}

impl Env {
    fn amount(&self, name: &'static str) -> u128 {
        if self.wide {
            sym::u128(name)
        } else {
            sym::u16(name) as u128
        }
    }

    fn pool(&self, pledge: u128, rewards: u128) -> PoolData {
        PoolData::new(
            Destination::AnyoneCanSpend,
            am(pledge),
            am(rewards),
            self.vrf.clone(),
            PerThousand::new(10).unwrap(),
            am(3),
        )
    }

    fn same<V: PoSAccountingView>(&self, v: &V, m: &Model, msg: &'static str) {
        let atoms = |a: Option<Amount>| a.map(|x| x.into_atoms());
        sym::check(v.get_pool_data(pid(P)).ok() == Some(m.pool.map(|(p, r)| self.pool(p, r))), msg);
        sym::check(v.pool_exists(pid(P)).ok() == Some(m.pool.is_some()), msg);
        sym::check(atoms(v.get_pool_balance(pid(P)).ok()) == Some(m.pool_bal), msg);
        let d = v.get_delegation_data(did(D)).ok();
        sym::check(d == Some(m.del.then(|| DelegationData::new(pid(P), Destination::AnyoneCanSpend))), msg);
        sym::check(atoms(v.get_delegation_balance(did(D)).ok()) == Some(m.del_bal), msg);
        sym::check(atoms(v.get_pool_delegation_share(pid(P), did(D)).ok()) == Some(m.del_bal), msg);
        sym::check(atoms(v.get_pool_delegation_share(pid(P), did(D0)).ok()) == Some(m.del0_bal), msg);
        // the shares of the whole pool, apart from entries of nothing
        match v.get_pool_delegations_shares(pid(P)) {
            Err(_) => sym::fail(msg),
            Ok(s) => {
                let s = s.unwrap_or_default();
                let get = |k: u8| s.get(&did(k)).map_or(0, |a| a.into_atoms());
                sym::check(get(D) == m.del_bal && get(D0) == m.del0_bal, msg);
                sym::check(s.keys().all(|k| *k == did(D) || *k == did(D0)), msg);
            }
        }
        // the other pool
        sym::check(v.get_pool_data(pid(P2)).ok() == Some(Some(self.pool(100, 1))), msg);
        sym::check(atoms(v.get_pool_balance(pid(P2)).ok()) == Some(109), msg);
        sym::check(atoms(v.get_delegation_balance(did(D2)).ok()) == Some(8), msg);
        let s = v.get_pool_delegations_shares(pid(P2)).ok().flatten().unwrap_or_default();
        sym::check(s.len() == 1 && s.get(&did(D2)) == Some(&am(8)), msg);
    }

    fn db(&self, m: &Model) -> InMemoryPoSAccounting {
        let (mut pd, mut pb, mut sh, mut db, mut dd) =
            (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        if let Some((p, r)) = m.pool {
            pd.insert(pid(P), self.pool(p, r));
        }
        if m.pool_bal > 0 {
            pb.insert(pid(P), am(m.pool_bal));
        }
        let mut del = |k: u8, p: u8, b: u128| {
            dd.insert(did(k), DelegationData::new(pid(p), Destination::AnyoneCanSpend));
            if b > 0 {
                db.insert(did(k), am(b));
                sh.insert((pid(p), did(k)), am(b));
            }
        };
        if m.del {
            del(D, P, m.del_bal);
        }
        del(D0, P, m.del0_bal);
        pd.insert(pid(P2), self.pool(100, 1));
        pb.insert(pid(P2), am(109));
        del(D2, P2, 8);
        InMemoryPoSAccounting::from_values(pd, pb, sh, db, dd)
    }

    fn step<W: PoSAccountingView>(&self, c: &mut PoSAccountingDelta<W>, m: &mut Model) -> Option<PoSAccountingUndo> {
        let dest = Destination::AnyoneCanSpend;
        let small = |x: u128| x <= TOP;
        let (r, want) = match sym::choose("op", 7) {
            0 => {
                let x = self.amount("pledge");
                let want = (m.pool.is_none() && m.pool_bal == 0 && small(x))
                    .then_some(Model { pool: Some((x, 0)), pool_bal: x, ..*m });
                (c.create_pool(pid(P), self.pool(x, 0)), want)
            }
            1 => (c.decommission_pool(pid(P)), m.pool.map(|_| Model { pool: None, pool_bal: 0, ..*m })),
            2 => {
                let x = self.amount("reward");
                let r = c.increase_staker_rewards(pid(P), am(x));
                if r.is_ok() && !m.pool_bal.checked_add(x).map_or(false, small) {
                    sym::check(c.get_pool_balance(pid(P)).is_err(), "a balance beyond the representable range cannot be read");
                    sym::assume(false);
                }
                let want = m.pool.and_then(|(p, w)| Some(Model { pool: Some((p, w.checked_add(x)?)), pool_bal: m.pool_bal.checked_add(x)?, ..*m }));
                (r, want.filter(|w| small(w.pool_bal)))
            }
            3 => {
                let want = (m.pool.is_some() && !m.del).then_some(Model { del: true, ..*m });
                (c.create_delegation_id(pid(P), did(D), dest), want)
            }
            4 => {
                let want = (m.del && m.del_bal == 0 && m.pool.is_none()).then_some(Model { del: false, ..*m });
                (c.delete_delegation_id(did(D)), want)
            }
            5 => {
                let x = self.amount("delegate");
                let r = c.delegate_staking(did(D), am(x));
                if r.is_ok() && !(m.del_bal.checked_add(x).map_or(false, small) && m.pool_bal.checked_add(x).map_or(false, small)) {
                    sym::cover("unrepresentable");
                    let e = c.get_pool_balance(pid(P)).is_err() || c.get_delegation_balance(did(D)).is_err();
                    sym::check(e, "a balance beyond the representable range cannot be read");
                    sym::assume(false);
                }
                let want = if m.del { m.del_bal.checked_add(x).zip(m.pool_bal.checked_add(x)) } else { None };
                let want = want.filter(|(d, p)| small(*d) && small(*p));
                (r, want.map(|(d, p)| Model { del_bal: d, pool_bal: p, ..*m }))
            }
            _ => {
                let x = self.amount("spend");
                // (an id of a pool is never used again, so its delegations are within its balance)
                sym::assume(m.pool.is_none() || m.del_bal <= m.pool_bal);
                let r = c.spend_share_from_delegation_id(did(D), am(x));
                if r.is_ok() && x > m.del_bal {
                    sym::cover("overspent");
                    let e = c.get_pool_delegation_share(pid(P), did(D)).is_err() && c.get_delegation_balance(did(D)).is_err();
                    sym::check(e, "a balance below zero cannot be read");
                    sym::assume(false);
                }
                let want = (m.del && x <= m.del_bal).then(|| Model {
                    del_bal: m.del_bal - x,
                    pool_bal: if m.pool.is_some() { m.pool_bal - x } else { m.pool_bal },
                    ..*m
                });
                (r, want)
            }
        };
        match r {
            Ok(u) => {
                sym::cover("accepted");
                match want {
                    Some(w) => *m = w,
                    None => sym::fail("an operation the state does not allow is accepted"),
                }
                Some(u)
            }
            Err(_) => {
                sym::cover("refused");
                sym::check(want.is_none(), "an operation the state allows is refused");
                None
            }
        }
    }
}

fn start(wide: bool) -> (Env, Model) {
    let vrf = VRFPublicKey::decode(&mut &KEY[..]).unwrap();
    let env = Env { vrf, wide };
    let del = sym::flag("delegation");
    let (mut del_bal, mut del0_bal) = (0, 7);
    if del {
        del_bal = env.amount("delegated");
        sym::assume(del_bal <= TOP);
    }
    let pool = if sym::flag("pool") { Some((env.amount("pledge"), env.amount("rewards"))) } else { None };
    let mut pool_bal = 0;
    if let Some((p, r)) = pool {
        let s = p.checked_add(r).and_then(|s| s.checked_add(del_bal)).and_then(|s| s.checked_add(7));
        sym::assume(s.map_or(false, |s| s <= TOP));
        pool_bal = s.unwrap();
    } else {
        del0_bal = 7;
    }
    (env, Model { pool, pool_bal, del, del_bal, del0_bal })
}

fn ops(n: usize) {
    let (env, m0) = start(n == 1);
    let store = Db::new(env.db(&m0));
    let mut m = m0;
    let mut c = PoSAccountingDelta::new(&store);
    env.same(&c, &m, "a fresh delta shows its parent");
    let mut done = vec![];
    for _ in 0..n {
        let before = m;
        if let Some(u) = env.step(&mut c, &mut m) {
            done.push((u, before));
        }
        env.same(&c, &m, "the view is the reference state");
    }
    while let Some((u, before)) = done.pop() {
        sym::check(c.undo(u).is_ok(), "an accepted operation can be undone");
        env.same(&c, &before, "undoing restores the state before the operation");
    }
}

//@ prop=L04
//@ time=60
//@ covers=accepted|refused|unrepresentable|overspent
//@ bounds=any state of one pool and one delegation with any 128-bit amounts, one operation of any kind with any amount, undone; another delegation to the pool and another pool beside them
#[no_mangle]
pub extern "C" fn h_pos_op() {
    ops(1)
}

//@ prop=L04
//@ time=120
//@ covers=accepted|refused
//@ bounds=two operations in a row with 16-bit amounts, undone in reverse
#[no_mangle]
pub extern "C" fn h_pos_ops2() {
    ops(2)
}

//@ prop=L04
//@ time=120
//@ covers=accepted|refused
//@ bounds=two operations with 16-bit amounts, one in each of two stacked deltas, merged into the parent delta and then into the store, and the store's merge undone
#[no_mangle]
pub extern "C" fn h_pos_flush() {
    let (env, m0) = start(false);
    let mut store = Db::new(env.db(&m0));
    let mut m = m0;
    let delta = {
        let mut c = PoSAccountingDelta::new(&store);
        let _ = env.step(&mut c, &mut m);
        let m1 = m;
        let inner = {
            let mut c2 = PoSAccountingDelta::new(&c);
            let _ = env.step(&mut c2, &mut m);
            env.same(&c2, &m, "a stacked delta shows its own and its parent's changes");
            c2.consume()
        };
        match c.merge_with_delta(inner.clone()) {
            Ok(u) => {
                env.same(&c, &m, "merging into the parent delta keeps the state");
                sym::check(c.undo_delta_merge(u).is_ok(), "a merge can be undone");
                env.same(&c, &m1, "undoing a merge restores the parent delta");
                sym::check(c.merge_with_delta(inner).is_ok(), "and merged again");
            }
            Err(_) => sym::fail("a delta can be merged into its parent"),
        }
        c.consume()
    };
    match store.merge_with_delta(delta) {
        Ok(u) => {
            env.same(&store, &m, "the store shows the changes");
            sym::check(store.undo_merge_with_delta(u).is_ok(), "the store's merge can be undone");
            env.same(&store, &m0, "undoing the merge restores the store");
        }
        Err(_) => sym::fail("the changes can be written to the store"),
    }
}
