use accounting::{combine_amount_delta, DeltaAmountCollection, Error};
use common::primitives::amount::SignedAmount;
use common::primitives::Amount;

type C = DeltaAmountCollection<u8>;

fn sa(v: i128) -> SignedAmount {
    SignedAmount::from_atoms(v)
}

//@ prop=A02
//@ time=60
//@ covers=applied|refused
//@ bounds=every balance and every signed delta
#[no_mangle]
pub extern "C" fn h_balance_delta() {
    let (a, x) = (sym::u128("balance"), sym::i128("delta"));
    let bal = Amount::from_atoms(a);
    sym::check(combine_amount_delta(bal, None) == Ok(bal), "no delta leaves the balance alone");
    let r = combine_amount_delta(bal, Some(sa(x)));
    // exact sum, where it can be represented as a signed amount on the way
    let ok = a <= i128::MAX as u128 && (a as i128).checked_add(x).map_or(false, |s| s >= 0);
    match r {
        Ok(s) => {
            sym::cover("applied");
            sym::check(ok && s.into_atoms() as i128 == a as i128 + x, "the new balance is the exact sum");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!ok, "a representable balance is not refused");
        }
    }
}

fn get(c: &C, k: u8) -> i128 {
    c.data().get(&k).map_or(0, |a| a.into_atoms())
}

//@ prop=A02
//@ time=100
//@ ttime=900
//@ covers=added|refused
//@ bounds=up to three operations (merge an element, add, subtract) with any 128-bit amounts on two keys
#[no_mangle]
pub extern "C" fn h_amount_ops() {
    let mut c = C::new();
    let mut m = [0i128; 2];
    for _ in 0..3 {
        let k = sym::choose("key", 2);
        let before = c.clone();
        let (r, want): (Result<(), Error>, Option<i128>) = match sym::choose("op", 3) {
            0 => {
                let x = sym::i128("delta");
                (c.merge_delta_amount_element(k as u8, sa(x)), m[k].checked_add(x))
            }
            1 => {
                let x = sym::u128("add");
                (c.add_unsigned(k as u8, Amount::from_atoms(x)), i128::try_from(x).ok().and_then(|x| m[k].checked_add(x)))
            }
            _ => {
                let x = sym::u128("sub");
                (c.sub_unsigned(k as u8, Amount::from_atoms(x)), i128::try_from(x).ok().and_then(|x| m[k].checked_sub(x)))
            }
        };
        match want {
            Some(v) => {
                sym::cover("added");
                sym::check(r.is_ok(), "a representable sum is accepted");
                m[k] = v;
            }
            None => {
                sym::cover("refused");
                sym::check(r.is_err() && c == before, "an overflowing change is refused and changes nothing");
            }
        }
    }
    for k in 0..2u8 {
        sym::check(get(&c, k) == m[k as usize], "the collection holds the exact sums");
        sym::check(c.data().get(&k).map_or(true, |a| a.into_atoms() != 0), "changes that cancel out leave no entry");
    }
}

//@ prop=A02
//@ time=100
//@ covers=merged|refused
//@ bounds=two collections over two keys with any non-zero 128-bit amounts (each key present or absent on either side)
#[no_mangle]
pub extern "C" fn h_amount_merge_undo() {
    let (mut a, mut b) = (C::new(), C::new());
    let (mut va, mut vb) = ([0i128; 2], [0i128; 2]);
    for k in 0..2usize {
        let s = sym::choose("sides", 4);
        if s & 1 != 0 {
            va[k] = sym::i128("a");
            sym::assume(va[k] != 0);
            let _ = a.merge_delta_amount_element(k as u8, sa(va[k]));
        }
        if s & 2 != 0 {
            vb[k] = sym::i128("b");
            sym::assume(vb[k] != 0);
            let _ = b.merge_delta_amount_element(k as u8, sa(vb[k]));
        }
    }
    let mut c = a.clone();
    let fits = va[0].checked_add(vb[0]).is_some() && va[1].checked_add(vb[1]).is_some();
    match c.merge_delta_amounts(b.clone()) {
        Ok(()) => {
            sym::cover("merged");
            sym::check(fits && get(&c, 0) == va[0] + vb[0] && get(&c, 1) == va[1] + vb[1], "merging adds key by key");
            sym::check(c.data().values().all(|x| x.into_atoms() != 0), "no zero entries");
            match c.undo_merge_delta_amounts(b) {
                Ok(()) => sym::check(c == a, "undoing a merge restores the collection"),
                // i128::MIN has no negation
                Err(_) => sym::check(vb[0] == i128::MIN || vb[1] == i128::MIN, "only the one amount without a negation cannot be undone"),
            }
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!fits, "a representable merge is accepted");
        }
    }
}

//@ prop=A02
//@ time=60
//@ bounds=every three amounts merged in both groupings
#[no_mangle]
pub extern "C" fn h_amount_grouping() {
    let (x, y, z) = (sym::i128("x"), sym::i128("y"), sym::i128("z"));
    let one = |v| {
        let mut c = C::new();
        let _ = c.merge_delta_amount_element(0, sa(v));
        c
    };
    let (mut l, mut yz) = (one(x), one(y));
    let a = l.merge_delta_amounts(one(y)).and_then(|_| l.merge_delta_amounts(one(z)));
    let mut r = one(x);
    let b = yz.merge_delta_amounts(one(z)).and_then(|_| r.merge_delta_amounts(yz));
    if a.is_ok() && b.is_ok() {
        sym::cover("both");
        sym::check(l == r, "grouping does not matter");
    }
}
