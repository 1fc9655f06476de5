use accounting::{combine_data_with_delta, DataDelta, DeltaDataCollection, Error, GetDataResult};

type D = DataDelta<u16>;
type C = DeltaDataCollection<u8, u16>;

fn opt(n: &'static str, m: &'static str) -> Option<u16> {
    if sym::flag(n) {
        Some(sym::u16(m))
    } else {
        None
    }
}

fn delta() -> (Option<u16>, Option<u16>) {
    (opt("old?", "old"), opt("new?", "new"))
}

fn d(x: (Option<u16>, Option<u16>)) -> D {
    DataDelta::new(x.0, x.1)
}

/// What a delta means: how it changes a stored value.
fn apply(base: Option<u16>, x: Option<(Option<u16>, Option<u16>)>) -> Result<Option<u16>, Error> {
    combine_data_with_delta(base, x.map(d))
}

//@ prop=A01
//@ time=60
//@ covers=applied|refused
//@ bounds=every stored value and every delta (16-bit data)
#[no_mangle]
pub extern "C" fn h_delta_apply() {
    let base = opt("base?", "base");
    let x = if sym::flag("delta?") { Some(delta()) } else { None };
    let r = apply(base, x);
    match x {
        None => sym::check(r == Ok(base), "no delta leaves the data alone"),
        // a delta that claims nothing was there and leaves nothing is of no use to existing data
        Some((old, new)) => {
            if old == base {
                sym::cover("applied");
                sym::check(r == Ok(new), "a delta whose old value is the stored one replaces it by its new one");
            } else {
                sym::cover("refused");
                sym::check(r.is_err(), "a delta for another old value is refused");
            }
        }
    }
}

//@ prop=A01
//@ time=100
//@ covers=merged|refused
//@ bounds=one key, three deltas in a row of any 16-bit data (present or absent), and every stored value they apply to
#[no_mangle]
pub extern "C" fn h_delta_chain() {
    let (x, y, z) = (delta(), delta(), delta());
    let mut c = C::new();
    sym::check(c.get_data(&7) == GetDataResult::Missing, "an untouched key is missing");
    let ux = c.merge_delta_data_element(7, d(x));
    sym::check(ux.is_ok(), "the first delta of a key is always taken");
    let before = c.clone();
    match c.merge_delta_data_element(7, d(y)) {
        Ok(uy) => {
            sym::cover("merged");
            sym::check(x.1 == y.0, "only deltas that continue each other merge");
            sym::check(c.data().len() == 1 && c.data()[&7] == d((x.0, y.1)), "two deltas merge into one with the first's old and the second's new value");
            match y.1 {
                Some(v) => sym::check(c.get_data(&7) == GetDataResult::Present(&v), "the newest value is read"),
                None => sym::check(c.get_data(&7) == GetDataResult::Deleted, "a removed value reads as deleted"),
            }
            // associativity, and the effect on stored data
            let mut left = c.clone();
            let mut yz = C::new();
            let _ = yz.merge_delta_data_element(7, d(y));
            let a = left.merge_delta_data_element(7, d(z));
            let b = yz.merge_delta_data_element(7, d(z));
            sym::check(a.is_ok() == b.is_ok(), "merging is associative (errors)");
            if b.is_ok() {
                let mut right = before.clone();
                sym::check(right.merge_delta_data(yz).is_ok() && right == left, "merging is associative");
            }
            if let Ok(v1) = apply(x.0, Some(x)) {
                sym::check(apply(v1, Some(y)) == apply(x.0, Some((x.0, y.1))), "a merged delta acts like its parts in turn");
            }
            sym::check(c.undo_merge_delta_data_element(7, uy).is_ok() && c == before, "undoing a merge restores the collection");
            // all the way back: the remaining delta changes nothing any more
            if let Ok(ux) = ux {
                sym::check(c.undo_merge_delta_data_element(7, ux).is_ok(), "undo works twice in a row");
                sym::check(c.data().get(&7) == Some(&d((x.0, x.0))), "undoing the first delta leaves one without effect");
            }
        }
        Err(e) => {
            sym::cover("refused");
            sym::check(x.1 != y.0 && e == Error::DeltaDataMismatch, "deltas that continue each other merge");
        }
    }
}

//@ prop=A01
//@ time=100
//@ ttime=900
//@ covers=merged|refused
//@ bounds=collections over up to three keys, each key absent or present on either side, with any 16-bit data
#[no_mangle]
pub extern "C" fn h_delta_collections() {
    let (mut a, mut b) = ([None; 3], [None; 3]);
    let n = 3;
    for k in 0..n {
        match sym::choose("sides", 4) {
            0 => {}
            1 => a[k] = Some(delta3()),
            2 => b[k] = Some(delta3()),
            _ => {
                a[k] = Some(delta3());
                b[k] = Some(delta3());
            }
        }
    }
    let coll = |v: &[Option<(Option<u16>, Option<u16>)>]| -> C { v.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i as u8, d(x)))).collect() };
    let (ca, cb) = (coll(&a), coll(&b));
    let mut c = ca.clone();
    let fits = (0..n).all(|k| match (a[k], b[k]) {
        (Some(x), Some(y)) => x.1 == y.0,
        _ => true,
    });
    match c.merge_delta_data(cb) {
        Ok(u) => {
            sym::cover("merged");
            sym::check(fits, "a merge with a mismatch is refused");
            sym::check(u.data().len() == b.iter().flatten().count(), "undo data for exactly the merged keys");
            for k in 0..n {
                let want = match (a[k], b[k]) {
                    (Some(x), Some(y)) => Some((x.0, y.1)),
                    (x, y) => x.or(y),
                };
                sym::check(c.data().get(&(k as u8)).cloned() == want.map(d), "each key gets its merged delta");
            }
            sym::check(c.undo_merge_delta_data(u).is_ok(), "a merge can be undone");
            for k in 0..n {
                let want = a[k].or(b[k].map(|y| (y.0, y.0)));
                sym::check(c.data().get(&(k as u8)).cloned() == want.map(d), "undo restores each key's effect");
            }
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!fits, "a consistent merge is accepted");
        }
    }
}

fn delta3() -> (Option<u16>, Option<u16>) {
    // presence as symbolic data: one path for all four
    let t = |n: &'static str, m: &'static str| {
        let v = sym::u16(n);
        if sym::flag(m) {
            Some(v)
        } else {
            None
        }
    };
    (t("old", "old?"), t("new", "new?"))
}
