use common::amount_sum;
use common::primitives::amount::SignedAmount;
use common::primitives::Amount;

fn a(n: &'static str) -> (u128, Amount) {
    let v = sym::u128(n);
    (v, Amount::from_atoms(v))
}
fn s(n: &'static str) -> (i128, SignedAmount) {
    let v = sym::i128(n);
    (v, SignedAmount::from_atoms(v))
}
/// lo/hi halves of x*y
fn wide(x: u128, y: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (x0, x1, y0, y1) = (x & m, x >> 64, y & m, y >> 64);
    let (p00, p01, p10, p11) = (x0 * y0, x0 * y1, x1 * y0, x1 * y1);
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    let lo = (p00 & m) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (lo, hi)
}

//@ prop=C02
//@ time=60
//@ covers=sum fits|sum overflows|difference fits|negative
//@ bounds=all pairs of Amounts
#[no_mangle]
pub extern "C" fn h_amount_add_sub() {
    let ((x, ax), (y, ay)) = (a("x"), a("y"));
    match ax + ay {
        Some(r) => {
            sym::cover("sum fits");
            sym::check(y <= u128::MAX - x, "a sum above the maximum is None");
            sym::check(r.into_atoms() == x.wrapping_add(y), "the sum is exact");
        }
        None => {
            sym::cover("sum overflows");
            sym::check(y > u128::MAX - x, "the sum is None only when it does not fit");
        }
    }
    match ax - ay {
        Some(r) => {
            sym::cover("difference fits");
            sym::check(x >= y, "a negative difference is None");
            sym::check(r.into_atoms() == x.wrapping_sub(y), "the difference is exact");
        }
        None => {
            sym::cover("negative");
            sym::check(x < y, "the difference is None only when negative");
        }
    }
    sym::check(ax.abs_diff(ay).into_atoms() == if x > y { x - y } else { y - x }, "abs_diff");
    sym::check((ax < ay) == (x < y) && (ax == ay) == (x == y) && (ax <= ay) == (x <= y), "comparison is numeric");
    sym::check(ax.as_non_zero() == (x != 0).then_some(ax), "as_non_zero");
    sym::check((ax & ay).into_atoms() == x & y && (ax | ay).into_atoms() == x | y && (ax ^ ay).into_atoms() == x ^ y && (!ax).into_atoms() == !x, "bitwise operators");
    let (mut b, mut c, mut d) = (ax, ax, ax);
    b &= ay;
    c |= ay;
    d ^= ay;
    sym::check(b == ax & ay && c == ax | ay && d == ax ^ ay, "assigning operators");
}

//@ prop=C02
//@ time=60
//@ covers=fits|overflows
//@ bounds=all sums of up to 4 Amounts, in iterator form and in amount_sum! form
#[no_mangle]
pub extern "C" fn h_amount_sum() {
    let n = sym::choose("n", 5);
    let mut v = vec![];
    let (mut lo, mut over) = (0u128, false);
    for _ in 0..n {
        let (x, ax) = a("x");
        let (s, c) = lo.overflowing_add(x);
        lo = s;
        over |= c;
        v.push(ax);
    }
    let r: Option<Amount> = v.iter().copied().sum();
    sym::check(r == if over { None } else { Some(Amount::from_atoms(lo)) }, "sum() is the exact sum or None");
    sym::cover_if(over, "overflows");
    sym::cover_if(!over, "fits");
    if n == 3 {
        sym::check(amount_sum!(v[0], v[1], v[2]) == r, "amount_sum! is the exact sum or None");
    }
    let mut v = vec![];
    let (mut acc, mut bad) = (0i128, false);
    for _ in 0..n.min(3) {
        let (x, ax) = s("y");
        let (s, c) = acc.overflowing_add(x);
        acc = s;
        bad |= c;
        v.push(ax);
    }
    let r: Option<SignedAmount> = v.into_iter().sum();
    // a sum of signed amounts may leave the range in the middle
    sym::check(r == if bad { None } else { Some(SignedAmount::from_atoms(acc)) }, "signed sum() is exact or None");
}

//@ prop=C02
//@ time=120
//@ covers=fits|overflows
//@ bounds=all pairs of Amount and multiplier
#[no_mangle]
pub extern "C" fn h_amount_mul() {
    let (x, ax) = a("x");
    let y = sym::u128("y");
    let (lo, over) = x.overflowing_mul(y);
    let hi = over as u8;
    match ax * y {
        Some(r) => {
            sym::cover("fits");
            sym::check(hi == 0, "a product above the maximum is None");
            sym::check(r.into_atoms() == lo, "the product is exact");
        }
        None => {
            sym::cover("overflows");
            sym::check(hi != 0, "the product is None only when it does not fit");
        }
    }
}

//@ prop=C02
//@ time=120
//@ bounds=division and remainder of every Amount by 0, by every u16 (dividends below 2^16) and by constants 1, 2, 10, 1000, 10^11, u128::MAX
#[no_mangle]
pub extern "C" fn h_amount_div() {
    let (x, ax) = a("x");
    sym::check((ax / 0).is_none() && (ax % 0).is_none(), "division by zero is None");
    match sym::choose("by", 7) {
        0 => {
            sym::assume(x <= 0xffff);
            let y = sym::u16("y") as u128;
            sym::assume(y != 0);
            sym::check((ax / y).map(|v| v.into_atoms()) == Some((x as u16 / y as u16) as u128), "the quotient is exact");
            sym::check((ax % y).map(|v| v.into_atoms()) == Some((x as u16 % y as u16) as u128), "the remainder is exact");
        }
        k => {
            let y = [1, 2, 10, 1000, 100_000_000_000, u128::MAX][k - 1];
            let (q, r) = match (ax / y, ax % y) {
                (Some(q), Some(r)) => (q.into_atoms(), r.into_atoms()),
                _ => return sym::fail("division by a non-zero number is None"),
            };
            sym::check(r < y, "the remainder is below the divisor");
            sym::check(q.checked_mul(y).and_then(|p| p.checked_add(r)) == Some(x), "quotient * divisor + remainder is the dividend");
        }
    }
}

//@ prop=C02
//@ time=60
//@ covers=in range|out of range
//@ bounds=all Amounts, all 32-bit shift distances; all conversions between Amount and SignedAmount
#[no_mangle]
pub extern "C" fn h_amount_shift_convert() {
    let (x, ax) = a("x");
    let k = sym::u32("k");
    if k < 128 {
        sym::check((ax << k).map(|v| v.into_atoms()) == Some(x << k), "<<");
        sym::check((ax >> k).map(|v| v.into_atoms()) == Some(x >> k), ">>");
    } else {
        sym::check((ax << k).is_none() && (ax >> k).is_none(), "shifts by the width or more are None");
    }
    let fits = x <= i128::MAX as u128;
    sym::cover_if(fits, "in range");
    sym::cover_if(!fits, "out of range");
    let want = if fits { Some(SignedAmount::from_atoms(x as i128)) } else { None };
    sym::check(ax.into_signed() == want, "into_signed");
    sym::check(SignedAmount::from_unsigned(ax) == want, "from_unsigned");
    let (y, sy) = s("y");
    let want = if y >= 0 { Some(Amount::from_atoms(y as u128)) } else { None };
    sym::check(sy.into_unsigned() == want, "into_unsigned");
    sym::check(Amount::from_signed(sy) == want, "from_signed");
    sym::check(-sy == if y == i128::MIN { None } else { Some(SignedAmount::from_atoms(-y)) }, "negation");
}

//@ prop=C02
//@ time=60
//@ covers=fits|overflows
//@ bounds=all pairs of SignedAmounts for + and - and the order
#[no_mangle]
pub extern "C" fn h_signed_add_sub() {
    let ((x, ax), (y, ay)) = (s("x"), s("y"));
    let sum = x.wrapping_add(y);
    // signed overflow: equal signs in, other sign out
    let over = (x < 0) == (y < 0) && (sum < 0) != (x < 0);
    sym::cover_if(over, "overflows");
    sym::cover_if(!over, "fits");
    sym::check(ax + ay == if over { None } else { Some(SignedAmount::from_atoms(sum)) }, "the signed sum is exact or None");
    let dif = x.wrapping_sub(y);
    let over = (x < 0) != (y < 0) && (dif < 0) != (x < 0);
    sym::check(ax - ay == if over { None } else { Some(SignedAmount::from_atoms(dif)) }, "the signed difference is exact or None");
    sym::check((ax < ay) == (x < y) && (ax == ay) == (x == y), "signed comparison is numeric");
}

//@ prop=C02
//@ time=120
//@ covers=fits|overflows
//@ bounds=signed multiplication, division, remainder: every SignedAmount by -2, -1, 0, 1, 2, 3, i128::MIN and i128::MAX
#[no_mangle]
pub extern "C" fn h_signed_mul_div() {
    let (x, ax) = s("x");
    let y = [-2, -1, 0, 1, 2, 3, i128::MIN, i128::MAX][sym::choose("y", 8)];
    let (p, over) = x.overflowing_mul(y);
    let want = if over { None } else { Some(SignedAmount::from_atoms(p)) };
    sym::cover_if(!over, "fits");
    sym::cover_if(over, "overflows");
    sym::check(ax * y == want, "the signed product is exact or None");
    let neg = (x < 0) != (y < 0);
    if y == 0 {
        sym::check((ax / y).is_none() && (ax % y).is_none(), "signed division by zero is None");
    } else if y == -1 && x == i128::MIN {
        sym::check((ax / y).is_none(), "MIN / -1 is None");
    } else {
        let q = x.unsigned_abs() / y.unsigned_abs();
        let r = x.unsigned_abs() % y.unsigned_abs();
        let q = if neg { (q as i128).wrapping_neg() } else { q as i128 };
        let r = if x < 0 { (r as i128).wrapping_neg() } else { r as i128 };
        sym::check(ax / y == Some(SignedAmount::from_atoms(q)), "the signed quotient truncates towards zero");
        sym::check(ax % y == Some(SignedAmount::from_atoms(r)), "the signed remainder has the dividend's sign");
    }
}
