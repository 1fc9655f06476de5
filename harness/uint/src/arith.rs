use common::uint::BitArray;
use common::{Uint128, Uint256, Uint512};
use std::cmp::Ordering;

fn words<const N: usize>(n: &'static str) -> [u64; N] {
    let mut w = [0u64; N];
    for x in w.iter_mut() {
        *x = sym::u64(n);
    }
    w
}

/// All words 0 or all 1 but one, which has 8 free bits at either end.
fn lone<const N: usize>(n: &'static str) -> [u64; N] {
    let mut w = [0u64.wrapping_sub(sym::choose("fill", 2) as u64); N];
    let v = sym::u16(n) as u64;
    let i = sym::choose("at", N);
    w[i] = w[i] & 0x00ff_ffff_ffff_ff00 | v & 255 | (v >> 8) << 56;
    w
}
/// Words with 4 free bits at either end and one free bit repeated 56 times between them.
fn sparse<const N: usize>(n: &'static str) -> [u64; N] {
    let mut w = [0u64; N];
    for x in w.iter_mut() {
        let v = sym::u16(n) as u64;
        let mid = 0u64.wrapping_sub(v >> 8 & 1) & ((1 << 56) - 1);
        *x = (v & 15) | mid << 4 | (v >> 4 & 15) << 60;
    }
    w
}

// --- oracles --------------------------------------------------------------------------------

fn o_add<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0u64; N];
    let mut c = 0u128;
    for i in 0..N {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    (r, c != 0)
}
fn o_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0u64; N];
    let mut borrow = 0u128;
    for i in 0..N {
        let s = (1u128 << 64) + a[i] as u128 - b[i] as u128 - borrow;
        r[i] = s as u64;
        borrow = 1 - (s >> 64);
    }
    (r, borrow != 0)
}
fn o_lt<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    o_sub(a, b).1
}
fn get<const N: usize>(a: &[u64; N], i: isize) -> u64 {
    if i < 0 || i >= N as isize {
        0
    } else {
        a[i as usize]
    }
}
fn o_shl<const N: usize>(a: &[u64; N], s: usize) -> [u64; N] {
    let (w, b) = ((s / 64) as isize, s % 64);
    let mut r = [0u64; N];
    for i in 0..N as isize {
        let pair = (get(a, i - w) as u128) << 64 | get(a, i - w - 1) as u128;
        r[i as usize] = (pair >> (64 - b)) as u64;
    }
    r
}
fn o_shr<const N: usize>(a: &[u64; N], s: usize) -> [u64; N] {
    let (w, b) = ((s / 64) as isize, s % 64);
    let mut r = [0u64; N];
    for i in 0..N as isize {
        let pair = (get(a, i + w + 1) as u128) << 64 | get(a, i + w) as u128;
        r[i as usize] = (pair >> b) as u64;
    }
    r
}
fn eq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut d = 0u64;
    for i in 0..N {
        d |= a[i] ^ b[i];
    }
    d == 0
}

macro_rules! suite {
    ($m:ident, $U:ident, $n:expr) => {
        mod $m {
            use super::*;
            pub fn add_sub() {
                add_sub_of(words::<$n>("a"), words::<$n>("b"))
            }
            pub fn add_sub_sparse() {
                add_sub_of(sparse::<$n>("a"), sparse::<$n>("b"))
            }
            pub fn add_sub_of(a: [u64; $n], b: [u64; $n]) {
                let (x, y) = ($U(a), $U(b));
                let (s, carry) = o_add(&a, &b);
                match x + y {
                    Some(r) => {
                        sym::cover("add fits");
                        sym::check(!carry, "checked_add is None when the sum does not fit");
                        sym::check(eq(&r.0, &s), "checked_add is the sum");
                    }
                    None => {
                        sym::cover("add overflows");
                        sym::check(carry, "checked_add is None only when the sum does not fit");
                    }
                }
                let (d, borrow) = o_sub(&a, &b);
                match x - y {
                    Some(r) => {
                        sym::cover("sub fits");
                        sym::check(!borrow, "checked_sub is None when negative");
                        sym::check(eq(&r.0, &d), "checked_sub is the difference");
                    }
                    None => {
                        sym::cover("sub negative");
                        sym::check(borrow, "checked_sub is None only when negative");
                    }
                }
            }
            pub fn order() {
                let (a, b) = (words::<$n>("a"), words::<$n>("b"));
                let (x, y) = ($U(a), $U(b));
                let o = x.cmp(&y);
                let e = eq(&a, &b);
                let l = o_lt(&a, &b);
                sym::check((o == Ordering::Equal) == e, "cmp is Equal exactly for equal numbers");
                sym::check((o == Ordering::Less) == l, "cmp is Less exactly for smaller numbers");
                sym::check((x == y) == e, "== is numeric equality");
                sym::check((x < y) == l && (x > y) == (!l && !e) && (x <= y) == (l || e) && (x >= y) == !l, "operators agree with the order");
                sym::check(x.partial_cmp(&y) == Some(o), "partial_cmp agrees with cmp");
                sym::cover_if(l, "less");
                sym::cover_if(!l && !e, "greater");
            }
            pub fn bits() {
                let (a, b) = (words::<$n>("a"), words::<$n>("b"));
                let (x, y) = ($U(a), $U(b));
                let (and, or, xor, not) = (x & y, x | y, x ^ y, !x);
                for i in 0..$n {
                    sym::check(and.0[i] == a[i] & b[i], "and");
                    sym::check(or.0[i] == a[i] | b[i], "or");
                    sym::check(xor.0[i] == a[i] ^ b[i], "xor");
                    sym::check(not.0[i] == !a[i], "not");
                }
                // bits(): 2^(bits-1) <= x < 2^bits
                let k = x.bits();
                sym::check(k <= 64 * $n, "bits is at most the width");
                let k = sym::concretize(k as u64) as usize;
                if k < 64 * $n {
                    sym::check(eq(&o_shr(&a, k), &[0; $n]), "x < 2^bits");
                }
                if k > 0 {
                    let h = o_shr(&a, k - 1);
                    sym::check(h[0] == 1, "x >= 2^(bits-1)");
                    sym::check(x.bit(k - 1), "the top bit is set");
                    sym::cover("non-zero");
                } else {
                    sym::cover("zero");
                }
                sym::check(x.low_u64() == a[0], "low_u64");
                sym::check(x.low_u32() == a[0] as u32, "low_u32");
            }
            pub fn shifts(s: usize) {
                let a = words::<$n>("a");
                let x = $U(a);
                sym::check(eq(&(x << s).0, &o_shl(&a, s)), "x << s is x * 2^s mod 2^width");
                sym::check(eq(&(x >> s).0, &o_shr(&a, s)), "x >> s is floor(x / 2^s)");
                if s < 64 * $n {
                    sym::check(x.bit(s) == (o_shr(&a, s)[0] & 1 == 1), "bit(s)");
                    let m = x.mask(s);
                    let t = o_shr(&o_shl(&a, 64 * $n - s), 64 * $n - s);
                    sym::check(eq(&m.0, &t), "mask(s) is x mod 2^s");
                    sym::cover("in range");
                }
            }
            pub fn trailing() {
                let a = words::<$n>("a");
                let x = $U(a);
                let t = sym::concretize(x.trailing_zeros() as u64) as usize;
                if t < 64 * $n {
                    sym::check(x.bit(t), "the bit at trailing_zeros is set");
                    sym::check(eq(&o_shl(&a, 64 * $n - t), &[0; $n]), "all bits below are clear");
                    sym::cover("non-zero");
                } else {
                    sym::check(eq(&a, &[0; $n]), "trailing_zeros is the width only for zero");
                    sym::cover("zero");
                }
            }
            pub fn bytes() {
                let b = sym::bytes::<{ 8 * $n }>("b");
                let le = $U::from_bytes(b);
                let be = $U::from_be_bytes(b);
                for i in 0..$n {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&b[8 * i..8 * i + 8]);
                    sym::check(le.0[i] == u64::from_le_bytes(w), "from_bytes is little endian");
                    sym::check(be.0[$n - 1 - i] == u64::from_be_bytes(w), "from_be_bytes is big endian");
                }
                sym::check(le.to_bytes() == b, "to_bytes inverts from_bytes");
                sym::check(be.to_be_bytes() == b, "to_be_bytes inverts from_be_bytes");
                sym::check($U::from_slice(&b) == Ok(le), "from_slice");
                sym::check($U::from_be_slice(&b) == Ok(be), "from_be_slice");
                sym::check($U::from_slice(&b[..8 * $n - 1]).is_err() && $U::from_be_slice(&b[..8 * $n - 1]).is_err(), "wrong lengths are rejected");
                sym::check($U::from(b) == le && $U::from(&b) == le, "From<[u8]> is little endian");
                let v = sym::u128("v");
                let u = $U::from_u128(v);
                sym::check(u.0[0] == v as u64 && u.0[1] == (v >> 64) as u64, "from_u128");
                let mut hi = 0;
                for i in 2..$n {
                    hi |= u.0[i];
                }
                sym::check(hi == 0, "from_u128 clears the upper words");
                sym::check($U::from(v as u64) == $U::from_u128(v as u64 as u128), "from u64");
            }
            /// Multiplication by a 64-bit number: the defining identity per word.
            pub fn mul_u64() {
                let a = words::<$n>("a");
                let m = sym::u32("m");
                let r = $U(a).mul_u32(m);
                let mut c = 0u128;
                let mut ok = true;
                for i in 0..$n {
                    let p = a[i] as u128 * m as u128 + c;
                    ok &= r.0[i] == p as u64;
                    c = p >> 64;
                }
                sym::check(ok, "mul_u32 is the product mod 2^width");
                sym::cover_if(c != 0, "wraps");
            }
            /// n has exactly nb bits and d exactly nb - delta bits, all free but the top one.
            pub fn div(nb: usize, delta: usize, kind: u8) {
                let top = |bits: usize, nm: &'static str| {
                    let mut w = match kind {
                        0 => words::<$n>(nm),
                        1 => sparse::<$n>(nm),
                        _ => lone::<$n>(nm),
                    };
                    for (i, x) in w.iter_mut().enumerate() {
                        if i * 64 >= bits {
                            *x = 0;
                        } else if bits - i * 64 <= 64 {
                            *x = (*x >> (64 - (bits - i * 64))) | 1 << (bits - i * 64 - 1);
                        }
                    }
                    w
                };
                let (n, d) = (top(nb, "n"), top(nb - delta, "d"));
                let (q, r) = match ($U(n) / $U(d), $U(n) % $U(d)) {
                    (Some(q), Some(r)) => (q, r),
                    _ => {
                        sym::fail("division by a non-zero number is None");
                        return;
                    }
                };
                sym::check(o_lt(&r.0, &d), "remainder < divisor");
                // q * d + r, as d has dw bits only
                let mut acc = r.0;
                let mut over = false;
                for i in 0..=delta {
                    if q.bit(i) {
                        let (s, c) = o_add(&acc, &o_shl(&d, i));
                        acc = s;
                        over |= c;
                    }
                }
                sym::check(eq(&o_shr(&q.0, delta + 1), &[0; $n]), "the quotient has at most delta+1 bits");
                sym::check(!over && eq(&acc, &n), "quotient * divisor + remainder == dividend");
                sym::cover("divided");
            }
            pub fn div_edge() {
                let n = words::<$n>("n");
                let d = words::<$n>("d");
                sym::check(($U(n) / $U::ZERO).is_none() && ($U(n) % $U::ZERO).is_none(), "division by zero is None");
                if o_lt(&n, &d) {
                    sym::assume($U(n).bits() < $U(d).bits());
                    sym::check(($U(n) / $U(d)) == Some($U::ZERO), "a smaller dividend has quotient 0");
                    sym::check(($U(n) % $U(d)) == Some($U(n)), "a smaller dividend is its own remainder");
                    sym::cover("smaller");
                }
            }
        }
    };
}
suite!(u128_, Uint128, 2);
suite!(u256_, Uint256, 4);
suite!(u512_, Uint512, 8);

//@ prop=C01
//@ time=150
//@ covers=add fits|add overflows|sub fits|sub negative
//@ bounds=all pairs of 128-bit operands for + and -
#[no_mangle]
pub extern "C" fn h_uint_add_sub_128() {
    u128_::add_sub()
}
//@ prop=C01
//@ time=150
//@ covers=less|greater
//@ bounds=all pairs of 128-bit operands for the order
#[no_mangle]
pub extern "C" fn h_uint_order_128() {
    u128_::order()
}
//@ prop=C01
//@ time=150
//@ covers=add fits|add overflows|sub fits|sub negative
//@ bounds=all pairs of 256-bit operands for + and -
#[no_mangle]
pub extern "C" fn h_uint_add_sub_256() {
    u256_::add_sub()
}
//@ prop=C01
//@ time=150
//@ covers=less|greater
//@ bounds=all pairs of 256-bit operands for the order
#[no_mangle]
pub extern "C" fn h_uint_order_256() {
    u256_::order()
}
//@ prop=C01
//@ time=150
//@ covers=add fits|add overflows|sub fits|sub negative
//@ bounds=pairs of 512-bit operands for + and - whose words have 4 free bits at either end and one free bit repeated between
#[no_mangle]
pub extern "C" fn h_uint_add_sub_512s() {
    u512_::add_sub_sparse()
}
//@ prop=C01
//@ tier=thorough
//@ time=300
//@ covers=add fits|add overflows|sub fits|sub negative
//@ bounds=all pairs of 512-bit operands for + and -
#[no_mangle]
pub extern "C" fn h_uint_add_sub_512() {
    u512_::add_sub()
}
//@ prop=C01
//@ time=150
//@ covers=less|greater
//@ bounds=all pairs of 512-bit operands for the order
#[no_mangle]
pub extern "C" fn h_uint_order_512() {
    u512_::order()
}
//@ prop=C01
//@ time=60
//@ covers=non-zero|zero
//@ bounds=all operands for & | ^ !, bits(), bit(), trailing_zeros()
#[no_mangle]
pub extern "C" fn h_uint_bits() {
    match sym::choose("width", 3) {
        0 => u128_::bits(),
        1 => u256_::bits(),
        _ => u512_::bits(),
    }
}
//@ prop=C01
//@ time=60
//@ covers=non-zero|zero
#[no_mangle]
pub extern "C" fn h_uint_trailing() {
    match sym::choose("width", 3) {
        0 => u128_::trailing(),
        1 => u256_::trailing(),
        _ => u512_::trailing(),
    }
}
//@ prop=C01
//@ time=120
//@ covers=in range
//@ enum=2000
//@ bounds=all operands and all shift distances 0..=width+1 for << >> bit mask
#[no_mangle]
pub extern "C" fn h_uint_shifts() {
    let w = sym::choose("width", 3);
    let s = sym::u16("s") as usize;
    sym::assume(s <= (128 << w) + 1);
    let s = sym::concretize(s as u64) as usize;
    match w {
        0 => u128_::shifts(s),
        1 => u256_::shifts(s),
        _ => u512_::shifts(s),
    }
}
//@ prop=C01
//@ time=60
//@ bounds=all byte strings of the exact width (and one byte less) for the byte conversions
#[no_mangle]
pub extern "C" fn h_uint_bytes() {
    match sym::choose("width", 3) {
        0 => u128_::bytes(),
        1 => u256_::bytes(),
        _ => u512_::bytes(),
    }
}
//@ prop=C01
//@ time=60
//@ covers=wraps
//@ bounds=all operands times all 32-bit factors for mul_u32
#[no_mangle]
pub extern "C" fn h_uint_mul_u32() {
    match sym::choose("width", 3) {
        0 => u128_::mul_u64(),
        1 => u256_::mul_u64(),
        _ => u512_::mul_u64(),
    }
}
//@ prop=C01
//@ time=60
//@ covers=smaller
#[no_mangle]
pub extern "C" fn h_uint_div_edge() {
    match sym::choose("width", 3) {
        0 => u128_::div_edge(),
        1 => u256_::div_edge(),
        _ => u512_::div_edge(),
    }
}

//@ prop=C01
//@ time=120
//@ covers=fits|overflows
//@ bounds=128x128-bit multiplication, all operands
#[no_mangle]
pub extern "C" fn h_uint_mul128() {
    let (a, b) = (words::<2>("a"), words::<2>("b"));
    let (lo, hi) = Uint128(a).widening_mul(&Uint128(b));
    let p = |i: usize, j: usize| a[i] as u128 * b[j] as u128;
    let (p00, p01, p10, p11) = (p(0, 0), p(0, 1), p(1, 0), p(1, 1));
    let w0 = p00 as u64;
    let t1 = (p00 >> 64) + (p01 as u64 as u128) + (p10 as u64 as u128);
    let w1 = t1 as u64;
    let t2 = (t1 >> 64) + (p01 >> 64) + (p10 >> 64) + (p11 as u64 as u128);
    let w2 = t2 as u64;
    let w3 = ((t2 >> 64) + (p11 >> 64)) as u64;
    sym::check(lo.0[0] == w0, "product word 0");
    sym::check(lo.0[1] == w1, "product word 1");
    sym::check(hi.0[0] == w2, "product word 2");
    sym::check(hi.0[1] == w3, "product word 3");
    match Uint128(a) * Uint128(b) {
        Some(r) => {
            sym::cover("fits");
            sym::check(w2 == 0 && w3 == 0, "checked_mul is None when the product does not fit");
            sym::check(r.0[0] == w0 && r.0[1] == w1, "checked_mul is the product");
        }
        None => {
            sym::cover("overflows");
            sym::check(w2 != 0 || w3 != 0, "checked_mul is None only when the product does not fit");
        }
    }
}

fn mul_rows<const N: usize, const M: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; M] {
    let mut r = [0u64; M];
    for i in 0..N {
        let mut c = 0u128;
        for j in 0..N {
            let t = a[j] as u128 * b[i] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + N] = c as u64;
    }
    r
}

//@ prop=C01
//@ time=100
//@ bounds=256x256-bit multiplication of all 128-bit numbers times 2^(64i) and 2^(64j) for 4 pairs (i,j)
#[no_mangle]
pub extern "C" fn h_uint_mul256() {
    let (mut a, mut b) = ([0; 4], [0; 4]);
    let (i, j) = [(0, 0), (2, 2), (2, 0), (1, 2)][sym::choose("at", 4)];
    a[i] = sym::u64("a");
    a[i + 1] = sym::u64("a");
    b[j] = sym::u64("b");
    b[j + 1] = sym::u64("b");
    let (lo, hi) = Uint256(a).widening_mul(&Uint256(b));
    let o: [u64; 8] = mul_rows(&a, &b);
    for i in 0..4 {
        sym::check(lo.0[i] == o[i], "low product word");
    }
    for i in 0..4 {
        sym::check(hi.0[i] == o[i + 4], "high product word");
    }
}

fn one<const N: usize>(v: u64) -> [u64; N] {
    let mut r = [0; N];
    r[0] = v;
    r
}

//@ prop=C01
//@ tier=quick
//@ time=120
//@ covers=divided
//@ bounds=division and remainder at 128 bits, all operands whose words have 4 free bits at either end and one free bit repeated between, with dividends of 1, 2, 64, 65, 66 and 128 bits and divisors at most 2 bits shorter
#[no_mangle]
pub extern "C" fn h_uint_div_128() {
    let nb = [1, 2, 64, 65, 66, 128][sym::choose("bits", 6)];
    let delta = sym::choose("delta", 3);
    sym::assume(delta < nb);
    u128_::div(nb, delta, 1)
}

//@ prop=C01
//@ tier=quick
//@ time=120
//@ covers=divided
//@ bounds=division and remainder at 256 bits, operands whose words have 4 free bits at either end and one free bit repeated between, with dividends of 66 and 256 bits and divisors 1 bit shorter
#[no_mangle]
pub extern "C" fn h_uint_div_256() {
    let nb = [66, 256][sym::choose("bits", 2)];
    let delta = 1;
    sym::assume(delta < nb);
    u256_::div(nb, delta, 2)
}

//@ prop=C01
//@ tier=thorough
//@ time=900
//@ ttime=1500
//@ covers=divided
//@ bounds=division and remainder at 512 bits, operands whose words have 4 free bits at either end and one free bit repeated between, with dividends of 66 and 512 bits and divisors 1 bit shorter
#[no_mangle]
pub extern "C" fn h_uint_div_512() {
    let nb = [66, 512][sym::choose("bits", 2)];
    let delta = 1;
    sym::assume(delta < nb);
    u512_::div(nb, delta, 2)
}

//@ prop=C01
//@ tier=thorough
//@ time=120
//@ ttime=900
//@ covers=divided
//@ bounds=division and remainder at 128 bits, all operands with dividends of 1, 2, 64, 65, 66 and 128 bits and divisors at most 2 bits shorter
#[no_mangle]
pub extern "C" fn h_uint_div_full_128() {
    let nb = [1, 2, 64, 65, 66, 128][sym::choose("bits", 6)];
    let delta = sym::choose("delta", 3);
    sym::assume(delta < nb);
    u128_::div(nb, delta, 0)
}

/// The value of an ASCII text of hexadecimal digits in one case.
fn from_hex<const N: usize>(s: &[u8], upper: bool) -> Option<[u64; N]> {
    let mut r = [0; N];
    if s.len() != 16 * N {
        return None;
    }
    for (i, c) in s.iter().enumerate() {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' if !upper => c - b'a' + 10,
            b'A'..=b'F' if upper => c - b'A' + 10,
            _ => return None,
        };
        r[N - 1 - i / 16] = r[N - 1 - i / 16] << 4 | d as u64;
    }
    Some(r)
}

macro_rules! more {
    ($m:ident, $U:ident, $n:expr) => {
        mod $m {
            use super::*;
            pub fn hex() {
                let mut w = [[0u64, 0xfedc_ba98_7654_3210][sym::choose("fill", 2)]; $n];
                let i = sym::choose("at", $n);
                w[i] ^= (sym::u8("byte") as u64) << [0, 28, 56][sym::choose("byte at", 3)];
                let x = $U(w);
                let (l, u, d) = (format!("{x:x}"), format!("{x:X}"), format!("{x:?}"));
                sym::check(from_hex(l.as_bytes(), false) == Some(w), "the hexadecimal form has all digits");
                sym::check(from_hex(u.as_bytes(), true) == Some(w), "the upper-case hexadecimal form has all digits");
                sym::check(d == format!("{x:#x}") && d[..2] == *"0x" && d[2..] == l, "the debug form is the prefixed hexadecimal form");
                sym::check(format!("{x:#X}") == format!("0X{u}"), "the alternate form has a prefix");
            }
            /// A dividend far longer than the divisor.
            pub fn div_far() {
                let mut n = [[0x9e37_79b9_7f4a_7c15, u64::MAX][sym::choose("fill", 2)]; $n];
                n[$n - 1] ^= sym::concretize(sym::range("top", 0, 3)) << 62;
                n[0] ^= sym::concretize(sym::range("low", 0, 3)) << 1;
                let mut d = [0u64; $n];
                let k = [0, 1, $n - 1][sym::choose("words", 3)];
                d[k] = [1u64, 10, 1 << 63 | 5][sym::choose("divisor", 3)];
                d[0] |= 1;
                let (q, r) = match ($U(n) / $U(d), $U(n) % $U(d)) {
                    (Some(q), Some(r)) => (q, r),
                    _ => return sym::fail("division by a non-zero number is None"),
                };
                let q = q.0.map(sym::concretize);
                sym::check(o_lt(&r.0, &d), "remainder < divisor");
                let p: [u64; 2 * $n] = mul_rows(&q, &d);
                let (mut lo, mut hi) = ([0; $n], 0);
                for i in 0..$n {
                    lo[i] = p[i];
                    hi |= p[$n + i];
                }
                let (s, c) = o_add(&lo, &r.0);
                sym::check(!c && hi == 0 && eq(&s, &n), "quotient * divisor + remainder == dividend");
                sym::cover("divided");
            }
            pub fn mul_far() {
                let fills = [0u64, u64::MAX, 0x9e37_79b9_7f4a_7c15];
                let mut a = [fills[sym::choose("fill", 3)]; $n];
                let mut b = [fills[sym::choose("other fill", 3)]; $n];
                a[sym::choose("at", $n)] = sym::concretize(sym::range("two bits", 0, 3)) << [0, 62][sym::choose("bits at", 2)];
                b[sym::choose("length", $n)..].fill(0);
                let (lo, hi) = $U(a).widening_mul(&$U(b));
                let o: [u64; 2 * $n] = mul_rows(&a, &b);
                let (mut l, mut h) = ([0; $n], [0; $n]);
                l.copy_from_slice(&o[..$n]);
                h.copy_from_slice(&o[$n..]);
                sym::check(eq(&lo.0, &l), "the low half of the product");
                sym::check(eq(&hi.0, &h), "the high half of the product");
                let small = eq(&h, &[0; $n]);
                sym::cover(if small { "fits" } else { "overflows" });
                let p = $U(a) * $U(b);
                sym::check(p.is_some() == small, "checked_mul is None exactly when the product does not fit");
                if let Some(p) = p {
                    sym::check(eq(&p.0, &l), "checked_mul is the product");
                }
            }
        }
    };
}
more!(m128, Uint128, 2);
more!(m256, Uint256, 4);
more!(m512, Uint512, 8);

//@ prop=C01
//@ time=60
//@ bounds=numbers of one of two repeated words but for one byte at three places of any word, as hexadecimal text
#[no_mangle]
pub extern "C" fn h_uint_hex() {
    sym::real_fmt(true);
    match sym::choose("width", 3) {
        0 => m128::hex(),
        1 => m256::hex(),
        _ => m512::hex(),
    }
}

//@ prop=C01
//@ time=100
//@ covers=divided
//@ bounds=dividends of one of two repeated words but for two bits at either end, divided by 9 long and short divisors (the solver enumerates the bits)
#[no_mangle]
pub extern "C" fn h_uint_div_far() {
    match sym::choose("width", 3) {
        0 => m128::div_far(),
        1 => m256::div_far(),
        _ => m512::div_far(),
    }
}

//@ prop=C01
//@ time=100
//@ covers=fits|overflows
//@ bounds=products of numbers of one of three repeated words but for two bits at either end of any word, one of them of any length, at all widths (the solver enumerates the bits)
#[no_mangle]
pub extern "C" fn h_uint_mul_far() {
    match sym::choose("width", 3) {
        0 => m128::mul_far(),
        1 => m256::mul_far(),
        _ => m512::mul_far(),
    }
}

//@ prop=C01
//@ time=60
//@ covers=narrowed|refused
//@ bounds=all numbers of every width converted to the other widths and to u128; all bit ranges of 256-bit numbers starting at 6 places
#[no_mangle]
pub extern "C" fn h_uint_convert() {
    match sym::choose("conversion", 5) {
        0 => {
            let a = words::<2>("a");
            let v: u128 = Uint128(a).into();
            sym::check(v == (a[1] as u128) << 64 | a[0] as u128, "a 128-bit number is its primitive");
            sym::check(eq(&Uint256::from(Uint128(a)).0, &[a[0], a[1], 0, 0]), "widening keeps the number");
            sym::check(eq(&Uint128::from(v).0, &a), "a primitive is its 128-bit number");
            let m = common::primitives::Amount::from_atoms(v);
            sym::check(eq(&Uint256::from_amount(m).0, &[a[0], a[1], 0, 0]) && Uint512::from(m) == Uint512::from_u128(v), "an amount is its atoms");
            sym::check(u128::try_from(Uint256::from_u128(v)) == Ok(v), "narrowing undoes widening");
        }
        1 => {
            let a = words::<4>("a");
            let big = a[2] | a[3] != 0;
            sym::cover(if big { "refused" } else { "narrowed" });
            match u128::try_from(Uint256(a)) {
                Ok(v) => sym::check(!big && v == (a[1] as u128) << 64 | a[0] as u128, "narrowing keeps the number"),
                Err(_) => sym::check(big, "narrowing is refused only when the number does not fit"),
            }
            sym::check(eq(&Uint256(a).low_128().0, &[a[0], a[1]]), "the low half");
        }
        2 => {
            let a = words::<4>("a");
            let w = Uint512::from(Uint256(a));
            sym::check(eq(&w.0, &[a[0], a[1], a[2], a[3], 0, 0, 0, 0]), "widening keeps the number");
            sym::check(Uint256::try_from(w) == Ok(Uint256(a)), "narrowing undoes widening");
        }
        3 => {
            let a = words::<8>("a");
            let big = a[4] | a[5] | a[6] | a[7] != 0;
            sym::cover(if big { "refused" } else { "narrowed" });
            match Uint256::try_from(Uint512(a)) {
                Ok(v) => sym::check(!big && eq(&v.0, &[a[0], a[1], a[2], a[3]]), "narrowing keeps the number"),
                Err(_) => sym::check(big, "narrowing is refused only when the number does not fit"),
            }
        }
        _ => {
            let a = words::<4>("a");
            let s = [0, 1, 63, 64, 100, 192][sym::choose("start", 6)];
            let e = s + sym::choose("length", 256 - s + 1);
            let t = o_shr(&o_shl(&a, 256 - e), 256 - e + s);
            sym::check(eq(&Uint256(a).bit_slice(s, e).0, &t), "a bit range is the number between its ends");
        }
    }
}
