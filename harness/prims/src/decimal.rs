use common::primitives::amount::decimal::subtract_decimal_amounts_of_same_currency;
use common::primitives::amount::{DecimalAmount, SignedAmount};
use common::primitives::Amount;

/// An independent reading of a decimal amount: digits with at most one point, '_' ignored, spaces around.
/// Some((value without point, number of decimals, exceeds)) or None for malformed text.
fn read(s: &str) -> Option<(u128, usize)> {
    let mut v = 0u128;
    let (mut digits, mut dec) = (0, None::<usize>);
    let b = s.as_bytes();
    let (mut lo, mut hi) = (0, b.len());
    while lo < hi && b[lo] == b' ' {
        lo += 1;
    }
    while hi > lo && b[hi - 1] == b' ' {
        hi -= 1;
    }
    for &c in &b[lo..hi] {
        match c {
            b'_' => {}
            b'.' => {
                if dec.is_some() {
                    return None;
                }
                dec = Some(0);
            }
            b'0'..=b'9' => {
                digits += 1;
                v = v * 10 + (c - b'0') as u128;
                if let Some(d) = dec.as_mut() {
                    *d += 1;
                }
            }
            _ => return None,
        }
    }
    if digits == 0 {
        return None;
    }
    Some((v, dec.unwrap_or(0)))
}

fn text(max: usize) -> String {
    let n = sym::choose("len", max + 1);
    let v = sym::vec("text", n);
    for &b in &v {
        sym::assume(b < 0x80);
    }
    String::from_utf8(v).unwrap()
}

//@ prop=C03
//@ time=100
//@ ttime=900
//@ covers=accepted|rejected
//@ bounds=all ASCII strings of up to 5 bytes
#[no_mangle]
pub extern "C" fn h_decimal_parse() {
    let s = text(5);
    let want = read(&s);
    match s.parse::<DecimalAmount>() {
        Ok(d) => {
            sym::cover("accepted");
            sym::check(want.is_some(), "malformed text is rejected");
            let (v, n) = want.unwrap_or((0, 0));
            sym::check(d.mantissa() == v && d.decimals() as usize == n, "the parsed number is the one written");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(want.is_none(), "well-formed text is accepted");
        }
    }
}

//@ prop=C03
//@ time=100
//@ covers=exact|not representable
//@ bounds=texts III.FFF with up to 3 symbolic digits on either side of the point (or no point), converted with 0..=5 decimals
#[no_mangle]
pub extern "C" fn h_amount_from_text() {
    let (ni, nf) = (sym::choose("int digits", 4), sym::choose("frac digits", 4));
    sym::assume(ni + nf > 0);
    let mut s = String::new();
    let (mut v, mut last) = (0u128, 0u8);
    let mut trailing = 0u32; // zeros at the end of the fraction
    for i in 0..ni + nf {
        if i == ni {
            s.push('.');
        }
        let d = sym::range("digit", 0, 9) as u8;
        s.push((b'0' + d) as char);
        v = v * 10 + d as u128;
        if i >= ni {
            trailing = if d == 0 { trailing + 1 } else { 0 };
        }
        last = d;
    }
    let _ = last;
    let decimals = sym::choose("decimals", 6) as u8;
    let got = Amount::from_fixedpoint_str(&s, decimals);
    let need = nf as u32 - trailing;
    if v == 0 || need <= decimals as u32 {
        sym::cover("exact");
        // v / 10^nf * 10^decimals
        let want = if decimals as usize >= nf { v * 10u128.pow(decimals as u32 - nf as u32) } else { v / 10u128.pow(nf as u32 - decimals as u32) };
        sym::check(got == Some(Amount::from_atoms(want)), "the amount is exactly the number written");
    } else {
        sym::cover("not representable");
        sym::check(got.is_none(), "digits below the smallest unit are rejected, not dropped");
    }
    sym::check(SignedAmount::from_fixedpoint_str(&s, decimals).map(|a| a.into_atoms()) == got.map(|a| a.into_atoms() as i128), "signed parsing agrees");
    let neg = format!("-{s}");
    sym::real_fmt(true);
    let neg2 = String::from("-") + &s;
    let _ = neg;
    sym::check(SignedAmount::from_fixedpoint_str(&neg2, decimals).map(|a| a.into_atoms()) == got.map(|a| -(a.into_atoms() as i128)), "a leading minus negates");
    sym::check(Amount::from_fixedpoint_str(&neg2, decimals).is_none(), "an unsigned amount has no sign");
}

//@ prop=C03
//@ time=100
//@ bounds=texts of 250..=260 bytes made of zeros with one point at any of 4 places, spaces or one symbolic character
#[no_mangle]
pub extern "C" fn h_decimal_long() {
    let n = 250 + sym::choose("len", 11);
    let mut b = vec![b'0'; n];
    match sym::choose("point", 5) {
        0 => b[0] = b'.',
        1 => b[1] = b'.',
        2 => b[n - 1] = b'.',
        3 => b[n / 2] = b'.',
        _ => {}
    }
    let k = sym::u8("c");
    sym::assume(k < 0x80);
    b[n - 2] = k;
    let s = String::from_utf8(b).unwrap();
    let r = s.parse::<DecimalAmount>();
    if let Ok(d) = r {
        sym::cover("accepted");
        sym::check(n <= 257, "overlong text is rejected");
        sym::check(s.len() - s.find('.').map_or(s.len(), |p| p + 1) >= d.decimals() as usize, "no more decimals than written");
    }
    let _ = Amount::from_fixedpoint_str(&s, 11);
}

fn print_parse(atoms: u128, decimals: u8) {
    let a = Amount::from_atoms(atoms);
    let s = a.into_fixedpoint_str(decimals);
    sym::check(Amount::from_fixedpoint_str(&s, decimals) == Some(a), "printing and parsing an amount is the identity");
    let b = s.as_bytes();
    sym::check(!b.is_empty() && b[0] != b'.' && b[b.len() - 1] != b'.', "digits on both sides of the point");
    if let Some(p) = s.find('.') {
        sym::cover("point");
        sym::check(b[b.len() - 1] != b'0', "no trailing zeros are printed");
        sym::check(b.len() - p - 1 <= decimals as usize, "no more decimals than the currency has");
        for (i, c) in b.iter().enumerate() {
            sym::check(i == p || c.is_ascii_digit(), "digits only");
        }
    } else {
        sym::cover("integer");
    }
    let full = DecimalAmount::from_amount_full_padding(a, decimals);
    sym::check(full.to_amount(decimals) == Some(a), "the padded form is the same amount");
    if decimals <= 11 {
        sym::check(SignedAmount::from_atoms(-(atoms as i128)).into_fixedpoint_str(decimals).as_bytes().first() == Some(&b'-') || atoms == 0, "negative amounts carry a sign");
    }
}

//@ prop=C03
//@ time=100
//@ ttime=900
//@ covers=point|integer
//@ bounds=amounts m and m*1000 for all m below 1000 printed with 0, 1, 2, 11 and 40 decimals
#[no_mangle]
pub extern "C" fn h_amount_print_parse() {
    sym::real_fmt(true);
    let m = sym::range("m", 0, 999) as u128;
    let atoms = if sym::flag("k") { m * 1000 } else { m };
    print_parse(atoms, [0u8, 1, 2, 11, 40][sym::choose("decimals", 5)]);
}

//@ prop=C03
//@ time=100
//@ covers=point|integer
//@ bounds=amounts within 4 of 0, 10^11, 10^16, 10^19, 2^64, 10^30 and 2^127-1, printed with 0, 1, 11, 18 and 39 decimals
#[no_mangle]
pub extern "C" fn h_amount_print_large() {
    sym::real_fmt(true);
    const B: [u128; 7] = [2, 100_000_000_000, 10_000_000_000_000_000, 10_000_000_000_000_000_000, 1 << 64, 1_000_000_000_000_000_000_000_000_000_000, (1 << 127) - 4];
    let m = sym::choose("m", 6) as u128;
    let atoms = B[sym::choose("base", 7)] + m - 2;
    print_parse(atoms, [0u8, 1, 11, 18, 39][sym::choose("decimals", 5)]);
}

//@ prop=C03
//@ time=60
//@ covers=exact|none
//@ bounds=decimal amounts with any mantissa below 10^4 or above 2^128-16 and 0..=4 decimals, re-scaled to 0..=5 decimals
#[no_mangle]
pub extern "C" fn h_decimal_rescale() {
    let m = sym::range("m", 0, 4095) as u128;
    let m = if sym::flag("large") { u128::MAX - (m & 15) } else { m };
    let (d, e) = (sym::choose("d", 5) as u8, sym::choose("e", 6) as u8);
    let x = DecimalAmount::from_uint_decimal(m, d);
    let y = x.without_padding();
    // same value: y.m * 10^(d - y.d) == m
    let drop = (d - y.decimals()) as u32;
    sym::check(y.decimals() <= d && y.mantissa().checked_mul(10u128.pow(drop)) == Some(m), "without_padding keeps the value");
    sym::check(y.decimals() == 0 || y.mantissa() % 10 != 0, "without_padding leaves no trailing zero");
    match x.with_decimals(e) {
        Some(z) => {
            sym::cover("exact");
            sym::check(z.decimals() == e && e >= d && m.checked_mul(10u128.pow((e - d) as u32)) == Some(z.mantissa()), "with_decimals keeps the value");
        }
        None => {
            sym::cover("none");
            sym::check(e < d || m.checked_mul(10u128.pow((e - d) as u32)).is_none(), "with_decimals fails only if digits would be lost");
        }
    }
}

//@ prop=C03
//@ time=250
//@ covers=difference|negative
//@ bounds=pairs of decimal amounts with mantissas below 4096 and 1000, 0..=3 decimals
#[no_mangle]
pub extern "C" fn h_decimal_subtract() {
    let m = sym::range("m", 0, 4095);
    let n = sym::range("n", 0, 999);
    let (d, e) = (sym::choose("d", 4) as u32, sym::choose("e", 4) as u32);
    let x = DecimalAmount::from_uint_decimal(m as u128, d as u8);
    let y = DecimalAmount::from_uint_decimal(n as u128, e as u8);
    let (a, b) = (m * 10u64.pow(3 - d), n * 10u64.pow(3 - e));
    match subtract_decimal_amounts_of_same_currency(&x, &y) {
        Some(r) => {
            sym::cover("difference");
            sym::check(a >= b, "a negative difference is None");
            sym::check(r.decimals() <= 3 && r.mantissa() < 1 << 30 && r.mantissa() as u64 * 10u64.pow(3 - r.decimals() as u32) == a - b, "the decimal difference is exact");
        }
        None => {
            sym::cover("negative");
            sym::check(a < b, "the decimal difference is None only when negative");
        }
    }
}

/// Any ASCII character; those with a meaning in an amount one by one.
fn character() -> u8 {
    let known = b"0123456789._ ";
    match sym::choose("character", known.len() + 1) {
        i if i < known.len() => known[i],
        _ => {
            let c = sym::u8("other character");
            sym::assume(c < 0x80 && !known.contains(&c));
            c
        }
    }
}

/// As `read`, but None too if the number or its decimals are out of range.
pub fn read_checked(s: &[u8]) -> Option<(u128, u8)> {
    let (mut v, mut digits, mut dec, mut over) = (0u128, 0, None::<usize>, false);
    let (mut lo, mut hi) = (0, s.len());
    while lo < hi && s[lo] == b' ' {
        lo += 1;
    }
    while hi > lo && s[hi - 1] == b' ' {
        hi -= 1;
    }
    for &c in &s[lo..hi] {
        match c {
            b'_' => {}
            b'.' if dec.is_none() => dec = Some(0),
            b'0'..=b'9' => {
                digits += 1;
                dec = dec.map(|d| d + 1);
                match v.checked_mul(10).and_then(|v| v.checked_add((c - b'0') as u128)) {
                    Some(w) => v = w,
                    None => over = true,
                }
            }
            _ => return None,
        }
    }
    if digits == 0 || over || dec.unwrap_or(0) > 255 {
        return None;
    }
    Some((v, dec.unwrap_or(0) as u8))
}

const MAXIMUM: &str = "340282366920938463463374607431768211455";

fn check_text(b: Vec<u8>) {
    let want = read_checked(&b);
    let n = b.len();
    let s = String::from_utf8(b).unwrap();
    match s.parse::<DecimalAmount>() {
        Ok(d) => {
            sym::cover("accepted");
            sym::check(want == Some((d.mantissa(), d.decimals())), "the parsed number is the one written");
        }
        Err(_) => {
            sym::cover("rejected");
            // texts longer than any printed amount may be refused
            sym::check(want.is_none() || n > 257, "well-formed text is accepted");
        }
    }
}

//@ prop=C03
//@ time=100
//@ ttime=900
//@ covers=accepted|rejected
//@ bounds=12 texts of up to 44 bytes around the largest number with a point at any place, and one of their characters replaced by any other
#[no_mangle]
pub extern "C" fn h_decimal_wide() {
    let t = [
        MAXIMUM,
        "34028236692093846346337460743176821145",
        "0000000000000000000000000000000000000000000",
        "100000000000000000000000000000000000000",
        "  1_000_000 ",
        "99999999999999999999999999999999999999",
    ][sym::choose("text", 6)];
    let mut b = t.as_bytes().to_vec();
    if sym::flag("point") {
        b.insert(sym::choose("point at", b.len() + 1), b'.');
    }
    let at = [0, 1, b.len() / 2, b.len() - 2, b.len() - 1][sym::choose("place", 5)];
    b[at] = character();
    check_text(b);
}

//@ prop=C03
//@ time=100
//@ covers=accepted|rejected
//@ bounds=texts of 37..=45 and 252..=260 bytes of zeros with a point at any of 5 places and any character at each of three places
#[no_mangle]
pub extern "C" fn h_decimal_zeros() {
    let n = [37, 252][sym::choose("range", 2)] + sym::choose("length", 9);
    let mut b = vec![b'0'; n];
    match sym::choose("point", 6) {
        0 => b[0] = b'.',
        1 => b[1] = b'.',
        2 => b[n - 40.min(n)] = b'.',
        3 => b[n - 2] = b'.',
        4 => b[n - 1] = b'.',
        _ => {}
    }
    for i in [2, n / 2, n - 1] {
        if b[i] != b'.' && sym::flag("character here") {
            b[i] = character();
            break;
        }
    }
    check_text(b);
}

//@ prop=C03
//@ time=60
//@ covers=fits|refused
//@ bounds=signed texts within 9 of the ends of the range, with and without sign, point and decimals; any sign character
#[no_mangle]
pub extern "C" fn h_signed_text() {
    let last = sym::u8("digit");
    sym::assume(last.is_ascii_digit());
    let d = (last - b'0') as u128;
    let decimals = [0u8, 1, 38][sym::choose("decimals", 3)];
    let mut b = b"17014118346046923173168730371588410572".to_vec();
    b.push(last);
    let v = ((1u128 << 127) / 10) * 10 + d;
    let at = b.len() - decimals as usize;
    if decimals > 0 {
        b.insert(at, b'.');
    }
    let sign = sym::choose("sign", 4);
    match sign {
        0 => {}
        1 => b.insert(0, b'-'),
        2 => {
            let c = sym::u8("sign");
            sym::assume(c < 0x80 && !b"-0 _.123456789"[..].contains(&c));
            b.insert(0, c);
        }
        _ => {
            b.insert(0, b'-');
            b.insert(0, b'-');
        }
    }
    let s = String::from_utf8(b).unwrap();
    let got = SignedAmount::from_fixedpoint_str(&s, decimals).map(|a| a.into_atoms());
    sym::cover(if got.is_some() { "fits" } else { "refused" });
    let want = match sign {
        0 => i128::try_from(v).ok(),
        1 => 0i128.checked_sub_unsigned(v),
        _ => None,
    };
    sym::check(got == want, "a signed amount is exactly the number written");
}

//@ prop=C03
//@ time=60
//@ covers=long|short
//@ bounds=amounts of up to 16 and near 2^128 in decimal form with 0, 38, 39, 40, 200 and 255 decimals, also after changing decimals
#[no_mangle]
pub extern "C" fn h_decimal_print_wide() {
    sym::real_fmt(true);
    let m = sym::concretize(sym::range("m", 0, 15)) as u128;
    let m = [m, m * 10, u128::MAX - m][sym::choose("size", 3)];
    let dec = [0u8, 38, 39, 40, 200, 255][sym::choose("decimals", 6)];
    let d = DecimalAmount::from_uint_decimal(m, dec);
    let s = d.to_string();
    sym::cover(if s.len() > 100 { "long" } else { "short" });
    sym::check(read_checked(s.as_bytes()) == Some((m, dec)), "a decimal amount is printed as the number it is");
    sym::check(s.parse::<DecimalAmount>().ok().is_some_and(|e| e.is_same(&d)), "a printed decimal amount is read back");
    let a = Amount::from_atoms(m);
    sym::check(Amount::from_fixedpoint_str(&a.into_fixedpoint_str(dec), dec) == Some(a), "printing and parsing an amount is the identity");
    let w = d.with_decimals(255);
    let ok = 10u128.checked_pow(255 - dec as u32).and_then(|p| p.checked_mul(m));
    sym::check(w.map(|w| (w.mantissa(), w.decimals())) == if m == 0 { Some((0, 255)) } else { ok.map(|v| (v, 255)) }, "changing decimals keeps the number or fails");
}

//@ prop=C03
//@ time=60
//@ bounds=differences of decimal amounts within 15 of 2^128 with 3 decimals and amounts of up to 15 with 0 to 5 decimals, also padded with zeros
#[no_mangle]
pub extern "C" fn h_decimal_subtract_large() {
    let m = u128::MAX - sym::concretize(sym::range("m", 0, 15)) as u128;
    let n = sym::concretize(sym::range("n", 0, 15)) as u128;
    let e = sym::choose("e", 4) as u32;
    let pad = sym::choose("padding", 4) as u32;
    let x = DecimalAmount::from_uint_decimal(m, 3);
    let y = DecimalAmount::from_uint_decimal(n * 10u128.pow(pad), (e + pad) as u8);
    let diff = m - n * 10u128.pow(3 - e);
    let r = subtract_decimal_amounts_of_same_currency(&x, &y);
    sym::check(r.is_some(), "the decimal difference is None only when negative");
    if let Some(r) = r {
        sym::check(r.decimals() <= 3 && r.mantissa().checked_mul(10u128.pow(3 - r.decimals() as u32)) == Some(diff), "the decimal difference is exact");
    }
    let zero = subtract_decimal_amounts_of_same_currency(&x, &x);
    sym::check(zero.is_some_and(|z| z.mantissa() == 0), "an amount less itself is zero");
    sym::check(m == u128::MAX || subtract_decimal_amounts_of_same_currency(&x, &DecimalAmount::from_uint_decimal(m + 1, 3)).is_none(), "a negative difference is None");
}
